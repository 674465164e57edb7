"""C38: filling in telescope information: only what is missing (or everything when asked), each antenna
from its own record, everywhere it is offered."""

import csv
import itertools
import os
import warnings

import numpy as np

from mc import gen
from mc.core import digest, require
from mc.model import Frozen

ID = "C38"
BOUNDS = (
    "HERA's catalogue; three antennas (in three catalogue orders in the thorough tier), each known by name, by number, by both (agreeing or pointing at different records) or by neither (all 125 combinations), x every subset of "
    "{names, numbers, positions, diameters, orientation, location} present x overwriting or not x warning or not; telescopes created by name; UVData, UVCal and UVFlag objects lacking parts; names in any case; "
    "unknown and unnamed telescopes"
)
ASSUMPTIONS = ["the number of antennas is recorded whenever any antenna information is", "the catalogue file shipped with the package is the reference"]

PICKS = [(5, 0, 9), (2, 30, 7), (1, 2, 3)]
KINDS = ("both", "name", "num", "cross", "none")
PARAMS = ("antenna_names", "antenna_numbers", "antenna_positions", "antenna_diameters", "x_orientation", "location")


def cases(tier):
    out = []
    for p in range(len(PICKS) if tier == "thorough" else 1):
        for k in itertools.product(range(len(KINDS)), repeat=3):
            out.append(["fill", p, list(k)])
    out.append(["new"])
    out.append(["bad"])
    for obj in ("uvd", "uvc", "uvf"):
        for order in itertools.permutations(range(3)):
            out.append(["obj", obj, list(order)])
    return out


_K = None


def known():
    global _K
    if _K is None:
        import pyuvdata

        rows = list(csv.DictReader(open(os.path.join(os.path.dirname(pyuvdata.__file__), "data", "hera_ant_pos.csv"))))
        _K = [(r["name"], int(r["number"]), np.array([float(r["x"]), float(r["y"]), float(r["z"])])) for r in rows]
    return _K


def other_loc():
    from astropy.coordinates import EarthLocation

    return EarthLocation.from_geodetic(100.0, 20.0, 50.0)


def hera_loc(loc):
    return abs(loc.lat.deg + 30.72152612068925) < 1e-9 and abs(loc.lon.deg - 21.42830382686301) < 1e-9 and abs(loc.height.to_value("m") - 1051.69) < 1e-5


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case[0]](ctx, *case[1:])


def match(names, nums):
    """Catalogue record of every antenna, or None."""
    k = known()
    n = len(names if names is not None else nums)
    rec = [None] * n
    if names is not None:
        for i in range(n):
            for j, r in enumerate(k):
                if r[0] == names[i]:
                    rec[i] = j
    if nums is not None and None in rec:
        for i in range(n):
            if rec[i] is None:
                for j, r in enumerate(k):
                    if r[1] == nums[i] and j not in rec:
                        rec[i] = j
    return None if None in rec else rec


def _fill(ctx, p, kinds):
    from pyuvdata import Telescope

    k = known()
    pick = PICKS[p]
    names, nums = [], []
    for i, (j, kd) in enumerate(zip(pick, kinds)):
        kd = KINDS[kd]
        names.append(k[j][0] if kd in ("both", "name", "cross") else f"zz{i}")
        nums.append(k[j][1] if kd in ("both", "num") else k[(j + 11) % len(k)][1] if kd == "cross" else 9000 + i)
    if len(set(nums)) < 3 or len(set(names)) < 3:
        return
    for have in itertools.product((False, True), repeat=6):
        h = dict(zip(PARAMS, have))
        some = any(have[:3])
        if h["antenna_diameters"] and not some:
            continue
        for over, warn in ((False, True), (True, False), (False, False)):
            t = Telescope()
            t.name = ("HERA", "hera", "Hera")[sum(kinds) % 3]
            want = {}
            vals = dict(
                antenna_names=np.array(names), antenna_numbers=np.array(nums), antenna_positions=np.arange(9.0).reshape(3, 3), antenna_diameters=np.array([3.0, 4.0, 5.0]), x_orientation="north",
                location=other_loc(),
            )
            for q in PARAMS:
                if h[q]:
                    setattr(t, q, vals[q])
                want[q] = vals[q] if h[q] else None
            if some:
                t.Nants = 3
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                t.update_params_from_known_telescopes(overwrite=over, warn=warn, run_check=False)
            what = f"names {names} numbers {nums}, present {[q for q in PARAMS if h[q]]}, overwrite={over}"
            # the definition
            n = 3
            full = over or not some
            if full:
                n = len(k)
                want.update(antenna_names=np.array([r[0] for r in k]), antenna_numbers=np.array([r[1] for r in k]), antenna_positions=np.array([r[2] for r in k]))
            elif h["antenna_names"] or h["antenna_numbers"]:
                rec = match(names if h["antenna_names"] else None, nums if h["antenna_numbers"] else None)
                if rec is not None:
                    for q, pos in (("antenna_names", 0), ("antenna_numbers", 1), ("antenna_positions", 2)):
                        if not h[q]:
                            want[q] = np.array([k[j][pos] for j in rec])
            if over or not h["antenna_diameters"]:
                want["antenna_diameters"] = np.full(n, 14.0)
            require(t.Nants == n, f"{what}: {t.Nants} antennas")
            for q in PARAMS[:4]:
                got = getattr(t, q)
                if want[q] is None:
                    require(got is None, f"{what}: {q} became {got}")
                elif got is None:
                    require(False, f"{what}: {q} was not filled in")
                elif q == "antenna_positions":
                    require(got.shape == want[q].shape and np.allclose(got, want[q], atol=1e-6, rtol=0), f"{what}: {q} is {got} instead of {want[q]}")
                else:
                    require(np.array_equal(got, want[q]), f"{what}: {q} is {got} instead of {want[q]}")
            require(t.x_orientation == want["x_orientation"], f"{what}: orientation {t.x_orientation}")
            if h["location"] and not over:
                require(t.location == other_loc(), f"{what}: the location was replaced")
            else:
                require(hera_loc(t.location), f"{what}: location {t.location}")
            msg = " ".join(str(x.message) for x in w)
            if warn:
                changed = [q for q in PARAMS[:4] if (want[q] is not None and not h[q])]
                require(all(q in msg for q in changed), f"{what}: no warning about {changed}: {msg}")
            else:
                require("are not set or are being overwritten" not in msg, f"{what}: an unwanted warning")
            ctx.step()
            ctx.state(digest((names, nums, have, over)))


def _new(ctx):
    from pyuvdata import Telescope, telescopes

    k = known()
    for name in ("HERA", "hera", "Hera"):
        t = Telescope.from_known_telescopes(name)
        require(t.name == name and t.Nants == len(k), "telescope by name")
        require(np.array_equal(t.antenna_names, [r[0] for r in k]) and np.array_equal(t.antenna_numbers, [r[1] for r in k]), "antennas by name")
        require(np.allclose(t.antenna_positions, [r[2] for r in k], atol=1e-6, rtol=0) and hera_loc(t.location), "positions by name")
        # two telescopes share nothing
        u = Telescope.from_known_telescopes(name)
        fz = Frozen(u)
        t.antenna_positions += 5
        t.antenna_diameters += 1
        t.antenna_numbers += 1
        fz.check(u, "changing another telescope of the same name")
        require(np.allclose(Telescope.from_known_telescopes(name).antenna_diameters, 14.0), "a later telescope has changed values")
        ctx.step()
    for name, lat in (("PAPER", -30.721527777777776), ("SMA", 19.824205263888889), ("SZA", 37.280380499999996), ("OVRO-LWA", 37.239777271)):
        loc = telescopes.known_telescope_location(name)
        require(abs(loc.lat.deg - lat) < 1e-9, f"location of {name}: {loc.lat.deg}")
        loc2, cit = telescopes.known_telescope_location(name, return_citation=True)
        require(loc2 == loc and isinstance(cit, str), "citation")
        t = Telescope.from_known_telescopes(name, run_check=False)
        require(t.location == loc and t.citation == cit and t.antenna_positions is None, f"telescope {name}")
        ctx.step()
        ctx.state(name)


def _bad(ctx):
    from mc.core import expect_raises
    from pyuvdata import Telescope, telescopes

    t = Telescope()
    expect_raises(lambda: t.update_params_from_known_telescopes(), ValueError, "a telescope without a name")
    expect_raises(lambda: Telescope.from_known_telescopes("nosuchtelescope"), ValueError, "an unknown telescope")
    expect_raises(lambda: telescopes.known_telescope_location("nosuchtelescope"), ValueError, "an unknown telescope")
    for over in (False, True):
        t = gen.telescope(3)
        t.name = "nosuchtelescope"
        fz = Frozen(t)
        if over:
            expect_raises(lambda: t.update_params_from_known_telescopes(overwrite=True), ValueError, "overwriting from an unknown telescope")
        else:
            t.update_params_from_known_telescopes()
        fz.check(t, "an unknown telescope")
        ctx.step()
    ctx.state("bad")


def _obj(ctx, kind, order):
    """Objects that hold a telescope offer the same."""
    from mc import cal, flag  # noqa

    k = known()
    pick = [PICKS[0][i] for i in order] + [20, 40]
    for miss in itertools.product((False, True), repeat=3):
        uv = gen.uvd(layout="shuffle")
        n = uv.telescope.Nants
        t = uv.telescope
        t.name = "HERA"
        from pyuvdata import UVFlag

        if kind == "uvc":
            from mc.cal import uvc as mkcal

            obj = mkcal()
            obj.telescope.name = "HERA"
        elif kind == "uvf":
            obj = UVFlag(uv, mode="flag")
        else:
            obj = uv
        t = obj.telescope
        n = t.Nants
        t.antenna_names = np.array([k[j][0] for j in pick[:n]]) if n <= len(pick) else t.antenna_names
        if n > len(pick):
            return
        old = {q: np.array(getattr(t, q), copy=True) for q in ("antenna_numbers", "antenna_names")}
        if miss[0]:
            t.antenna_positions = None
        if miss[1]:
            t.antenna_diameters = None
        if miss[2]:
            t.location = None
        pos = None if t.antenna_positions is None else t.antenna_positions.copy()
        dia = None if t.antenna_diameters is None else t.antenna_diameters.copy()
        loc = t.location
        obj.set_telescope_params(run_check=False, warn=False)
        t = obj.telescope
        require(all(np.array_equal(getattr(t, q), v) for q, v in old.items()), "antenna labels changed")
        require(np.allclose(t.antenna_positions, np.array([k[j][2] for j in pick[:n]]) if miss[0] else pos, atol=1e-6, rtol=0), f"positions {t.antenna_positions} of {t.antenna_names}")
        require(dia is None and np.allclose(t.antenna_diameters, 14.0) or dia is not None and np.array_equal(dia, t.antenna_diameters), "diameters")
        require(hera_loc(t.location) if miss[2] else t.location == loc, "location")
        ctx.step()
        ctx.state((kind, tuple(order), miss))
