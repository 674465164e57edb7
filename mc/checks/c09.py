"""C09: Miriad files hold the object: writing and reading back gives the same visibilities, each under its own labels."""

import itertools
import os

import numpy as np
from pyuvdata import UVData, utils
from scipy.interpolate import interp1d

from mc import gen, io
from mc.checks import c07
from mc.core import expect_raises, require
from mc.model import DATA, Frozen, UVModel, compare_uv

ID = "C09"
BOUNDS = (
    "write_miriad then read of every object in the product of 5 blt layouts x 6 spectral window layouts (single channels, descending, reversed) x {unprojected, sidereal, several centers, mixed with "
    "unprojected, moving, drifting}, with antenna numberings (sparse, permuted, large), polarization sets and orders, precisions, recorded row orders, integration times, extra keywords and optional metadata, "
    "files with and without antenna numbers and both ways of making LSTs; two generations; clobbering; refused objects. A state is a distinct object read back."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]
LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
SPW = ["one", "one_desc", "two", "two_eqw", "two_rev", "single"]
PCS = ["unproj", "sidA", "multi", "mixed", "ephem", "drift", "mixeph", "epochs", "unused"]
ANTS = ["three", "conj", "cross", "autos", "sorted"]
POLS = [(-5, -6, -7, -8), (-8, -5, -7, -6), (-5,), (-7, -8), (-1, -3, -4, -2), (-6, -5), (1, 2, 3, 4), (-8, -6), (4, 1)]
ORD = [None, ("time", "baseline"), ("baseline", "time"), ("ant1", "ant2"), ("ant2", "time"), ("time", "ant1"), ("bda",)]


def cases(tier):
    out = []
    i = 0
    for lay, spw, pc in itertools.product(LAY, SPW, PCS):
        for r in range(2 if tier == "quick" else 12):
            kw = dict(
                layout=lay, spw=spw if spw != "single" else "one", pc=pc, ants=ANTS[(i + r) % 5], pols=POLS[(i * 4 + r) % 9], dtype=("complex128", "complex64")[(i + r // 2) % 2],
                nf=(4, 3, 5)[(i // 5) % 3] if spw != "single" else 1, nt=(3, 2, 1)[(i // 2 + r) % 3], diam=bool((i // 2 + r) % 2), x_orient=("east", None, "north")[(i + r) % 3],
                inttime=("const", "bybl", "blt")[(i // 3 + r) % 3], extras=bool((i + r) % 3), vis_units=("Jy", "uncalib", "K str")[(i // 2 + r) % 3], seed=i % 5,
            )
            if spw == "two" and i % 4 == 0:
                kw["nf"] = 2  # one channel in each window
            w = {}
            a = (i // 2 + r) % 5
            if a == 1:
                kw["_antoff"] = 1
            if a == 3:
                w["map"] = 1
            if a == 4 and r:
                kw["_antoff"] = 240
            o = ORD[(i // 3 + r * 2) % 7]
            if o and o != ("bda",):
                w["order"] = list(o)
            elif o:
                w["bda"] = 1
            if (i + r) % 4 == 1:
                w["calc_lst"] = True
            if (i + r) % 5 == 2:
                w["read_lst"] = False
            if (i // 3 + r) % 6 == 4:
                w["clobber"] = True
            if (i // 2 + r) % 7 == 3:
                w["samediam"] = True
            out.append(["rt", kw, w])
            i += 1
    base = dict(layout="ragged", pc="multi", ants="conj", pols=(-5, -6))
    for ex in [{}, {"A": "text"}, {"f": 2.5, "I": -3, "T": True, "F": False, "s": "a b"}, {"np": 7, "eight888": 1.25}]:
        out.append(["rt", dict(base, extras=False, _set={"extra_keywords": ex}), {}])
    for pcv in ("sum", "avg"):
        out.append(["rt", dict(base, _set={"pol_convention": pcv}), {}])
    for flags in ("pol", "row", "all", "firstpol"):
        for pc in ("unproj", "multi", "ephem"):
            out.append(["rt", dict(base, pc=pc, pols=(-5, -6, -7)), {"flags": flags}])
    for pc in ("unproj", "sidA", "multi", "ephem"):
        for lay in ("time", "bl"):
            for n in (0, 1):
                out.append(["noants", dict(base, pc=pc, layout=lay, ants="three"), n])
    for bad in ("exists", "unevenf", "list", "complex", "dict", "meta", "gap", "samename", "chanwidth", "moon"):
        out.append(["bad", bad])
    return out


def build(kw, w):
    uv = io.build(kw) if kw.get("pc") != "mixeph" else io.build(dict(kw, pc="multi"))
    if kw.get("pc") == "mixeph":
        uv.phase_center_catalog[1] = gen.pc_entry("ephem")
        uv._set_app_coords_helper()
        uv.set_uvws_from_antenna_positions(update_vis=False)
    if w.get("map"):
        # the antenna numbers are a permutation of 0..4
        mp = {3: 2, 0: 0, 12: 4, 7: 1, 5: 3}
        uv.telescope.antenna_numbers = np.array([mp[x] for x in uv.telescope.antenna_numbers])
        uv.ant_1_array = np.array([mp[x] for x in uv.ant_1_array])
        uv.ant_2_array = np.array([mp[x] for x in uv.ant_2_array])
        uv.baseline_array = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
    if w.get("samediam"):
        uv.telescope.antenna_diameters = np.full(uv.telescope.Nants, 6.5)
    if w.get("order"):
        uv.reorder_blts(order=w["order"][0], minor_order=w["order"][1])
    if w.get("bda"):
        uv.reorder_blts(order="bda")
    if w.get("flags"):
        f = np.zeros_like(uv.flag_array)
        f[::3, 1] = True
        if w["flags"] == "pol":
            f[:, :, 1] = True
        elif w["flags"] == "firstpol":
            f[:, :, 0] = True
        elif w["flags"] == "row":
            f[::2] = True
        else:
            f[:] = True
        uv.flag_array = f
    return uv


CONJ = {-1: -1, -2: -2, -3: -4, -4: -3, -5: -5, -6: -6, -7: -8, -8: -7, 1: 1, 2: 2, 3: 3, 4: 4}


def expected(uv):
    """Every baseline the way round Miriad has it."""
    m = UVModel(uv)
    c = m.c
    flip = c["ant_1_array"] > c["ant_2_array"]
    pols = c["polarization_array"].tolist()
    if flip.any():
        a, b = c["ant_1_array"].copy(), c["ant_2_array"].copy()
        c["ant_1_array"][flip], c["ant_2_array"][flip] = b[flip], a[flip]
        c["uvw_array"][flip] *= -1
        old = {n: c[n].copy() for n in DATA}
        for ip, p in enumerate(pols):
            q = CONJ[p]
            src = pols.index(q) if q in pols else None
            if src is None:
                return None  # cannot be turned round
            for n in DATA:
                c[n][flip, :, ip] = old[n][flip][:, :, src]
        c["data_array"][flip] = np.conj(c["data_array"][flip])
    c["data_array"] = c["data_array"].astype(np.complex64)
    c["integration_time"] = np.float32(c["integration_time"]).astype(float)
    c["scan_number_array"] = None
    c["baseline_array"] = None
    c["eq_coeffs"] = None
    m.g["eq_coeffs_convention"] = None
    ids = m.c["flex_spw_id_array"].tolist()
    new = {s: i for i, s in enumerate(dict.fromkeys(ids))}
    c["flex_spw_id_array"] = np.array([new[s] for s in ids])
    m.spw = np.arange(len(new))
    d = m.ant["antenna_diameters"]
    if d is not None and len(set(d.tolist())) > 1:
        m.ant["antenna_diameters"] = None
    return m


TOL = {
    "uvw_array": (0, 1e-9), "time_array": (0, 1e-8), "lst_array": (0, 2e-8), "phase_center_app_ra": (0, 1e-7), "phase_center_app_dec": (0, 1e-7), "phase_center_frame_pa": (0, 1e-7), "integration_time": (1e-6, 0), "freq_array": (1e-14, 0),
    "channel_width": (1e-12, 0), "antenna_positions": (0, 1e-6), "antenna_diameters": (1e-12, 0), "nsample_array": (1e-6, 0), "earth_omega": (1e-14, 0), "data_array": (1e-7, 0),
}


def rowkey(t, a, b):
    return [(round((x - gen.JD0) * 86400, 1), int(p), int(q)) for x, p, q in zip(t, a, b)]


def compare(uv, m, r, what, skip=()):
    c = m.c
    k0, k1 = rowkey(c["time_array"], c["ant_1_array"], c["ant_2_array"]), rowkey(r.time_array, r.ant_1_array, r.ant_2_array)
    require(len(set(k0)) == len(k0), "case keys")
    require(sorted(k0) == sorted(k1), f"{what}: rows {k0[:5]} became {k1[:5]}")
    m = m.take_blt([k0.index(k) for k in k1])
    c = m.c
    # row order
    st = r.time_array - r.integration_time / 86400 / 2
    turned = bool((uv.ant_1_array > uv.ant_2_array).any())
    if uv.blt_order is None or (turned and r.blt_order is None):
        # turning baselines round can spoil a recorded order
        o = sorted(range(len(k1)), key=lambda i: (round(st[i] * 86400 * 10), k1[i][1], k1[i][2], r.integration_time[i]))
        require(o == list(range(len(k1))), f"{what}: rows not in order of time and baseline")
        require(r.blt_order is None, f"{what}: row order {r.blt_order}")
    else:
        require(r.blt_order == uv.blt_order, f"{what}: row order {uv.blt_order} became {r.blt_order}")
        col = {"time": r.time_array, "ant1": r.ant_1_array, "ant2": r.ant_2_array, "baseline": r.baseline_array}
        if uv.blt_order[0] in col:
            rows = list(zip(*[col[x] for x in uv.blt_order]))
            require(all(x <= y for x, y in zip(rows, rows[1:])), f"{what}: rows are not in the order {uv.blt_order} recorded")
    # centers
    require(len({e["cat_name"] for e in r.phase_center_catalog.values()}) == len(r.phase_center_catalog) == len(set(c["phase_center_id_array"].tolist())), f"{what}: phase centers {[e['cat_name'] for e in r.phase_center_catalog.values()]}")
    for i in range(len(k1)):
        x, y = m.cat[c["phase_center_id_array"][i]], r.phase_center_catalog[r.phase_center_id_array[i]]
        t = c["time_array"][i]
        w2 = f"{what}: phase center of row {k1[i]}"
        require(x["cat_name"] == y["cat_name"], f"{w2}: {x['cat_name']} became {y['cat_name']}")
        ty = {"driftscan": "ephem"}.get(x["cat_type"], x["cat_type"])
        lone = len(set(c["time_array"][c["phase_center_id_array"] == c["phase_center_id_array"][i]].round(6).tolist())) == 1
        if ty == "ephem" and lone:
            ty = "sidereal"  # one position only
        require(y["cat_type"] == ty, f"{w2}: type {x['cat_type']} became {y['cat_type']}")
        if ty == "unprojected":
            continue
        if x["cat_type"] == "driftscan":
            require(y["cat_frame"] == "fk5", f"{w2}: frame {y['cat_frame']}")
            continue
        require(x["cat_frame"] == y["cat_frame"], f"{w2}: frame {x['cat_frame']} became {y['cat_frame']}")
        require(x.get("cat_epoch") == y.get("cat_epoch"), f"{w2}: epoch {x.get('cat_epoch')} became {y.get('cat_epoch')}")
        for n in ("cat_lon", "cat_lat"):
            u = x[n]
            v = y[n]
            if x["cat_type"] == "ephem":
                tt, uu = np.asarray(x["cat_times"]), np.asarray(u)
                u = interp1d(tt, uu, kind="slinear" if len(tt) <= 4 else "cubic")(t) if len(tt) > 1 else uu[0]
            if ty == "ephem":
                j = int(np.argmin(np.abs(y["cat_times"] - t)))
                require(abs(y["cat_times"][j] - t) < 1e-8, f"{w2}: no ephemeris entry at the time of the row")
                v = y["cat_lon" if n == "cat_lon" else "cat_lat"][j]
            require(np.isclose(u, v, rtol=0, atol=1e-9), f"{w2}: {n} {u} became {v}")
    ex, got = dict(m.g["extra_keywords"]), dict(r.extra_keywords)
    require({k.lower(): v for k, v in ex.items()} == {k.lower(): v for k, v in got.items()}, f"{what}: extra keywords {ex} became {got}")
    m.g["extra_keywords"] = got
    compare_uv(m, r, what, tol=TOL, cat=None, skip=("baseline_array", "phase_center_id_array") + tuple(skip), counts=False)
    require(np.array_equal(r.baseline_array, c07.blnum(r)), f"{what}: baseline numbers")
    for k, v in (("Nblts", len(k1)), ("Ntimes", len(set(r.time_array.tolist()))), ("Nbls", len({x[1:] for x in k1})), ("Nfreqs", len(c["freq_array"])), ("Npols", len(c["polarization_array"])), ("Nspws", len(m.spw)), ("Nphase", len(r.phase_center_catalog))):
        require(getattr(r, k) == v, f"{what}: {k} is {getattr(r, k)} not {v}")


def run(case, ctx):
    p = io.path(".mir")
    try:
        globals()["run_" + case[0]](case, ctx, p)
    finally:
        io.rm(p)
    ctx.trace()


def run_rt(case, ctx, p):
    _, kw, w = case
    uv = build(kw, w)
    m = expected(uv)
    fr = Frozen(uv)
    wk = {}
    if w.get("calc_lst"):
        wk["calc_lst"] = True
    if w.get("clobber"):
        io.build(dict(layout="ragged", pc="sidA", ants="sorted", nt=3, spw="two")).write_miriad(p)
        wk["clobber"] = True
    ctx.step()
    if m is None:
        expect_raises(lambda: uv.write_miriad(p, **wk), Exception, "baselines that cannot be turned round")
        fr.check(uv, "refused write_miriad")
        return
    uv.write_miriad(p, **wk)
    fr.check(uv, "write_miriad")
    rk = {"calc_lst": False} if w.get("read_lst") is False else {}
    r = UVData()
    r.read(p, **rk)
    ctx.step()
    compare(uv, m, r, "miriad")
    require(r.filename == [os.path.basename(p)], f"filename {r.filename}")
    require(uv.history.strip() in r.history, f"history lost: {uv.history!r} became {r.history!r}")
    require(r.check(), "check")
    ctx.state(UVModel(r).digest())
    io.rm(p)
    m2 = expected(r)
    r.write_miriad(p)
    r2 = UVData.from_file(p)
    ctx.step(2)
    compare(r, m2, r2, "second generation")
    require(np.array_equal(r2.data_array, r.data_array), "second generation data")


def run_noants(case, ctx, p):
    _, kw, n = case
    uv = build(kw, {"samediam": 1})
    uv.write_miriad(p, no_antnums=True)
    r = UVData.from_file(p) if n else UVData()
    if not n:
        r.read_miriad(p)
    ctx.step(2)
    m = expected(uv)
    # antennas come back in order of number
    m = m.take_ant(np.argsort(m.ant["antenna_numbers"]))
    names = dict(zip(uv.telescope.antenna_numbers, uv.telescope.antenna_names))
    g = {int(a): i for i, a in enumerate(r.telescope.antenna_numbers)}
    require(set(g) == set(names), f"antennas {sorted(g)}")
    pos = dict(zip(uv.telescope.antenna_numbers, uv.telescope.antenna_positions))
    for a, i in g.items():
        require(np.allclose(r.telescope.antenna_positions[i], pos[a], rtol=0, atol=1e-6), f"position of antenna {a}")
    m.ant = UVModel(r).ant
    compare(uv, m, r, "without antenna numbers")
    ctx.state(UVModel(r).digest())


def run_bad(case, ctx, p):
    bad = case[1]
    uv = io.build(dict(layout="time", pc="multi", ants="two", nf=4))
    if bad == "exists":
        uv.write_miriad(p)
        before = UVData.from_file(p)
        uv.data_array = uv.data_array * 2
    if bad == "unevenf":
        uv.freq_array[2] += 3e4
    if bad == "gap":
        uv.freq_array[2:] += 2e5
    if bad == "chanwidth":
        uv.channel_width[1] *= 2
    if bad in ("list", "complex", "dict"):
        uv.extra_keywords["K"] = {"list": [1, 2], "complex": np.complex64(1 + 2j), "dict": {"a": 1}}[bad]
    if bad == "meta":
        uv = uv.copy(metadata_only=True)
    if bad == "moon":
        from lunarsky import MoonLocation

        uv.telescope.location = MoonLocation.from_selenodetic(0.6, 0.4, 10.0)
    if bad == "samename":
        for v in uv.phase_center_catalog.values():
            v["cat_name"] = "same"
    fr = Frozen(uv)
    ctx.step()
    expect_raises(lambda: uv.write_miriad(p), Exception, bad)
    fr.check(uv, bad)
    if bad == "exists":
        require(UVData.from_file(p) == before, "existing file changed")
    ctx.outcome(bad)
