"""C18: applying a calibration, sample by sample."""

import itertools

import numpy as np
from pyuvdata import utils

from mc import cal, gen
from mc.core import Violation, digest, require
from mc.model import Frozen

ID = "C18"
BOUNDS = (
    "utils.uvcalibrate of every combination of 5 row layouts (complete, ragged, shuffled) x 9 time forms of the calibration (same times, "
    "reversed, permuted, superset, single, single elsewhere, ranges, permuted ranges, one range) x 7 frequency forms (same, descending, "
    "superset, permuted windows, delays of both signs), crossed with antenna orders, renumbered antennas with equal names, missing antennas, "
    "dipole orientations, Jones sets and orders, both gain conventions, flag propagation, conjugation, undo, in place or not, data precisions; every "
    "combination of polarization conventions on object and call; apply-then-undo; every refused request. Oracle: V' = V / (g1 conj(g2)) per labelled sample."
)
ASSUMPTIONS = ["gains are of order one (a product below 1e-8 counts as zero in the code)", "a frequency that occurs in two windows is matched in order"]

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
TM = ["same", "rev", "perm", "super", "single", "singleoff", "ranges", "rangesperm", "onerange"]
FM = ["same", "rev", "super", "spwswap", "delay", "delayplus", "perm"]
POLS = [(-5, -6, -7, -8), (-5, -6), (-8, -5, -6), (-7,), (-6,)]
AM = ["all", "order", "renum", "missing", "missing2", "allmissing"]


def cases(tier):
    out = []
    i = 0
    reps = 8 if tier == "thorough" else 3
    for lay, tm, fm in itertools.product(LAY, TM, FM):
        for r in range(reps):
            n = i + r * 7
            out.append(["cal", dict(
                lay=lay, tm=tm, fm=fm, spw=("one", "two", "one_desc", "two_rev")[(n // 2) % 4], pols=POLS[n % 5], am=AM[(n // 3) % 6], dx=("east", "north", None)[(n // 2) % 3],
                cx=("east", "north")[(n // 5) % 2], jones=[(-5, -6), (-6, -5), (-5, -6, -7, -8), (-7, -6, -5)][(n // 4) % 4], conv=("divide", "multiply")[n % 2],
                prop=bool((n // 2) % 3), flip=bool((n // 3) % 2), undo=bool((n // 5) % 2), inplace=bool(n % 3), ants=("three", "conj", "cross", "autos")[n % 4],
                dtype=("complex128", "complex64")[(n // 3) % 2], quality=bool(n % 2), seed=n % 5)])
            i += 1
    base = dict(lay="ragged", tm="same", fm="same", spw="one", pols=(-5, -6, -7, -8), am="all", dx="east", cx="east", jones=(-5, -6), conv="divide",
                prop=True, flip=False, undo=False, inplace=True, ants="three", dtype="complex128", quality=True, seed=1)
    for conv, prop, flip, undo, inp, fm in itertools.product(("divide", "multiply"), (True, False), (True, False), (True, False), (True, False), ("same", "delayplus")):
        out.append(["cal", dict(base, conv=conv, prop=prop, flip=flip, undo=undo, inplace=inp, fm=fm)])
    for circ in [(-1, -2, -3, -4), (-2, -1), (-4,)]:
        out.append(["cal", dict(base, pols=circ, jones=(-1, -2), lay="shuffle", tm="perm")])
        out.append(["cal", dict(base, pols=circ, jones=(-2, -1), lay="time", tm="super", fm="super")])
    pc = (None, "sum", "avg")
    for a, b, c, d, u, gs in itertools.product(pc, pc, pc, pc, (False, True), ("Jy", None)):
        out.append(["conv", [a, b, c, d], u, gs])
    for u in (False, True):
        for lay in LAY:
            for tm in TM:
                out.append(["undo", dict(base, lay=lay, tm=tm, undo=u, prop=False)])
                out.append(["undo", dict(base, lay=lay, tm=tm, undo=u, prop=True, am="missing", conv="multiply")])
    for b in BADS:
        for inp in (True, False):
            out.append(["bad", b, inp])
    return out


BADS = ["wide", "multidelay", "stokes", "missing", "allmissing", "times", "fewer", "timesub", "trange", "trangegap", "freq", "delayrange", "feed", "dterm", "dtermabs",
        "undounits", "already", "convdiff", "convbad"]


def data(k):
    uv = gen.uvd(layout=k["lay"], spw=k["spw"], pols=tuple(k["pols"]), nf=4, nt=3, ants=k["ants"], x_orient=k["dx"], seed=k["seed"], dtype=np.dtype(k["dtype"]),
                 vis_units="Jy" if k["undo"] else "uncalib")
    uv.pol_convention = "sum" if k["undo"] else None
    return uv


def calib(k, uv):
    kw = dict(jones=tuple(k["jones"]), conv=k["conv"], x_orient=k["cx"], quality=k["quality"], seed=k["seed"] + 3, extras=True,
              ants=(0, 3, 5, 7, 12) if k["am"] in ("all", "renum") else (12, 5, 0, 7, 3))
    nt, trange = 3, False
    if k["tm"] == "super":
        nt = 5
        kw["torder"] = (4, 2, 0, 1, 3)
    elif k["tm"] == "rev":
        kw["torder"] = (2, 1, 0)
    elif k["tm"] == "perm":
        kw["torder"] = (1, 2, 0)
    elif k["tm"] in ("single", "singleoff", "onerange"):
        nt = 1
    elif k["tm"] == "rangesperm":
        kw["torder"] = (2, 0, 1)
    if k["am"] == "missing":
        kw["ants"] = (12, 5, 0, 7)
    elif k["am"] == "missing2":
        kw["ants"] = (3, 0)
    elif k["am"] == "allmissing":
        kw["ants"] = (5,)
    spw, nf = k["spw"], 4
    if k["fm"] == "super" and spw in ("one", "one_desc"):
        nf = 6
    if k["fm"].startswith("delay"):
        kw.update(kind="delay", spw="one")
    else:
        kw.update(kind="gain", spw=spw, nf=nf)
    c = cal.uvc(nt=nt, trange=trange, **kw)
    if k["fm"].startswith("delay"):
        c.freq_range = np.array([[0.9e8, 1.2e8]])
        c.delay_array = c.delay_array / 10
    elif k["fm"] == "rev":
        c.reorder_freqs(channel_order="-freq" if c.freq_array[0] < c.freq_array[1] else "freq")
    elif k["fm"] == "spwswap" and c.Nspws > 1:
        c.reorder_freqs(spw_order=np.array([1, 0]))
    elif k["fm"] == "perm" and c.Nspws == 1:
        c.reorder_freqs(channel_order=np.array([2, 0, 3, 1]))
    if k["tm"] in ("ranges", "rangesperm", "onerange"):
        h = 0.45 * gen.DT
        r = np.stack([c.time_array - h, c.time_array + h], axis=1)
        if k["tm"] == "onerange":
            r = np.array([[uv.time_array.min() - h, uv.time_array.max() + h]])
        c.time_array = c.lst_array = None
        c.time_range = r
        c.set_lsts_from_time_array()
    elif k["tm"] == "singleoff":
        c.time_array = c.time_array + 3.0
        c.set_lsts_from_time_array()
    elif k["tm"] == "single":
        pass
    if k["am"] == "renum":
        c.telescope.antenna_numbers = c.telescope.antenna_numbers + 100
        c.ant_array = c.ant_array + 100
    c.gain_scale = "Jy"
    c.pol_convention = "sum"
    c.check()
    return c


FEED = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr"}


def jones_for(feed, dx, cx):
    """Jones number on the calibration side of a dipole feed of the data."""
    if feed in "rl":
        return {"r": -1, "l": -2}[feed]
    if dx is not None and dx != cx:
        feed = {"x": "y", "y": "x"}[feed]
    return {"x": -5, "y": -6}[feed]


def model(uv, c, k, factor=1.0):
    """Expected data and flags."""
    names_d = dict(zip(uv.telescope.antenna_numbers.tolist(), map(str, uv.telescope.antenna_names)))
    names_c = dict(zip(map(str, c.telescope.antenna_names), c.telescope.antenna_numbers.tolist()))
    ia = {a: i for i, a in enumerate(c.ant_array.tolist())}
    jj = c.jones_array.tolist()
    if c.cal_type == "delay":
        s = 1 if k["fm"] == "delayplus" else -1
        g = np.exp(s * 2j * np.pi * c.delay_array[:, :1] * uv.freq_array[None, :, None, None])
        fl = np.repeat(c.flag_array, uv.Nfreqs, axis=1)
    else:
        fi = [int(np.argmin(np.abs(c.freq_array - f))) for f in uv.freq_array]
        g, fl = c.gain_array[:, fi], c.flag_array[:, fi]
    if c.time_range is not None:
        ti = [[i for i, r in enumerate(c.time_range) if r[0] <= t <= r[1]][0] for t in uv.time_array]
    elif c.Ntimes == 1:
        ti = [0] * uv.Nblts
    else:
        ti = [int(np.argmin(np.abs(c.time_array - t))) for t in uv.time_array]
    d, f = uv.data_array.astype(np.complex128), uv.flag_array.copy()
    for b in range(uv.Nblts):
        n1, n2 = names_c[names_d[int(uv.ant_1_array[b])]], names_c[names_d[int(uv.ant_2_array[b])]]
        for p, pol in enumerate(uv.polarization_array.tolist()):
            if n1 not in ia or n2 not in ia:
                f[b, :, p] = True
                continue
            j1, j2 = [jj.index(jones_for(x, k["dx"], k["cx"])) for x in FEED[pol]]
            g1, g2 = g[ia[n1], :, ti[b], j1], g[ia[n2], :, ti[b], j2]
            gg = np.conj(g1) * g2 if k["flip"] else g1 * np.conj(g2)
            m = fl[ia[n1], :, ti[b], j1] | fl[ia[n2], :, ti[b], j2] | (gg == 0)
            if k["prop"]:
                gg = np.where(m, 1.0, gg)
                f[b, :, p] |= m
            mult = (k["conv"] == "multiply") != k["undo"]
            d[b, :, p] = d[b, :, p] * gg if mult else d[b, :, p] / gg
    return d * factor, f


def kwargs(k):
    kw = dict(inplace=k["inplace"], prop_flags=k["prop"], flip_gain_conj=k["flip"], undo=k["undo"], time_check=k["tm"] != "singleoff" and k["tm"] != "single",
              ant_check=k["am"] not in ("missing", "missing2", "allmissing"))
    if k["fm"] == "delayplus":
        kw["delay_convention"] = "plus"
    return kw


ROWS = ("time_array", "lst_array", "ant_1_array", "ant_2_array", "uvw_array", "integration_time", "nsample_array", "freq_array", "channel_width",
        "flex_spw_id_array", "polarization_array", "phase_center_id_array")


def one(case, ctx):
    k = case[1]
    uv = data(k)
    c = calib(k, uv)
    fc, fu = Frozen(c), Frozen(uv)
    d, f = model(uv, c, k)
    r0, h0 = digest([getattr(uv, n) for n in ROWS]), uv.history
    dt = uv.data_array.dtype
    r = utils.uvcalibrate(uv, c, **kwargs(k))
    ctx.step()
    fc.check(c, "uvcalibrate (calibration object)")
    if k["inplace"]:
        require(r is None, "in-place uvcalibrate returned something")
        r = uv
    else:
        fu.check(uv, "uvcalibrate(inplace=False)")
    require(np.array_equal(r.flag_array, f), "flags of sample %s", first(r.flag_array != f))
    tol = 1e-9 if k["dtype"] == "complex128" else 2e-5
    ok = np.isclose(r.data_array, d, rtol=tol, atol=tol)
    require(bool(ok.all()), "sample %s is %s, expected %s", first(~ok), r.data_array[~ok][:1], d[~ok][:1])
    require(r.data_array.dtype == dt, "precision changed to %s", r.data_array.dtype)
    require(digest([getattr(r, n) for n in ROWS]) == r0, "something other than data and flags changed")
    require(r.vis_units == ("uncalib" if k["undo"] else "Jy"), "vis_units %s", r.vis_units)
    require(r.pol_convention == (None if k["undo"] else "sum"), "pol_convention %s", r.pol_convention)
    require(r.history.startswith(h0) and len(r.history) > len(h0), "history")
    ctx.state(digest(r.data_array, r.flag_array))
    ctx.trace()


def first(m):
    return [int(x[0]) for x in np.nonzero(m) if len(x)]


def convs(case, ctx):
    _, (ca, da, cc, dc), undo, gs = case
    k = dict(lay="time", tm="same", fm="same", spw="one", pols=(-5, -6), am="all", dx="east", cx="east", jones=(-5, -6), conv="divide",
             prop=True, flip=False, undo=undo, inplace=True, ants="three", dtype="complex128", quality=True, seed=1)
    uv = data(k)
    c = calib(k, uv)
    c.gain_scale = gs
    c.pol_convention = ca
    uv.pol_convention = da
    fu = Frozen(uv)
    # documented resolution
    bad = ca is not None and cc is not None and ca != cc
    uc = cc or ca
    if uc is None:
        uc = dc or da
    if undo:
        bad = bad or (da is not None and dc is not None and da != dc)
        ud = dc or da or uc
    else:
        bad = bad or da is not None
        ud = dc or uc
    kw = {}
    if cc is not None:
        kw["uvc_pol_convention"] = cc
    if dc is not None:
        kw["uvd_pol_convention"] = dc
    try:
        utils.uvcalibrate(uv, c, undo=undo, **kw) if not bad else utils.uvcalibrate(uv, c, undo=undo, **kw)
    except ValueError as e:
        require(bad, "refused: %s", e)
        fu.check(uv, "refused uvcalibrate")
        ctx.outcome("refused")
        ctx.trace()
        return
    require(not bad, "conflicting conventions %s were not refused", case[1])
    ctx.step()
    fac = 1.0
    if gs is not None and uc != ud:
        # V ~ I/2 under "sum", V ~ I under "avg"
        fac = 0.5 if (uc == "avg") else 2.0
        if undo:
            fac = 1.0 / fac
    k2 = dict(k)
    u2 = data(k)
    d, f = model(u2, c, k2, fac)
    require(np.allclose(uv.data_array, d, rtol=1e-9, atol=1e-9), "conventions %s undo=%s: data off by %s", case[1], undo, np.median(np.abs(uv.data_array / d)))
    if gs is not None:
        require(uv.pol_convention == (None if undo else ud), "pol_convention %s, expected %s", uv.pol_convention, None if undo else ud)
    ctx.state(digest(uv.data_array, uv.pol_convention, uv.vis_units))
    ctx.trace()


def undo(case, ctx):
    k = dict(case[1])
    uv = data(k)
    c = calib(k, uv)
    if k["prop"]:
        c.flag_array[...] = False
    d0, f0 = uv.data_array.copy(), uv.flag_array.copy()
    kw = kwargs(k)
    kw["inplace"] = True
    utils.uvcalibrate(uv, c, **kw)
    kw["undo"] = not kw["undo"]
    utils.uvcalibrate(uv, c, **kw)
    ctx.step()
    require(np.allclose(uv.data_array, d0, rtol=1e-9, atol=1e-9), "calibrating and undoing changed the data")
    if k["am"] == "all":
        require(np.array_equal(uv.flag_array, f0), "flags changed")
    ctx.state(digest(np.round(uv.data_array, 6), uv.flag_array))
    ctx.trace()


def bad(case, ctx):
    _, b, inp = case
    k = dict(lay="time", tm="same", fm="same", spw="one", pols=(-5, -6), am="all", dx="east", cx="east", jones=(-5, -6), conv="divide",
             prop=True, flip=False, undo=False, inplace=True, ants="three", dtype="complex128", quality=True, seed=1)
    kw = {}
    if b in ("missing", "allmissing"):
        k["am"] = b
    if b == "stokes":
        k["pols"] = (1, 2)
    if b in ("times",):
        k["tm"] = "singleoff"
    if b == "trange":
        k["tm"] = "onerange"
    if b == "trangegap":
        k["tm"] = "ranges"
    if b == "delayrange":
        k["fm"] = "delay"
    if b in ("undounits",):
        k["undo"] = True
    uv = data(k) if b != "stokes" else gen.uvd(pols=(1, 2), vis_units="uncalib")
    c = calib(dict(k, pols=(-5, -6)), uv)
    if b == "wide":
        c = cal.uvc(kind="wide", spw="one", ants=(0, 3, 5, 7, 12))
    elif b == "multidelay":
        c = cal.uvc(kind="delay", spw="three", ants=(0, 3, 5, 7, 12))
    elif b == "fewer":
        c.select(times=c.time_array[:2])
    elif b == "timesub":
        c.time_array = c.time_array + 0.5 * gen.DT
        c.set_lsts_from_time_array()
    elif b == "trange":
        c.time_range[0, 1] = uv.time_array.max() - 1e-5
    elif b == "trangegap":
        c.select(antenna_nums=c.ant_array)
        c.time_range[1, 0] = c.time_range[1, 1] - 1e-6
    elif b == "freq":
        c.freq_array = c.freq_array + np.array([0, 0, 0, 3e4])
    elif b == "delayrange":
        c.freq_range = np.array([[1.0e8, 1.002e8]])
    elif b == "feed":
        c.select(jones=[-5])
    elif b == "dterm":
        k["jones"] = (-5, -6, -7, -8)
        c = calib(k, uv)
        kw["d_term_cal"] = True
    elif b == "dtermabs":
        kw["d_term_cal"] = True
    elif b == "undounits":
        uv.vis_units = "K str"
        kw["undo"] = True
    elif b == "already":
        uv.pol_convention = "sum"
    elif b == "convdiff":
        kw["uvc_pol_convention"] = "avg"
    elif b == "convbad":
        c.pol_convention = None
        kw["uvc_pol_convention"] = "both"
    fu, fc = Frozen(uv), Frozen(c)
    try:
        utils.uvcalibrate(uv, c, inplace=inp, **kw)
    except (ValueError, NotImplementedError):
        fu.check(uv, f"refused uvcalibrate ({b})")
        fc.check(c, f"refused uvcalibrate ({b})")
        ctx.outcome("refused")
        ctx.trace()
        return
    raise Violation(f"uvcalibrate with {b} was not refused")


def run(case, ctx):
    {"cal": one, "conv": convs, "undo": undo, "bad": bad}[case[0]](case, ctx)
