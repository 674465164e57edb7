"""C34: objects built from given values by Telescope.new, UVData.new, UVCal.new and UVBeam.new."""

import itertools

import numpy as np
from astropy.coordinates import EarthLocation
from pyuvdata import Telescope, UVBeam, UVCal, UVData, utils

from mc import gen
from mc.core import Violation, digest, require

ID = "C34"
BOUNDS = (
    "UVData.new over the product of {7 time lists: 1-3 unique, unsorted, uneven, row-length in both orders, irregular} x {7 antenna-pair lists: none, sorted, "
    "permuted, reversed pairs, one, row-length} x do_blt_outer, time_axis_faster_than_bls and blts_are_rectangular each unset/True/False x integration time unset/number/array; frequencies x "
    "widths x windows; polarizations as numbers or names in 3 containers x feed orientation x 8 forms of telescope and antenna arguments; data, flags, samples, empty; 0-3 phase centers with and without ids; "
    "UVCal.new over {gain, wide gain, delay} x time or time range x 1-3 times x integration time forms x Jones forms x antenna subsets x data forms; UVBeam.new over {efield, power} x "
    "{az_za, orthoslant, healpix whole/part, both orderings} x polarization forms x optional arrays; every single malformed argument is refused."
)
ASSUMPTIONS = ["LSTs and uvws are compared with the library's own conversion of each time and position alone", "values outside the small alphabets are not explored"]
DT = 10.0 / 86400
J = gen.JD0
TIMES = {
    "t1": [0], "t2": [0, 1], "t3": [0, 1, 2], "uns": [2, 0, 1], "uneven": [0, 1, 4], "tmaj": [0, 0, 0, 1, 1, 1], "bmaj": [0, 1, 0, 1, 0, 1], "irr": [0, 0, 1, 2, 1, 1], "unstmaj": [3, 3, 3, 1, 1, 1],
}
PAIRS = {
    "none": None, "p3": [(0, 3), (0, 12), (3, 12)], "perm": [(3, 12), (0, 3), (12, 12)], "rev": [(12, 0), (0, 12), (7, 5)], "one": [(5, 3)],
    "tmaj": [(0, 3), (12, 0), (3, 3)] * 2, "bmaj": [(0, 3)] * 2 + [(12, 0)] * 2 + [(3, 3)] * 2, "irr": [(0, 3), (3, 12), (0, 3), (0, 3), (3, 12), (12, 12)],
}
TEL = ["obj", "objxo", "dictnum", "dictname", "arrnum", "arrnames", "arrboth", "fmt", "moonless"]
FREQ = {
    "up": [1e8, 1.1e8, 1.2e8, 1.5e8], "down": [1.5e8, 1.4e8, 1.2e8], "one": [1.3e8], "two": [1e8, 1.1e8],
}
POLS = {
    "num": (-5, -6), "one": (-8,), "lin": ("xx", "yy", "xy"), "named": ("ee", "nn"), "circ": ("rr", "LL"), "stokes": ("pI", "pV"), "num4": (-8, -5, -7, -6), "pos": (1, 4),
}
CONT = {"list": list, "tuple": tuple, "array": np.array}


def cases(tier):
    out = []
    for t in TIMES:
        for p in PAIRS:
            for o in (None, True, False):
                for tf in (None, True, False):
                    for rc in (None, True, False):
                        for it in ("none", "num", "arr"):
                            if tier == "quick" and p in ("one", "perm") and it == "num":
                                continue
                            out.append(["rows", t, p, o, tf, rc, it])
    for f in FREQ:
        for w in ("none", "num", "int", "arr", "bad"):
            for s in ("none", "zero", "two", "alt", "named", "bad"):
                out.append(["freq", f, w, s])
    for pol in POLS:
        for c in CONT:
            for tel in TEL:
                for xo in (None, "east", "N", "ew"):
                    out.append(["tel", pol, c, tel, xo])
    for d in ("none", "empty", "data", "dataflag", "all", "emptydata", "flagonly", "badshape", "badflag", "badns"):
        for u in (None, "Jy", "K str", "bad"):
            for tf in (None, True):
                out.append(["data", d, u, tf])
    for pc in ("none", "unproj", "sid", "two", "three", "eph", "twoids", "badid", "noids", "shortids"):
        for rows in ("t3", "tmaj"):
            for extra in ("none", "scan", "kw", "diam", "order", "badkw", "uvw"):
                out.append(["phase", pc, rows, extra])
    for kind in ("gain", "wide", "delay"):
        for t in ("t1", "t2", "t3", "uns", "uneven", "r1", "r2", "r3", "both", "neither"):
            for it in ("none", "num", "arr", "bad"):
                for jn in ("linear", "circular", "num", "one", "names", "named", "namelist", "bad"):
                    out.append(["cal", kind, t, it, jn])
        for ants in ("none", "sub", "perm", "missing", "list"):
            for d in ("none", "empty", "main", "all", "quality", "flagsonly", "badshape"):
                for st in ("redundant", "sky", "skynoref", "bad"):
                    for conv in ("divide", "multiply"):
                        out.append(["cald", kind, ants, d, st, conv])
    for f in FREQ:
        for w in ("none", "num", "arr", "bad"):
            for s in ("none", "two", "alt", "named"):
                out.append(["calf", f, w, s])
    for tel in TEL:
        for xo in ("east", "N"):
            out.append(["calt", tel, xo])
    for bt in ("efield", "efieldrl", "num", "one", "lin", "named", "circ", "stokes", "num4", "pos"):
        for grid in ("az", "ortho", "hp", "hppart", "hpnest", "both", "neither", "hponlypix"):
            for xo in (None, "east", "n"):
                for d in ("none", "data", "badshape"):
                    out.append(["beam", bt, grid, xo, d])
    for bt in ("efield", "num"):
        for grid in ("az", "hppart"):
            for opt in ("basis", "bandpass", "elem", "elemall", "badbasis", "badband", "badelem", "badgain", "baddelay", "badcoup", "bothtypes", "notypes", "freqlist", "norm1", "norm2", "badnorm"):
                out.append(["beamo", bt, grid, opt])
    return out


def keep(*arrs):
    """Digests of everything handed in."""
    return [digest(repr(a) if not isinstance(a, np.ndarray) else a) for a in arrs]


def times(name):
    return J + np.array(TIMES[name], dtype=float) * DT


LST = {}


def lst(t):
    k = float(t)
    if k not in LST:
        LST[k] = float(utils.get_lst_for_time(np.array([k]), telescope_loc=gen.LOC)[0])
    return LST[k]


def refused(fn, what):
    try:
        fn()
    except Exception as e:
        return e
    raise Violation(f"{what}: accepted")


def diffs(ts):
    """Seconds from each time to the next later one (the last one as the one before)."""
    u = sorted(set(ts))
    if len(u) == 1:
        return {u[0]: 1.0}
    d = [(b - a) * 86400 for a, b in zip(u, u[1:])]
    return dict(zip(u, d + d[-1:]))


def near(a, b, what, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    require(np.allclose(a, b, rtol=rtol, atol=atol), f"{what}: {a.ravel()[:6]} instead of {b.ravel()[:6]}")


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape and np.array_equal(a, b), f"{what}: {a.tolist()} instead of {b.tolist()}"[:300])


def ordered(o, what):
    """A recorded row order must be true."""
    if o.blt_order is None:
        return
    cols = {"time": o.time_array, "ant1": o.ant_1_array, "ant2": o.ant_2_array, "baseline": o.baseline_array}
    k = [cols[c] for c in o.blt_order]
    rows = list(zip(*k))
    require(rows == sorted(rows), f"{what}: row order recorded as {o.blt_order} but the rows are not in it")


def run(case, ctx):
    globals()["run_" + case[0]](case[1:], ctx)
    ctx.trace()


def run_rows(case, ctx):
    t, p, outer, tf, rect, it = case
    ts = times(t)
    tel = gen.telescope()
    pairs = PAIRS[p]
    kw = {}
    if pairs is not None:
        kw["antpairs"] = pairs if (len(t) + len(p)) % 2 else np.array(pairs)
    plist = pairs if pairs is not None else list(itertools.combinations_with_replacement(gen.ANTNUM[:5], 2))
    o_eff = True if pairs is None else outer
    ut, up = len(set(ts)) == len(ts), len(set(plist)) == len(plist)
    if o_eff is None:
        if len(ts) != len(plist):
            o_eff = True if ut and up else "refuse"
        elif ut and up:
            o_eff = "refuse"
        else:
            o_eff = False
    elif o_eff:
        if not (ut and up):
            o_eff = "refuse"
    elif len(ts) != len(plist):
        o_eff = "refuse"
    full = len(set(zip(ts, plist))) == len(ts) == len(set(ts)) * len(set(plist)) if o_eff is False else True
    if o_eff is False and rect and not full:
        return  # the caller's claim is false: documented as trusted
    if o_eff is False and rect and len(ts) > 1:
        # truly rectangular rows in neither regular order are a false claim too
        fast_t = all(plist[i] == plist[0] for i in range(len(set(ts))))
        fast_b = all(ts[i] == ts[0] for i in range(len(set(plist))))
        if not (fast_t or fast_b):
            return
    if it == "num":
        kw["integration_time"] = 7.5
        integ = {x: 7.5 for x in ts}
    elif it == "arr":
        arr = np.arange(len(ts)) + 3.25
        kw["integration_time"] = arr
        integ = None
    else:
        integ = diffs(ts)
    for k, v in (("do_blt_outer", outer), ("time_axis_faster_than_bls", tf), ("blts_are_rectangular", rect)):
        if v is not None:
            kw[k] = v
    ck = keep(ts, kw.get("antpairs"), kw.get("integration_time"))
    tel0 = tel.copy()

    def build():
        return UVData.new(freq_array=np.array([1e8, 1.1e8]), polarization_array=[-5], times=ts, telescope=tel, **kw)

    what = f"UVData.new(times {TIMES[t]}, antpairs {pairs}, {({k: v for k, v in kw.items() if k not in ('antpairs',)})})"
    ctx.step()
    if o_eff == "refuse":
        refused(build, what)
        ctx.outcome("refused")
    else:
        o = build()
        if o_eff:
            rows = [(i, q) for q in plist for i in range(len(ts))] if tf else [(i, q) for i in range(len(ts)) for q in plist]
        else:
            rows = [(i, q) for i, q in enumerate(plist)]
        near(o.time_array, [ts[i] for i, _ in rows], what + " times", 0, 0)
        same(o.ant_1_array, [q[0] for _, q in rows], what + " ant 1")
        same(o.ant_2_array, [q[1] for _, q in rows], what + " ant 2")
        near(o.integration_time, [arr[i] if it == "arr" else integ[ts[i]] for i, _ in rows], what + " integration times", 1e-5)
        near(o.lst_array, [lst(ts[i]) for i, _ in rows], what + " LSTs", 0, 1e-8)
        same(o.baseline_array, [2048 * q[0] + q[1] + 2**16 for _, q in rows], what + " baselines")
        require(o.Nblts == len(rows) and o.Ntimes == len(set(ts)) and o.Nbls == len(set(plist)), f"{what}: counts {o.Nblts} {o.Ntimes} {o.Nbls}")
        require(o.Nants_data == len({a for q in plist for a in q}), f"{what}: Nants_data {o.Nants_data}")
        enu = dict(zip(gen.ANTNUM, gen.ENU))
        near(o.uvw_array, [enu[q[1]] - enu[q[0]] for _, q in rows], what + " uvws", 0, 1e-3)
        require(o.data_array is None and o.metadata_only, f"{what}: has data")
        require(o.check(), what)
        ordered(o, what)
        if rect is False and not o_eff or o.blts_are_rectangular is None:
            pass
        elif o.blts_are_rectangular:
            require(len(set(zip(o.time_array, o.baseline_array))) == o.Ntimes * o.Nbls == o.Nblts, f"{what}: recorded as rectangular")
        ctx.state(digest(o.time_array, o.baseline_array, o.integration_time))
        ctx.outcome(f"{o_eff} {o.Nblts}")
    require(keep(ts, kw.get("antpairs"), kw.get("integration_time")) == ck, f"{what}: changed its arguments")
    require(tel == tel0, f"{what}: changed the telescope")


def spws(s, n):
    return {"none": None, "zero": [0] * n, "two": ([0] * n)[: n // 2] + [1] * (n - n // 2), "alt": [3, 5, 3, 5][:n], "named": [7] * n, "bad": [0] * (n + 1)}[s]


def widths(w, f):
    """(argument, expected) ; expected None = refused"""
    n = len(f)
    if w == "none":
        d = np.abs(np.diff(f)) if n > 1 else np.array([])
        return None, np.concatenate([d, d[-1:]]) if n > 1 else np.array([1.0])
    if w == "num":
        return 5e6, np.full(n, 5e6)
    if w == "int":
        return 5000000, np.full(n, 5e6)
    if w == "arr":
        return np.arange(n) * 1e5 + 2e6, np.arange(n) * 1e5 + 2e6
    return np.ones(n + 1), None


def run_freq(case, ctx):
    f, w, s = case
    fa = np.array(FREQ[f])
    cw, ecw = widths(w, fa)
    sp = spws(s, len(fa))
    kw = {}
    if cw is not None:
        kw["channel_width"] = cw
    if sp is not None:
        kw["flex_spw_id_array"] = np.array(sp)
    ck = keep(fa, cw)
    what = f"UVData.new(freq {f}, width {w}, windows {s})"

    def build():
        return UVData.new(freq_array=fa, polarization_array=[-5, -6], times=times("t2"), telescope=gen.telescope(), antpairs=PAIRS["p3"], **kw)

    ctx.step()
    if ecw is None or s == "bad":
        refused(build, what)
    else:
        o = build()
        near(o.freq_array, fa, what, 0, 0)
        near(o.channel_width, ecw, what + " widths")
        e = sp or [0] * len(fa)
        same(o.flex_spw_id_array, e, what + " window of each channel")
        same(o.spw_array, sorted(set(e)), what + " windows")
        require(o.Nspws == len(set(e)) and o.Nfreqs == len(fa) and o.check(), what)
        ctx.state(digest(o.freq_array, o.channel_width, o.flex_spw_id_array))
    require(keep(fa, cw) == ck, f"{what}: changed its arguments")


def telargs(tel, xo):
    """(keyword arguments, expected (numbers, names, positions, x_orientation), refused)"""
    n = 4
    base = gen.telescope(5, "east")
    pos = base.antenna_positions[:n]
    nums, names = list(gen.ANTNUM[:n]), list(gen.ANTNAME[:n])
    kw = dict(telescope_name="tt", telescope_location=gen.LOC)
    if xo:
        kw["x_orientation"] = xo
    exo = {None: None, "east": "east", "N": "north", "ew": "east", "n": "north"}[xo]
    if tel == "obj":
        t = gen.telescope(n, None)
        return dict(telescope=t), (nums, names, t.antenna_positions, None), False
    if tel == "objxo":
        t = gen.telescope(n, exo or "north")
        return dict(telescope=t), (nums, names, t.antenna_positions, exo or "north"), False
    if tel == "dictnum":
        kw["antenna_positions"] = dict(zip(nums, pos))
        return kw, (nums, [f"{i:03d}" for i in nums], pos, exo), False
    if tel == "dictname":
        kw["antenna_positions"] = dict(zip(["3", "0", "0012", "7"], pos))
        return kw, (nums, ["3", "0", "0012", "7"], pos, exo), False
    if tel == "arrnum":
        kw.update(antenna_positions=pos, antenna_numbers=np.array(nums))
        return kw, (nums, [f"{i:03d}" for i in nums], pos, exo), False
    if tel == "arrnames":
        kw.update(antenna_positions=pos, antenna_names=names)
        return kw, None, True
    if tel == "arrboth":
        kw.update(antenna_positions=pos, antenna_numbers=nums, antenna_names=names, antenna_diameters=[1.0, 2.0, 3.0, 4.0])
        return kw, (nums, names, pos, exo), False
    if tel == "fmt":
        kw.update(antenna_positions=dict(zip(nums, pos)), antname_format="A{0:d}x")
        return kw, (nums, [f"A{i}x" for i in nums], pos, exo), False
    kw.pop("telescope_location")
    kw["antenna_positions"] = dict(zip(nums, pos))
    return kw, None, True


def check_tel(o, exp, kw, what):
    nums, names, pos, exo = exp
    same(o.telescope.antenna_numbers, nums, what + " antenna numbers")
    same(o.telescope.antenna_names, names, what + " antenna names")
    near(o.telescope.antenna_positions, pos, what + " antenna positions")
    require(o.telescope.x_orientation == exo, f"{what}: x_orientation {o.telescope.x_orientation} instead of {exo}")
    require(o.telescope.Nants == len(nums), f"{what}: Nants")
    if "antenna_diameters" in kw:
        near(o.telescope.antenna_diameters, kw["antenna_diameters"], what + " diameters")
    require(isinstance(o.telescope.location, EarthLocation) and o.telescope.location == gen.LOC, f"{what}: location")


def run_tel(case, ctx):
    pol, c, tel, xo = case
    kw, exp, bad = telargs(tel, xo)
    pols = CONT[c](POLS[pol])
    num = {"xx": -5, "yy": -6, "xy": -7, "rr": -1, "LL": -2, "pI": 1, "pV": 4}
    if not bad:
        num.update({"north": {"nn": -5, "ee": -6}, "east": {"ee": -5, "nn": -6}, None: {}}[exp[3]])
        if pol == "named" and exp[3] is None:
            bad = True
    tel0 = kw["telescope"].copy() if "telescope" in kw else None
    ck = keep(pols, kw.get("antenna_numbers"), str(kw.get("antenna_positions")))
    what = f"UVData.new(polarizations {c} {POLS[pol]}, telescope {tel}, x_orientation {xo})"

    def build():
        return UVData.new(freq_array=np.array([1e8, 1.1e8]), polarization_array=pols, times=times("t2"), antpairs=[(0, 3), (12, 7)], do_blt_outer=True, **kw)

    ctx.step()
    if bad:
        refused(build, what)
    else:
        o = build()
        same(o.polarization_array, [num.get(x, x) for x in POLS[pol]], what + " polarizations")
        require(o.Npols == len(POLS[pol]), what)
        check_tel(o, exp, kw, what)
        near(o.uvw_array[0], gen.ENU[0] - gen.ENU[1], what + " uvw", 0, 1e-3)
        require(o.check(), what)
        ctx.state(digest(o.polarization_array, o.telescope.antenna_names))
    require(keep(pols, kw.get("antenna_numbers"), str(kw.get("antenna_positions"))) == ck, f"{what}: changed its arguments")
    require(tel0 is None or kw["telescope"] == tel0, f"{what}: changed the telescope")


def run_data(case, ctx):
    d, u, tf = case
    ts, prs = times("t3"), PAIRS["perm"]
    shape = (9, 2, 2)
    r = np.arange(36.0).reshape(shape)
    data, flag, ns = r + 1j * (r % 5) + 0.5, (r % 3) == 0, r + 0.25
    for k in range(3):
        pass
    data[2::3] = data[2::3].real  # autos in time-major order
    kw = {"none": {}, "empty": dict(empty=True), "data": dict(data_array=data), "dataflag": dict(data_array=data, flag_array=flag), "all": dict(data_array=data, flag_array=flag, nsample_array=ns),
          "emptydata": dict(empty=True, data_array=data, flag_array=flag, nsample_array=ns), "flagonly": dict(flag_array=flag), "badshape": dict(data_array=data[:, :, :1]), "badflag": dict(data_array=data, flag_array=flag[:3]),
          "badns": dict(data_array=data, nsample_array=ns[..., 0])}[d]
    if tf and "data_array" in kw and d != "badshape":
        data[:] = r + 1j * (r % 5) + 0.5
        data[6:] = data[6:].real
    if u:
        kw["vis_units"] = u
    ck = keep(data, flag, ns)
    what = f"UVData.new(data {d}, units {u}, time faster {tf})"

    def build():
        return UVData.new(freq_array=np.array([1e8, 1.1e8]), polarization_array=[-5, -6], times=ts, telescope=gen.telescope(), antpairs=prs, do_blt_outer=True, time_axis_faster_than_bls=tf, **kw)

    ctx.step()
    if u == "bad" or d.startswith("bad"):
        refused(build, what)
    else:
        o = build()
        require(o.vis_units == (u or "uncalib"), f"{what}: units {o.vis_units}")
        if d in ("none", "flagonly"):
            require(o.metadata_only and o.data_array is None, f"{what}: not metadata only")
        else:
            near(o.data_array, data if "data_array" in kw else np.zeros(shape), what + " data", 0, 0)
            near(o.flag_array, flag if "flag_array" in kw else np.zeros(shape, bool), what + " flags", 0, 0)
            if d != "empty":
                near(o.nsample_array, ns if "nsample_array" in kw else np.ones(shape), what + " samples", 0, 0)
            pair = (3, 12)
            want = data[:3] if tf else data[0::3]
            if "data_array" in kw:
                near(o.get_data(*pair), want, what + " of one pair", 0, 0)
        require(o.check(), what)
        ctx.state(digest(what))
    require(keep(data, flag, ns) == ck, f"{what}: changed its arguments")


def run_phase(case, ctx):
    pc, rows, extra = case
    ts = times(rows)
    prs = PAIRS["p3"] if rows == "t3" else PAIRS["tmaj"]
    n = 9 if rows == "t3" else 6
    sid = {k: dict(gen.PC[k]) for k in ("sidA", "sidB", "unproj")}
    eph = dict(cat_name="mov", cat_type="ephem", cat_frame="icrs", cat_times=J + np.arange(3) * 10 * DT, cat_lon=np.array([0.9, 0.91, 0.92]), cat_lat=np.array([-0.4, -0.41, -0.42]))
    ids3 = np.array([5, 2, 9] * 3)[:n]
    cat, ids, bad = {
        "none": (None, None, 0), "unproj": ({4: sid["unproj"]}, None, 0), "sid": ({7: sid["sidA"]}, None, 0), "two": ({2: sid["sidA"], 5: sid["sidB"]}, np.array([5, 5, 2] * 3)[:n], 0),
        "three": ({2: sid["sidA"], 5: sid["unproj"], 9: sid["sidB"]}, ids3, 0), "eph": ({0: eph}, None, 0), "twoids": ({2: sid["sidA"], 5: sid["sidB"]}, np.full(n, 2), 0),
        "badid": ({2: sid["sidA"], 5: sid["sidB"]}, ids3, 1), "noids": ({2: sid["sidA"], 5: sid["sidB"]}, None, 1), "shortids": ({2: sid["sidA"]}, np.full(n - 1, 2), 1),
    }[pc]
    kw = {}
    if cat is not None:
        kw["phase_center_catalog"] = cat
    if ids is not None:
        kw["phase_center_id_array"] = ids
    uvw = np.arange(3.0 * n).reshape(n, 3)
    if rows == "tmaj":
        uvw[[i for i, q in enumerate(prs) if q[0] == q[1]]] = 0
    ex = {"none": {}, "scan": dict(scan_number_array=np.arange(n) // 3 + 4), "kw": dict(extra_keywords={"A": 1, "b": "two"}, dut1=0.25), "diam": dict(rdate="2020-01-01", gst0=2.5), "order": dict(blt_order=("time", "baseline")), "badkw": dict(nosuch=1), "uvw": dict(uvw_array=uvw)}[extra]
    if extra == "order" and rows != "t3":
        ex = {}
    kw.update(ex)
    if extra == "badkw":
        bad = 1
    ck = repr(cat), keep(ids)
    what = f"UVData.new(phase centers {pc}, {rows}, {extra})"

    def build():
        return UVData.new(freq_array=np.array([1e8, 1.1e8]), polarization_array=[-5], times=ts, telescope=gen.telescope(), antpairs=prs, do_blt_outer=rows == "t3", **kw)

    ctx.step()
    if bad:
        refused(build, what)
    else:
        o = build()
        ec = cat or {0: {"cat_name": "unprojected", "cat_type": "unprojected"}}
        eids = ids if ids is not None else np.full(n, next(iter(ec)))
        same(o.phase_center_id_array, eids, what + " ids")
        require(set(o.phase_center_catalog) == set(ec), f"{what}: catalog ids {sorted(o.phase_center_catalog)}")
        for k, v in ec.items():
            for kk, vv in v.items():
                g = o.phase_center_catalog[k][kk]
                require(g is not None and np.all(np.asarray(g) == np.asarray(vv)), f"{what}: catalog {k} {kk} = {g} instead of {vv}")
        require(o.Nphase == len(ec) and o.check(), what)
        for k, v in ex.items():
            g = getattr(o, k)
            require(np.all(np.asarray(g) == np.asarray(v)), f"{what}: {k} = {g}")
        # every row's apparent place and uvw is that of its own centre at its own time
        ref = o.copy()
        ref._set_app_coords_helper()
        for a in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
            near(getattr(o, a), getattr(ref, a), what + " " + a)
        for i in range(n):
            one = dict(ec)[int(eids[i])]
            if one["cat_type"] == "unprojected":
                enu = dict(zip(gen.ANTNUM, gen.ENU))
                if extra != "uvw":
                    near(o.uvw_array[i], enu[o.ant_2_array[i]] - enu[o.ant_1_array[i]], what + f" uvw of row {i}", 0, 1e-3)
                near(o.phase_center_app_ra[i], o.lst_array[i], what + f" app ra of row {i}", 0, 1e-8)
            elif one["cat_type"] == "sidereal":
                ra, dec = utils.phasing.calc_app_coords(
                    lon_coord=one["cat_lon"], lat_coord=one["cat_lat"], coord_frame=one["cat_frame"], coord_epoch=one["cat_epoch"], coord_type="sidereal",
                    time_array=np.array([o.time_array[i]]), lst_array=np.array([lst(o.time_array[i])]), telescope_loc=gen.LOC,
                )
                near([o.phase_center_app_ra[i], o.phase_center_app_dec[i]], [ra[0], dec[0]], what + f" apparent place of row {i}", 0, 1e-7)
        ordered(o, what)
        ctx.state(digest(what))
    require((repr(cat), keep(ids)) == ck, f"{what}: changed its arguments")


def cal_kw(kind, freqs=(1e8, 1.1e8)):
    kw = dict(gain_convention="divide", cal_style="redundant", telescope=gen.telescope(5, "east"), jones_array=np.array([-5, -6]))
    if kind == "gain":
        kw["freq_array"] = np.array(freqs)
    else:
        kw["freq_range"] = np.array([[1e8, 1.2e8], [1.3e8, 1.35e8]])
        kw["cal_type"] = "gain" if kind == "wide" else "delay"
    return kw


JN = {
    "linear": ("linear", [-5, -6, -7, -8]), "circular": ("circular", [-1, -2, -3, -4]), "num": (np.array([-6, -5]), [-6, -5]), "one": ([-8], [-8]), "names": (np.array(["Jxx", "Jyx"]), [-5, -8]), "named": (["Jnn", "Jee"], [-6, -5]),
    "namelist": (("jxx", "JYY"), [-5, -6]), "bad": (["Jab"], None),
}


def run_cal(case, ctx):
    kind, t, it, jn = case
    kw = cal_kw(kind)
    arg, ej = JN[jn]
    kw["jones_array"] = arg
    rng = t.startswith("r")
    bad = ej is None or it == "bad"
    if rng:
        n = int(t[1])
        tr = J + np.array([[0, 1.5], [2, 3.25], [5, 9.0]])[:n] * DT
        kw["time_range"] = tr
    elif t == "both":
        kw["time_array"] = times("t2")
        kw["time_range"] = J + np.array([[0, 1.5], [2, 3.25]]) * DT
        bad, n = True, 2
    elif t == "neither":
        bad, n = True, 2
    else:
        ts = times(t)
        n = len(ts)
        kw["time_array"] = ts
    if it == "num":
        kw["integration_time"] = 4.5
    elif it == "arr":
        kw["integration_time"] = np.arange(n) + 2.5
    elif it == "bad":
        kw["integration_time"] = np.ones(n + 1)
    ck = keep(*[v for v in kw.values() if isinstance(v, np.ndarray)])
    what = f"UVCal.new({kind}, times {t}, integration {it}, jones {jn})"
    ctx.step()
    if bad:
        refused(lambda: UVCal.new(**kw), what)
    else:
        o = UVCal.new(**kw)
        same(o.jones_array, ej, what + " jones")
        require(isinstance(o.jones_array, np.ndarray) and o.Njones == len(ej) and o.Ntimes == n, what)
        if it == "num":
            e = np.full(n, 4.5)
        elif it == "arr":
            e = np.arange(n) + 2.5
        elif rng:
            e = (tr[:, 1] - tr[:, 0]) * 86400
        else:
            e = [diffs(ts)[x] for x in ts]
        near(o.integration_time, e, what + " integration times", 1e-5)
        if rng:
            near(o.time_range, tr, what, 0, 0)
            near(o.lst_range, [[lst(x) for x in row] for row in tr], what + " LSTs", 0, 1e-8)
            require(o.time_array is None and o.lst_array is None, what)
        else:
            near(o.time_array, ts, what, 0, 0)
            near(o.lst_array, [lst(x) for x in ts], what + " LSTs", 0, 1e-8)
            require(o.time_range is None and o.lst_range is None, what)
        same(o.ant_array, gen.ANTNUM[:5], what + " antennas")
        require(o.cal_type == ("delay" if kind == "delay" else "gain") and o.wide_band is (kind != "gain"), f"{what}: {o.cal_type} {o.wide_band}")
        if kind == "gain":
            near(o.freq_array, [1e8, 1.1e8], what)
            require(o.freq_range is None and o.Nspws == 1 and o.Nfreqs == 2, what)
        else:
            near(o.freq_range, [[1e8, 1.2e8], [1.3e8, 1.35e8]], what)
            require(o.freq_array is None and o.Nspws == 2 and o.Nfreqs == 1, what)
            same(o.spw_array, [0, 1], what)
        require(o.metadata_only and o.check(), what)
        ctx.state(digest(what))
    require(keep(*[v for v in kw.values() if isinstance(v, np.ndarray)]) == ck, f"{what}: changed its arguments")


def run_cald(case, ctx):
    kind, ants, d, st, conv = case
    kw = cal_kw(kind)
    kw.update(gain_convention=conv, time_array=times("t3"))
    bad = 0
    if st == "sky":
        kw.update(cal_style="sky", ref_antenna_name="alpha", sky_catalog="cat")
    elif st == "skynoref":
        kw.update(cal_style="sky", sky_catalog="cat")
        bad = 1
    elif st == "bad":
        kw.update(cal_style="nostyle")
        bad = 1
    ea = {"none": gen.ANTNUM[:5], "sub": [7, 0], "perm": [5, 12, 0, 3, 7], "missing": [3, 44], "list": [12, 3]}[ants]
    if ants != "none":
        kw["ant_array"] = ea if ants == "list" else np.array(ea)
    if ants == "missing":
        bad = 1
    shape = (len(ea), 2, 3, 2)
    r = np.arange(float(np.prod(shape))).reshape(shape)
    name = "delay_array" if kind == "delay" else "gain_array"
    main = r * 1e-9 if kind == "delay" else r + 2j
    flags = r % 3 == 1
    qual, tq = r + 0.5, r[0] + 0.25
    data = {"none": None, "empty": None, "main": {name: main}, "all": {name: main, "flag_array": flags, "quality_array": qual, "total_quality_array": tq}, "quality": {name: main, "quality_array": qual}, "flagsonly": {"flag_array": flags}, "badshape": {name: main[:1, :1]}}[d]
    if data is not None:
        kw["data"] = data
    if d == "empty":
        kw["empty"] = True
    if d == "badshape":
        bad = 1
    ck = keep(main, flags, qual, tq) + [sorted(data) if data else None]
    what = f"UVCal.new({kind}, antennas {ants}, data {d}, style {st}, {conv})"

    def build():
        return UVCal.new(**kw)

    ctx.step()
    if ants == "list" and not bad:
        # a list of antennas: documented as an array; taken or refused, never misread
        try:
            build()
        except Exception:
            return
    if bad:
        refused(build, what)
    else:
        o = build()
        same(o.ant_array, ea, what + " antennas")
        require(o.Nants_data == len(ea) and o.gain_convention == conv and o.cal_style == kw["cal_style"], what)
        require(st != "sky" or (o.ref_antenna_name == "alpha" and o.sky_catalog == "cat"), what)
        if d == "none":
            require(o.metadata_only, what)
        else:
            dd = data or {}
            near(getattr(o, name), dd.get(name, np.zeros(shape) if kind == "delay" else np.ones(shape)), what + " " + name, 0, 0)
            near(o.flag_array, dd.get("flag_array", np.zeros(shape, bool)), what + " flags", 0, 0)
            for q in ("quality_array", "total_quality_array"):
                if q in dd:
                    near(getattr(o, q), dd[q], what + " " + q, 0, 0)
                else:
                    require(getattr(o, q) is None, f"{what}: {q} set")
        require(o.check(), what)
        ctx.state(digest(what))
    require(keep(main, flags, qual, tq) + [sorted(data) if data else None] == ck, f"{what}: changed its arguments")


def run_calf(case, ctx):
    f, w, s = case
    fa = np.array(FREQ[f])
    kw = cal_kw("gain")
    kw.update(freq_array=fa, time_array=times("t2"))
    cw, ecw = widths(w, fa)
    sp = spws(s, len(fa))
    if cw is not None:
        kw["channel_width"] = cw
    if sp is not None:
        kw["flex_spw_id_array"] = np.array(sp)
    what = f"UVCal.new(freq {f}, width {w}, windows {s})"
    ctx.step()
    if ecw is None:
        refused(lambda: UVCal.new(**kw), what)
        return
    o = UVCal.new(**kw)
    near(o.freq_array, fa, what, 0, 0)
    near(o.channel_width, ecw, what + " widths")
    e = sp or [0] * len(fa)
    same(o.flex_spw_id_array, e, what)
    same(o.spw_array, sorted(set(e)), what)
    require(o.Nspws == len(set(e)) and o.Nfreqs == len(fa) and o.check(), what)
    bad = dict(kw, freq_range=np.array([[1e8, 1.2e8]]))
    refused(lambda: UVCal.new(**bad), what + " with a frequency range too")
    ctx.state(digest(what))


def run_calt(case, ctx):
    tel, xo = case
    tk, exp, bad = telargs(tel, xo)
    kw = cal_kw("gain")
    kw.pop("telescope")
    kw.update(tk, time_array=times("t2"), jones_array=["Jnn", "Jee"])
    if tel == "obj":
        bad = True
    what = f"UVCal.new(telescope {tel}, {xo})"
    ctx.step()
    if bad:
        refused(lambda: UVCal.new(**kw), what)
        return
    o = UVCal.new(**kw)
    check_tel(o, exp, kw, what)
    same(o.jones_array, [-5, -6] if exp[3] == "north" else [-6, -5], what + " jones")
    same(o.ant_array, exp[0], what + " antennas")
    require(o.check(), what)
    ctx.state(digest(what))


def beam_kw(bt, grid):
    """(kw, polarizations/feeds expected, pixel shape) ; None = refused"""
    kw = dict(telescope_name="tt", data_normalization="physical", freq_array=np.array([1e8, 1.1e8, 1.3e8]))
    bad = 0
    if bt.startswith("efield"):
        kw["feed_array"] = np.array(["x", "y"]) if bt == "efield" else ["r", "l"]
    else:
        kw["polarization_array"] = {"list": list, "tuple": tuple, "array": np.array}[("list", "tuple", "array")[len(bt) % 3]](POLS[bt])
    az, za = np.linspace(0, 2 * np.pi, 6, endpoint=False), np.linspace(0, 1.2, 5)
    pix = None
    if grid in ("az", "both"):
        kw.update(axis1_array=az, axis2_array=za)
        pix = (5, 6)
    if grid == "ortho":
        kw.update(axis1_array=np.linspace(-1, 1, 4), axis2_array=np.linspace(-0.9, 0.9, 3), pixel_coordinate_system="orthoslant_zenith")
        pix = (3, 4)
    if grid in ("hp", "hppart", "hpnest", "both"):
        kw["nside"] = 2
        pix = (48,)
    if grid == "hpnest":
        kw["ordering"] = "nested"
    if grid in ("hppart", "hponlypix"):
        kw["healpix_pixel_array"] = np.array([9, 3, 40])
        pix = (3,)
    if grid in ("both", "neither", "hponlypix"):
        bad = 1
    return kw, pix, bad


def check_beam(o, kw, bt, grid, pix, xo, what):
    ef = bt.startswith("efield")
    npf = 2 if ef else len(POLS[bt])
    require(o.beam_type == ("efield" if ef else "power"), what)
    exo = {None: None, "east": "east", "n": "north"}[xo]
    require(o.x_orientation == exo, f"{what}: x_orientation {o.x_orientation}")
    if ef:
        same(o.feed_array, kw["feed_array"], what + " feeds")
        require(o.polarization_array is None and o.Nfeeds == 2, what)
    else:
        num = {"xx": -5, "yy": -6, "xy": -7, "rr": -1, "LL": -2, "pI": 1, "pV": 4, "ee": -6 if exo == "north" else -5, "nn": -5 if exo == "north" else -6}
        same(o.polarization_array, [num.get(x, x) for x in POLS[bt]], what + " polarizations")
        require(o.Npols == npf and o.feed_array is None, what)
    near(o.freq_array, kw["freq_array"], what, 0, 0)
    require(o.Nfreqs == 3 and o.telescope_name == "tt" and o.data_normalization == kw["data_normalization"], what)
    if grid.startswith("hp"):
        require(o.nside == 2 and o.ordering == kw.get("ordering", "ring") and o.pixel_coordinate_system == "healpix", what)
        same(o.pixel_array, kw.get("healpix_pixel_array", np.arange(48)), what + " pixels")
        require(o.axis1_array is None, what)
    else:
        near(o.axis1_array, kw["axis1_array"], what, 0, 0)
        near(o.axis2_array, kw["axis2_array"], what, 0, 0)
        require(o.pixel_coordinate_system == ("az_za" if grid == "az" else "orthoslant_zenith") and o.nside is None, what)
    nax = 2 if ef else 1
    shape = (nax, npf, 3) + pix
    cplx = ef or any(p in (-3, -4, -7, -8) for p in o.polarization_array)
    near(o.data_array, kw.get("data_array", np.zeros(shape)), what + " data", 0, 0)
    require(np.iscomplexobj(o.data_array) == bool(cplx), f"{what}: data type {o.data_array.dtype}")
    near(o.bandpass_array, kw.get("bandpass_array", np.ones(3)), what + " bandpass", 0, 0)
    if "basis_vector_array" in kw:
        near(o.basis_vector_array, kw["basis_vector_array"], what + " basis", 0, 0)
    elif ef:
        e = np.zeros((2, 2) + pix)
        e[0, 0] = e[1, 1] = 1
        near(o.basis_vector_array, e, what + " basis", 0, 0)
    require(o.check(), what)


def run_beam(case, ctx):
    bt, grid, xo, d = case
    kw, pix, bad = beam_kw(bt, grid)
    if xo:
        kw["x_orientation"] = xo
    if bt == "named" and xo is None:
        bad = 1
    ef = bt.startswith("efield")
    if d != "none" and pix:
        shape = (2 if ef else 1, 2 if ef else len(POLS[bt]), 3) + pix
        r = np.arange(float(np.prod(shape))).reshape(shape)
        cross = any(p in (-7, -8, "xy") for p in POLS.get(bt, ()))
        kw["data_array"] = r + 1j * (r % 7) if ef else r + 0j if cross else r
        if d == "badshape":
            kw["data_array"] = kw["data_array"][..., :2]
            bad = 1
    ck = keep(*[v for v in kw.values() if isinstance(v, np.ndarray)])
    what = f"UVBeam.new({bt}, {grid}, {xo}, data {d})"
    ctx.step()
    if bad:
        refused(lambda: UVBeam.new(**kw), what)
    else:
        check_beam(UVBeam.new(**kw), kw, bt, grid, pix, xo, what)
        ctx.state(digest(what))
    require(keep(*[v for v in kw.values() if isinstance(v, np.ndarray)]) == ck, f"{what}: changed its arguments")


def run_beamo(case, ctx):
    bt, grid, opt = case
    kw, pix, bad = beam_kw(bt, grid)
    ef = bt == "efield"
    nax = 2 if ef else 1
    loc = np.arange(8.0).reshape(2, 4)
    elem = {}
    if opt in ("basis", "badbasis"):
        b = np.arange(float(nax * 2 * np.prod(pix))).reshape((nax, 2) + pix) / 1000
        if not ef:
            # power beams carry one vector axis
            pass
        kw["basis_vector_array"] = b[..., :1] if opt[:3] == "bad" else b
    if opt in ("bandpass", "badband"):
        kw["bandpass_array"] = np.arange(3 if opt == "bandpass" else 2) + 0.5
    if opt in ("elem", "elemall", "badgain", "baddelay", "badcoup"):
        elem["element_location_array"] = loc
    if opt == "elemall":
        elem.update(element_coordinate_system="n-e", delay_array=np.arange(4.0), gain_array=np.arange(4.0) + 2, coupling_matrix=np.arange(4 * 4 * 2 * 2 * 3.0).reshape(4, 4, 2, 2, 3) + 1j)
    if opt == "badelem":
        elem["element_location_array"] = loc[:1]
    if opt == "badgain":
        elem["gain_array"] = np.ones(3)
    if opt == "baddelay":
        elem["delay_array"] = np.ones(3)
    if opt == "badcoup":
        elem["coupling_matrix"] = np.ones((4, 4))
    kw.update(elem)
    if elem and not ef:
        bad = 1
    if opt == "bothtypes":
        kw.update(feed_array=["x"], polarization_array=[-5])
    if opt == "notypes":
        kw.pop("feed_array", None)
        kw.pop("polarization_array", None)
    if opt == "freqlist":
        kw["freq_array"] = kw["freq_array"][None]
    if opt.startswith("norm"):
        kw["data_normalization"] = ("peak", "solid_angle")[int(opt[-1]) - 1]
    if opt == "badnorm":
        kw["data_normalization"] = "none"
    if opt.startswith("bad") or opt in ("bothtypes", "notypes", "freqlist"):
        bad = 1
    ck = keep(*[v for v in kw.values() if isinstance(v, np.ndarray)])
    what = f"UVBeam.new({bt}, {grid}, {opt})"
    ctx.step()
    if bad:
        refused(lambda: UVBeam.new(**kw), what)
    else:
        o = UVBeam.new(**kw)
        check_beam(o, kw, bt, grid, pix, None, what)
        if elem:
            require(o.antenna_type == "phased_array" and o.Nelements == 4, what)
            near(o.element_location_array, loc, what, 0, 0)
            require(o.element_coordinate_system == elem.get("element_coordinate_system", "x-y"), what)
            near(o.delay_array, elem.get("delay_array", np.zeros(4)), what + " delays", 0, 0)
            near(o.gain_array, elem.get("gain_array", np.ones(4)), what + " gains", 0, 0)
            if "coupling_matrix" in elem:
                near(o.coupling_matrix, elem["coupling_matrix"], what + " coupling", 0, 0)
            else:
                for i, j in itertools.product(range(4), repeat=2):
                    near(o.coupling_matrix[i, j], np.full((2, 2, 3), float(i == j)), what + " coupling", 0, 0)
        else:
            require(o.antenna_type == "simple", what)
        ctx.state(digest(what))
    require(keep(*[v for v in kw.values() if isinstance(v, np.ndarray)]) == ck, f"{what}: changed its arguments")
