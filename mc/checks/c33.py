"""C33: the fast metadata readers give what a full read gives, whatever is asked in whatever order."""

import itertools
import pickle

import h5py
import numpy as np
from pyuvdata import UVCal, UVData
from pyuvdata.uvcal import FastCalH5Meta
from pyuvdata.uvdata import FastUVH5Meta

from mc import cal, gen, io
from mc.core import Violation, digest, require
from mc.model import Frozen, compare_uv, UVModel

ID = "C33"
BOUNDS = (
    "FastUVH5Meta on files of 5 row layouts x antenna-pair sets (several, reversed, one, autos only) x 1-3 times x windows, polarizations, orientations, "
    "phase-centre set-ups, lunar and terrestrial sites, each with every subset of the optional header items removed "
    "and every way of giving the row order and rectangularity; every one of 60 attributes first on a fresh object, and every history of three steps over "
    "{attribute, transactional read cached or not, close, open, delete an attribute, pickle, to_uvdata, header}; every key of pairs and "
    "polarizations known and unknown; FastCalH5Meta alike on gain, wide-band and delay files."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
OPTIONAL = ["blt_order", "blts_are_rectangular", "time_axis_faster_than_bls", "lst_array"]
ATTRS = ["Nblts", "Ntimes", "Nbls", "Npols", "Nfreqs", "Nspws", "Nphase", "Nants_data", "Nants_telescope", "time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "uvw_array", "freq_array", "channel_width",
         "spw_array", "flex_spw_id_array", "polarization_array", "integration_time", "history", "instrument", "telescope_name", "x_orientation", "vis_units", "antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters",
         "phase_center_catalog", "phase_center_id_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "extra_keywords", "eq_coeffs", "eq_coeffs_convention", "blt_order", "blts_are_rectangular",
         "time_axis_faster_than_bls", "times", "lsts", "unique_antpair_1_array", "unique_antpair_2_array", "unique_ants", "unique_baseline_array", "antpairs", "pols", "telescope_location", "telescope_location_lat_lon_alt",
         "telescope_location_lat_lon_alt_degrees", "telescope_location_obj", "antpos_enu", "telescope", "telescope_frame", "ellipsoid", "dut1", "gst0", "earth_omega", "rdate", "timesys", "flex_spw_polarization_array"]
KEEP = ["Ntimes", "times", "lsts", "antpairs", "baseline_array", "unique_antpair_2_array", "blts_are_rectangular", "time_axis_faster_than_bls", "pols", "blt_order", "telescope", "antpos_enu", "history", "Nbls"]
OPS = ["close", "open", "header", "pickle", "touvd", "tt:times", "tf:antpairs", "tt:freq_array", "tf:time_axis_faster_than_bls", "del:times", "del:antpairs", "a:unique_ants", "a:blts_are_rectangular", "a:lst_array", "a:telescope"]
CATTRS = ["Ntimes", "Nfreqs", "Njones", "Nspws", "Nants_data", "Nants_telescope", "time_array", "time_range", "lst_array", "lst_range", "freq_array", "freq_range", "channel_width", "spw_array", "flex_spw_id_array", "jones_array",
          "integration_time", "ant_array", "antenna_numbers", "antenna_names", "antenna_positions", "telescope_name", "x_orientation", "history", "cal_type", "cal_style", "gain_convention", "wide_band", "gain_scale",
          "pol_convention", "observer", "sky_catalog", "ref_antenna_name", "extra_keywords", "pols", "telescope", "telescope_location", "telescope_location_lat_lon_alt_degrees", "antpos_enu", "phase_center_catalog"]

FILES = {}
for _i, (_l, _a, _n) in enumerate(itertools.product(LAY, ("three", "conj", "two", "one", "autos"), (1, 2, 3))):
    FILES[f"{_l}.{_a}.{_n}"] = dict(
        layout=_l, ants=[(3, 0)] if _a == "one" else _a, nt=_n, spw=("one", "two", "two_rev", "one_desc")[_i % 4],
        pols=[(-5, -6, -7, -8), (-6, -5), (-8,), (1, 2), (-1, -4, -2), (-7, -5)][_i % 6], x_orient=("east", "north", None)[(_i // 2) % 3],
        pc=("multi", "sidA", "unproj", "ephem")[_i % 4], eq=bool(_i % 3 == 0), t0="wrap" if _i % 5 == 1 else gen.JD0, nf=4)

for _o in ("time", "baseline", "ant1"):
    FILES[f"af{_o}"] = dict(layout="time", ants="conj", nt=2, autos_first=_o, pols=(-5, -7))


def cases(tier):
    out = []
    for n in FILES:
        for r in range(len(OPTIONAL) + 1):
            for drop in itertools.combinations(OPTIONAL, r):
                if OPTIONAL[1] in drop and OPTIONAL[2] not in drop:
                    continue  # a file that says which axis is faster says that there are two
                out.append(["file", n, list(drop), "none"])
        out.append(["file", n, ["blt_order"], "determine"])
        out.append(["file", n, OPTIONAL[:3], "determine"])
        out.append(["file", n, OPTIONAL[:3], "given"])
        out.append(["file", n, OPTIONAL, "nbls"])
        out.append(["file", n, [], "group"])
        out.append(["key", n])
    hist = ["time.three.3", "ragshuf.conj.2", "bl.two.3"]
    for n in hist:
        for seq in itertools.product(OPS, repeat=2):
            out.append(["hist", n, list(seq)])
    if tier == "thorough":
        for n in hist[:2]:
            for seq in itertools.product(OPS, repeat=3):
                out.append(["hist", n, list(seq)])
    else:
        for i, seq in enumerate(itertools.product(OPS, repeat=3)):
            if i % 6 == 0:
                out.append(["hist", hist[(i // 6) % 2], list(seq)])
    for k in CAL:
        out.append(["cal", k])
        for seq in itertools.product(["close", "open", "pickle", "touvc", "tf:pols", "tt:integration_time", "a:telescope"], repeat=2):
            out.append(["calhist", k, list(seq)])
    out.append(["moon"])
    return out


CAL = {
    "gain": dict(spw="two", jones=(-5, -6), x_orient="east", extras=True),
    "north": dict(spw="one", jones=(-6, -5, -7), x_orient="north", trange=True, pc=True),
    "circ": dict(jones=(-1, -2), x_orient="east", tq=True),
    "delay": dict(kind="delay", spw="three", jones=(-5,), style="sky"),
    "wide": dict(kind="wide", spw="two_rev", trange=True, ants=(12, 3)),
}
_f = {}


def build(n):
    if n not in _f:
        kw = dict(FILES[n])
        af = kw.pop("autos_first", None)
        u = gen.uvd(**kw)
        if af:
            u.reorder_blts(af, autos_first=True)
        p = io.path(".uvh5")
        u.write_uvh5(p, clobber=True)
        full = UVData.from_file(p)
        _f[n] = (p, full)
    return _f[n]


def stripped(p, drop):
    import shutil

    q = io.path(".uvh5")
    shutil.copy(p, q)
    with h5py.File(q, "r+") as h:
        for k in drop:
            if k in h["Header"]:
                del h["Header"][k]
    return q


def arr(x):
    return np.asarray(x)


def same_tel(v, t, what):
    t, v = t.copy(), v.copy()
    for x in (t, v):  # what a full read marks as required depends on the object it belongs to
        for a in ("_instrument", "_x_orientation", "_antenna_diameters"):
            getattr(x, a).required = False
    require(v == t, "%s: telescope differs", what)


def check_attr(m, name, u, what):
    """One attribute of the metadata object against the object a full read gives."""
    t = u.telescope
    v = getattr(m, name)
    simple = {"Nants_telescope": t.Nants, "antenna_numbers": t.antenna_numbers, "antenna_positions": t.antenna_positions, "antenna_diameters": t.antenna_diameters, "instrument": t.instrument,
              "telescope_name": t.name, "x_orientation": t.x_orientation}
    pairs = sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))
    msg = f"{what}: {name}"
    if name == "antenna_names":
        require([str(s) for s in v] == [str(s) for s in t.antenna_names], "%s %s", msg, v)
    elif name == "times":
        require(len(v) == u.Ntimes and np.array_equal(np.sort(v), np.unique(u.time_array)), "%s %s, file has %s", msg, v, np.unique(u.time_array))
    elif name == "lsts":
        require(np.allclose(np.sort(v), np.unique(u.lst_array), rtol=0, atol=1e-9) and len(v) == len(np.unique(u.lst_array)), "%s %s", msg, v)
        if m.blts_are_rectangular:
            for a, b in zip(m.times, v):
                require(np.all(np.abs(u.lst_array[u.time_array == a] - b) < 1e-9), "%s do not go with the times", msg)
    elif name in ("unique_antpair_1_array", "unique_antpair_2_array", "unique_baseline_array"):
        g = list(zip(arr(m.unique_antpair_1_array).tolist(), arr(m.unique_antpair_2_array).tolist()))
        require(sorted(g) == pairs, "%s %s, file has %s", msg, g, pairs)
        b = arr(m.unique_baseline_array).tolist()
        require([int(x) for x in b] == [int(u.antnums_to_baseline(*q)) for q in g], "%s: baselines %s", msg, b)
    elif name == "antpairs":
        require(sorted((int(a), int(b)) for a, b in v) == pairs, "%s %s, file has %s", msg, v, pairs)
    elif name == "unique_ants":
        require({int(x) for x in v} == {a for q in pairs for a in q}, "%s %s", msg, v)
    elif name == "pols":
        require(list(v) == u.get_pols() if u.Npols else True, "%s %s, not %s", msg, v, u.get_pols())
    elif name == "phase_center_catalog":
        require(set(v) == set(u.phase_center_catalog), "%s keys", msg)
        for k in v:
            for f, x in v[k].items():
                if f in u.phase_center_catalog[k] and x is not None and not isinstance(x, str):
                    require(np.allclose(np.asarray(x, float), np.asarray(u.phase_center_catalog[k][f], float)), "%s[%s][%s]", msg, k, f)
            require(v[k]["cat_name"] == u.phase_center_catalog[k]["cat_name"] and v[k]["cat_type"] == u.phase_center_catalog[k]["cat_type"], "%s[%s]", msg, k)
    elif name == "extra_keywords":
        require(set(v) == set(u.extra_keywords) and all(v[k] == u.extra_keywords[k] for k in v), "%s %s", msg, v)
    elif name == "telescope":
        same_tel(v, t, msg)
    elif name == "telescope_location":
        require(np.allclose(v, [x.to_value("m") for x in t.location.geocentric], rtol=0, atol=1e-4), "%s %s", msg, v)
    elif name == "telescope_location_obj":
        require(np.allclose([v.x.value, v.y.value, v.z.value], [x.to_value("m") for x in t.location.geocentric], rtol=0, atol=1e-4), "%s %s", msg, v)
    elif name == "telescope_location_lat_lon_alt":
        require(np.allclose(v, t.location_lat_lon_alt, rtol=0, atol=1e-4 if False else 1e-6), "%s %s", msg, v)
    elif name == "telescope_location_lat_lon_alt_degrees":
        require(np.allclose(v, t.location_lat_lon_alt_degrees, rtol=0, atol=1e-6), "%s %s", msg, v)
    elif name == "antpos_enu":
        require(np.allclose(v, t.get_enu_antpos(), rtol=0, atol=1e-4), "%s %s", msg, v)
    elif name == "telescope_frame":
        require(v == t._location.frame, "%s %s", msg, v)
    elif name == "ellipsoid":
        require(v == t._location.ellipsoid, "%s %s", msg, v)
    elif name == "blts_are_rectangular":
        require(bool(v) == rect(u), "%s is %s", msg, v)
    elif name == "time_axis_faster_than_bls":
        if rect(u) and u.Ntimes > 1 and u.Nbls > 1:
            require(bool(v) == bool(u.time_array[1] != u.time_array[0]), "%s is %s", msg, v)
        elif not rect(u):
            require(not v, "%s is %s", msg, v)
    elif name == "blt_order":
        if v is not None and u.blt_order is not None:
            require(tuple(v) == tuple(u.blt_order), "%s %s, not %s", msg, v, u.blt_order)
    else:
        w = simple[name] if name in simple else getattr(u, name)
        if name == "history":
            require(w.startswith(v), "%s is %r", msg, v)
            return
        if isinstance(w, str) or w is None:
            require(v == w, "%s is %r, not %r", msg, v, w)
        else:
            require(np.shape(v) == np.shape(w) and np.allclose(v, w, rtol=0, atol=1e-9), "%s is %s, not %s", msg, v, w)


def rect(u):
    """Rows reshape to (times, baselines) or the other way round."""
    t, b = u.time_array, u.baseline_array
    nt, nb = len(np.unique(t)), len(np.unique(b))
    if u.Nblts != nt * nb:
        return False
    for tf in (True, False):
        s = (nb, nt) if tf else (nt, nb)
        x, y = t.reshape(s), b.reshape(s)
        if tf and np.all(x == x[:1]) and np.all(y == y[:, :1]) or not tf and np.all(x == x[:, :1]) and np.all(y == y[:1]):
            return True
    return False


def attrs(m, u):
    for a in ATTRS:
        if a in ("eq_coeffs", "eq_coeffs_convention", "flex_spw_polarization_array") and getattr(u, a) is None:
            require(not hasattr(m, a), "%s of a file without", a)
            continue
        yield a


def filecase(case, ctx):
    _, n, drop, mode = case
    p, u = build(n)
    q = stripped(p, drop)
    kw = {}
    if mode == "determine":
        kw["blt_order"] = "determine"
    elif mode == "given":
        if u.blt_order is not None:
            kw["blt_order"] = tuple(u.blt_order)
        kw["blts_are_rectangular"] = rect(u)
        if rect(u) and u.Nbls > 1 and u.Ntimes > 1:
            kw["time_axis_faster_than_bls"] = bool(u.time_array[1] != u.time_array[0])
    elif mode == "nbls":
        kw["recompute_nbls"] = True
        with h5py.File(q, "r+") as h:
            del h["Header/Nbls"]
            h["Header/Nbls"] = u.Nblts
    src = q
    if mode == "group":
        src = h5py.File(q, "r")
    m = FastUVH5Meta(src, **kw)
    try:
        lst = list(attrs(m, u))
        # every attribute first on a fresh object when the file is stripped, in the given order otherwise
        fresh = mode == "none" and len(drop) in (0, 4)
        for a in lst:
            if fresh and a in KEEP:
                mm = FastUVH5Meta(q, **kw)
                check_attr(mm, a, u, f"{n} without {drop}, fresh")
                mm.close()
            check_attr(m, a, u, f"{n} without {drop} ({mode})")
            ctx.step()
        require(not hasattr(m, "unheard_of"), "unknown attribute")
        w = m.to_uvdata()
        e = u.copy(metadata_only=True)
        require(np.allclose(w.lst_array, e.lst_array, rtol=0, atol=1e-9), "%s: to_uvdata: LSTs", n)
        w.lst_array = e.lst_array.copy()
        compare_uv(UVModel(e), w, f"{n}: to_uvdata")
        ctx.state(digest(n, drop, mode))
        ctx.trace()
    finally:
        m.close()
        io.rm(q)


def key(case, ctx):
    p, u = build(case[1])
    m = FastUVH5Meta(p)
    pairs = set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))
    names = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
    xo = u.telescope.x_orientation
    if xo:
        names = {k: v for k, v in names.items() if k > -5}
        names.update({-5: "ee", -6: "nn", -7: "en", -8: "ne"} if xo == "east" else {-5: "nn", -6: "ee", -7: "ne", -8: "en"})
    cj = {-7: -8, -8: -7, -3: -4, -4: -3}
    have = [int(x) for x in u.polarization_array]
    for a, b in itertools.product((3, 0, 12, 7, 5, 99), repeat=2):
        e = (a, b) in pairs or (b, a) in pairs
        require(bool(m.has_key((a, b))) is e, "has_key((%d, %d)) of %s", a, b, case[1])
        for x, s in names.items():
            e = (a, b) in pairs and x in have or (b, a) in pairs and cj.get(x, x) in have
            require(bool(m.has_key((a, b, s))) is e, "has_key((%d, %d, %r)) of %s with %s", a, b, s, case[1], m.pols)
            ctx.step()
        require(not m.has_key((a, b, "zz")), "has_key with an unknown polarization")
    m.close()
    ctx.trace()


def step(m, op, ctx, cls, tou, what, chk):
    ctx.step()
    if op == "close":
        m.close()
        require(not m.is_open(), "%s: open after close()", what)
    elif op == "open":
        m.open()
        require(m.is_open(), "%s: not open after open()", what)
    elif op == "header":
        m.header
        m.datagrp
    elif op == "pickle":
        d = pickle.dumps(m)
        m2 = pickle.loads(d)
        require(not m2.is_open() and m2 == m and hash(m2) == hash(m), "%s: pickled object differs", what)
        m.close()
        return m2
    elif op in ("touvd", "touvc"):
        tou(m)
    elif op[:3] in ("tt:", "tf:"):
        m.get_transactional(op[3:], cache=op[1] == "t")
        require(not m.is_open(), "%s: still open after a transactional read", what)
        require((op[3:] in m.__dict__) == (op[1] == "t"), "%s: caching of a transactional read", what)
    elif op[:4] == "del:":
        getattr(m, op[4:])
        delattr(m, op[4:])
        require(op[4:] not in m.__dict__, "delete")
    elif op[:2] == "a:":
        chk(m, op[2:])
    return m


def hist(case, ctx):
    _, n, seq = case
    p, u = build(n)
    m = FastUVH5Meta(p)
    what = f"{n} after {seq}"

    def tou(m):
        w = m.to_uvdata()
        require(w.Nblts == u.Nblts and w.metadata_only, "%s: to_uvdata", what)

    for op in seq:
        m = step(m, op, ctx, FastUVH5Meta, tou, what, lambda m, a: check_attr(m, a, u, what))
    for a in KEEP:
        check_attr(m, a, u, what)
    m.close()
    ctx.state(digest(n, seq))
    ctx.trace()


def cbuild(k):
    if k not in _f:
        c = cal.build(CAL[k])
        p = io.path(".calh5")
        c.write_calh5(p, clobber=True)
        _f[k] = (p, UVCal.from_file(p))
    return _f[k]


def cattr(m, a, c, what):
    t = c.telescope
    simple = {"Nants_telescope": t.Nants, "antenna_numbers": t.antenna_numbers, "antenna_positions": t.antenna_positions, "telescope_name": t.name, "x_orientation": t.x_orientation}
    if a == "antenna_names":
        require([str(s) for s in m.antenna_names] == [str(s) for s in t.antenna_names], "%s: %s", what, a)
        return
    if a == "pols":
        nm = {-1: "Jrr", -2: "Jll", -5: "Jxx", -6: "Jyy", -7: "Jxy", -8: "Jyx"}
        if t.x_orientation:
            nm.update({-5: "Jee", -6: "Jnn", -7: "Jen", -8: "Jne"} if t.x_orientation == "east" else {-5: "Jnn", -6: "Jee", -7: "Jne", -8: "Jen"})
        require([str(s) for s in m.pols] == [nm[int(j)] for j in c.jones_array], "%s: pols %s", what, m.pols)
        return
    if a == "telescope":
        same_tel(m.telescope, t, what)
        return
    if a == "telescope_location":
        require(np.allclose(m.telescope_location, [x.to_value("m") for x in t.location.geocentric], rtol=0, atol=1e-4), "%s: %s", what, a)
        return
    if a == "telescope_location_lat_lon_alt_degrees":
        require(np.allclose(m.telescope_location_lat_lon_alt_degrees, t.location_lat_lon_alt_degrees, rtol=0, atol=1e-6), "%s: %s", what, a)
        return
    if a == "antpos_enu":
        require(np.allclose(m.antpos_enu, t.get_enu_antpos(), rtol=0, atol=1e-4), "%s: %s", what, a)
        return
    w = simple[a] if a in simple else getattr(c, a)
    if a == "history":
        require(w.startswith(m.history), "%s: history", what)
        return
    if w is None:
        require(getattr(m, a, None) is None, "%s: %s is set", what, a)
    elif a == "phase_center_catalog":
        require(set(m.phase_center_catalog) == set(w), "%s: %s", what, a)
    elif isinstance(w, (str, dict)):
        require(getattr(m, a) == w, "%s: %s", what, a)
    else:
        v = getattr(m, a)
        require(np.shape(v) == np.shape(w) and np.allclose(v, w, rtol=0, atol=1e-9), "%s: %s is %s, not %s", what, a, v, w)


def calc(case, ctx):
    p, c = cbuild(case[1])
    m = FastCalH5Meta(p)
    for a in CATTRS:
        cattr(m, a, c, case[1])
        mm = FastCalH5Meta(p)
        cattr(mm, a, c, case[1] + " fresh")
        mm.close()
        ctx.step(2)
    ants = [int(x) for x in c.ant_array]
    js = [int(x) for x in c.jones_array]
    for ant in (None, 0, 3, 5, 7, 12, 99):
        for j, s in [(None, None), (-5, "Jxx"), (-6, "Jyy"), (-7, "xy"), (-8, "Jyx"), (-1, "rr"), (-2, "Jll"), (-3, "rl")]:
            e = (ant is None or ant in ants) and (j is None or j in js)
            for f in (j, s):
                require(bool(m.has_key(ant, f)) is e, "has_key(%r, %r) of %s", ant, f, case[1])
                ctx.step()
    w = m.to_uvcal()
    e = c.copy(metadata_only=True)
    Frozen(e).check(w, f"{case[1]}: to_uvcal against a full read")
    m.close()
    ctx.trace()


def calhist(case, ctx):
    _, k, seq = case
    p, c = cbuild(k)
    m = FastCalH5Meta(p)
    what = f"{k} after {seq}"
    for op in seq:
        m = step(m, op, ctx, FastCalH5Meta, lambda m: m.to_uvcal(), what, lambda m, a: cattr(m, a, c, what))
    for a in ("Ntimes", "jones_array", "pols", "telescope", "ant_array", "history", "wide_band", "freq_range"):
        cattr(m, a, c, what)
    m.close()
    ctx.trace()


def moon(case, ctx):
    from lunarsky import MoonLocation
    from pyuvdata import Telescope

    for ell in ("SPHERE", "GSFC"):
        u = gen.uvd(meta=False, pc="unproj")
        loc = MoonLocation.from_selenodetic(lat=10.0, lon=20.0, height=30.0, ellipsoid=ell)
        u.telescope.location = loc
        u.set_lsts_from_time_array()
        u._set_app_coords_helper()
        p = io.path(".uvh5")
        u.write_uvh5(p, run_check=False)
        f = UVData.from_file(p, run_check=False)
        m = FastUVH5Meta(p)
        for a in ("telescope_location", "telescope_frame", "ellipsoid", "telescope_location_lat_lon_alt_degrees", "telescope_location_lat_lon_alt", "telescope"):
            if a == "telescope_location":
                require(np.allclose(m.telescope_location, f.telescope._location.xyz(), rtol=0, atol=1e-4), "lunar %s", a)
            else:
                check_attr(m, a, f, f"lunar {ell}")
            ctx.step()
        require(np.allclose(m.antpos_enu, f.telescope.get_enu_antpos(), rtol=0, atol=1e-4), "lunar ENU positions")
        require(isinstance(m.telescope, Telescope), "type")
        m.close()
        io.rm(p)
    ctx.trace()


def run(case, ctx):
    {"file": filecase, "key": key, "hist": hist, "cal": calc, "calhist": calhist, "moon": moon}[case[0]](case, ctx)


_ = Violation
