"""C37: arithmetic on visibilities: sums and differences of objects, removal of equalisation
coefficients, normalisation by autocorrelations."""

import itertools

import numpy as np

from mc import gen
from mc.core import Violation, digest, expect_raises, require
from mc.model import Frozen, check_valid, freeze, _eqimg

ID = "C37"
BOUNDS = (
    "sum_vis and diff_vis over row layouts, windows, polarization sets, precisions, in place or not, verbose and word-wise histories, every relation of the two "
    "objects' extra keywords, every parameter of the second object changed alone (within and beyond its tolerance, present or absent) with and "
    "without being overridden; sums of three in both groupings and sum-then-difference; remove_eq_coeffs over antenna orders, layouts, windows "
    "and conventions; normalize_by_autos over every layout (ordered or not, ragged), nine polarization sets and orders, every state (good, "
    "flagged, zero, negative, absent) of each of three autocorrelations, skipping, inverting, precisions, normalise-then-invert."
)
ASSUMPTIONS = ["one autocorrelation per antenna and time", "values outside the small alphabets are not explored"]

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
POLS = [(-5, -6, -7, -8), (-5, -6), (-8, -5, -6), (-5,), (-1, -2, -3, -4), (-3, -2, -1), (1, 2, 3, 4), (1,), (-6, -7, -5)]
BADPOLS = [(-7,), (-5, -7), (-3, -1), (-8, -6)]
EK = [({}, {}), ({"A": 1}, {"A": 1}), ({"A": 1}, {"A": 2}), ({"A": 1}, {"B": "x"}), ({}, {"B": 1.5}), ({"A": 1, "C": True}, {"C": False, "D": 1})]

CHANGES = {
    "flag_array": "flip", "nsample_array": "big", "uvw_array": ("add", 0.5, 1e-4), "time_array": ("add", 1e-5, 1e-9), "lst_array": ("add", 1e-3, 1e-10),
    "integration_time": ("add", 1.0, 1e-4), "freq_array": ("add", 1.0, 1e-4), "channel_width": ("add", 1.0, 1e-4), "ant_1_array": "swap12", "vis_units": "K str",
    "polarization_array": "rev", "spw_array": "plus", "flex_spw_id_array": "plusspw", "phase_center_app_ra": ("add", 1e-3, 1e-13), "phase_center_app_dec": ("add", 1e-3, 1e-13),
    "phase_center_frame_pa": ("add", 1e-3, 1e-12), "phase_center_id_array": "newid", "phase_center_catalog": "catname", "telescope": "telname", "scan_number_array": "unset", "eq_coeffs": "unset",
    "eq_coeffs_convention": "multiply", "dut1": ("val", 0.5), "rdate": "other", "gst0": ("val", 1.0), "earth_omega": ("val", 361.0), "timesys": "IAT",
    "blt_order": ("val", ("time", "baseline")), "pol_convention": "avg", "blts_are_rectangular": None,
}


def cases(tier):
    out = []
    n = 0
    for lay, spw, p in itertools.product(LAY, ("one", "two", "one_desc"), POLS[:6]):
        for diff, inp in itertools.product((False, True), (False, True)):
            n += 1
            out.append(["sum", dict(layout=lay, spw=spw, pols=p, dtype=("complex128", "complex64")[n % 2], pc=("sidA", "multi", "unproj")[n % 3], scan=bool(n % 2)),
                        dict(diff=diff, inplace=inp, verbose=bool((n // 2) % 2), hist=n % 4, ek=n % 6, fn=n % 3)])
    for ek, inp, h, v in itertools.product(range(6), (False, True), range(4), (False, True)):
        out.append(["sum", dict(layout="time", pols=(-5, -6)), dict(diff=False, inplace=inp, verbose=v, hist=h, ek=ek, fn=h % 3)])
    for par in CHANGES:
        for big, over, diff, inp in itertools.product((True, False), (0, 1, 2), (False, True), (False, True)):
            if not big and not (isinstance(CHANGES[par], tuple) and CHANGES[par][0] == "add"):
                continue
            out.append(["change", par, big, over, diff, inp])
    for par in ("data_array", "history", "extra_keywords"):
        out.append(["free", par])
    for b in ("type", "override"):
        for inp in (False, True):
            out.append(["badsum", b, inp])
    for lay, spw, conv, p in itertools.product(LAY, ("one", "two", "two_rev"), ("multiply", "divide"), POLS[:3]):
        for ants in ("three", "conj", "cross", "autos"):
            n += 1
            out.append(["eq", dict(layout=lay, spw=spw, pols=p, ants=ants, seed=n % 5, dtype=("complex128", "complex64")[n % 2]), conv])
    for b in ("none", "noconv", "badconv"):
        out.append(["badeq", b])
    states = list(itertools.product("gfznu", repeat=3))
    for st in states:
        for sk, inv in itertools.product((True, False), (True, False)):
            n += 1
            for lay in LAY if tier == "thorough" else (LAY[n % 5], LAY[(n + 2) % 5]):
                for p in POLS if tier == "thorough" else (POLS[n % 9], POLS[(n + 4) % 9]):
                    out.append(["norm", dict(layout=lay, pols=p, spw=("one", "two")[n % 2], seed=n % 4, dtype=("complex128", "complex64")[(n // 3) % 2], nt=2), "".join(st), sk, inv])
    for lay, p, sk in itertools.product(LAY, POLS, (True, False)):
        for spw in ("one", "two"):
            for inv in (True, False):
                out.append(["norm", dict(layout=lay, pols=p, spw=spw, nt=3), "ggg", sk, inv])
                out.append(["norm", dict(layout=lay, pols=p, spw=spw, nt=3, jit=True), "ggg" if inv else "gfz", sk, inv])
            out.append(["undo", dict(layout=lay, pols=p, spw=spw, nt=3)])
    for p in BADPOLS:
        out.append(["badnorm", p])
    out.append(["badnorm", "noautos"])
    return out


def build(kw):
    kw = dict(kw)
    kw["dtype"] = np.dtype(kw.get("dtype", "complex128"))
    kw["pols"] = tuple(kw["pols"])
    return gen.uvd(**kw)


HIST = ["", " Processed once with stuff.", "same", "entirely different words here"]


def summ(case, ctx):
    _, kw, o = case
    a = build(dict(kw, seed=1))
    b = build(dict(kw, seed=1))
    b.data_array = build(dict(kw, seed=4)).data_array
    h = o["hist"]
    if h == 1:
        b.history = a.history + HIST[1]
    elif h == 3:
        b.history = HIST[3]
    a.extra_keywords, b.extra_keywords = (dict(x) for x in EK[o["ek"]])
    if o["fn"] == 1:
        a.filename, b.filename = ["a.uv"], ["b.uv"]
        a._filename.form = b._filename.form = (1,)
    elif o["fn"] == 2:
        b.filename = ["b.uv"]
        b._filename.form = (1,)
    exp = freeze(a)
    d = a.data_array - b.data_array if o["diff"] else a.data_array + b.data_array
    fb, fa = Frozen(b), Frozen(a)
    ha = a.history
    f = a.diff_vis if o["diff"] and not o["verbose"] else a.sum_vis
    ka = {} if f == a.diff_vis else {"difference": o["diff"], "verbose_history": o["verbose"]}
    r = f(b, inplace=o["inplace"], **ka)
    ctx.step()
    fb.check(b, "sum_vis second operand")
    if o["inplace"]:
        require(r is None, "in-place sum returned %r", type(r))
        r = a
    else:
        fa.check(a, "sum_vis first operand")
        for x in (a, b):
            require(not np.shares_memory(r.data_array, x.data_array) and not np.shares_memory(r.flag_array, x.flag_array), "result shares arrays with an operand")
            require(r.extra_keywords is not x.extra_keywords, "result shares extra_keywords")
    require(np.array_equal(r.data_array, d) and r.data_array.dtype == d.dtype, "data are not the %s", "difference" if o["diff"] else "sum")
    require(r.history.startswith(ha) and len(r.history) > len(ha), "history %r", r.history)
    if o["verbose"] and h in (1, 3):
        require(r.history.endswith(b.history), "verbose history lacks the second object's: %r", r.history)
    elif h == 3:
        require(all(w in r.history for w in HIST[3].split()), "history lacks the second object's words: %r", r.history)
    ea, eb = EK[o["ek"]]
    require(r.extra_keywords == {**eb, **ea}, "extra keywords %r", r.extra_keywords)
    if o["fn"]:
        require(r.filename == (["a.uv", "b.uv"] if o["fn"] == 1 else ["b.uv"]), "filename %r", r.filename)
    same_but(exp, r, ("data_array", "history", "extra_keywords", "filename"), "sum_vis")
    check_valid(r)
    if not o["diff"]:
        # the difference takes the sum apart again
        q = r.diff_vis(b, override_params=["filename"])
        require(np.allclose(q.data_array, r.data_array - b.data_array, rtol=1e-6), "difference of a sum")
        c = build(dict(kw, seed=1))
        c.data_array = build(dict(kw, seed=2)).data_array
        s1 = r.sum_vis(c, override_params=["filename"])
        s2 = c.sum_vis(r)
        require(np.array_equal(s1.data_array, s2.data_array), "sum is not commutative")
    ctx.state(digest(r.data_array))
    ctx.trace()


def same_but(img, obj, names, what):
    now = freeze(obj)
    for k in img:
        if any(n in k for n in names):
            continue
        require(k in now and _eqimg(img[k], now[k]), "%s changed %s", what, k)


def change(case, ctx):
    _, par, big, over, diff, inp = case
    kw = dict(layout="time", spw="two", pols=(-5, -6), pc="multi", scan=True, eq=True)
    a, b = build(kw), build(dict(kw))
    b.data_array = build(dict(kw, seed=3)).data_array
    ch = CHANGES[par]
    if par == "blt_order":
        # only the reading matters, the rows are already in this order
        a.blt_order = ("time", "ant1")
        a._blt_order.form = (2,)
        b.blt_order = ch[1]
        b._blt_order.form = (2,)
    elif ch == "flip":
        b.flag_array[0, 0, 0] = ~b.flag_array[0, 0, 0]
    elif ch == "big":
        b.nsample_array[0, 0, 0] += 3
    elif ch == "swap12":
        b.ant_1_array, b.ant_2_array = b.ant_2_array, b.ant_1_array
        b.baseline_array = b.antnums_to_baseline(b.ant_1_array, b.ant_2_array)
        b.uvw_array = -b.uvw_array
    elif ch == "rev":
        b.polarization_array = b.polarization_array[::-1].copy()
    elif ch in ("plus", "plusspw"):
        b.spw_array = b.spw_array + 1
        b.flex_spw_id_array = b.flex_spw_id_array + 1
    elif ch == "newid":
        k = b.phase_center_id_array[0]
        b.phase_center_catalog[77] = dict(b.phase_center_catalog[k], cat_name="seventyseven")
        b.Nphase += 1
        b.phase_center_id_array[0] = 77
    elif ch == "catname":
        k = list(b.phase_center_catalog)[0]
        b.phase_center_catalog[k]["cat_name"] += "x"
    elif ch == "telname":
        b.telescope.name = "other"
    elif ch == "unset":
        setattr(b, par, None)
        if par == "eq_coeffs":
            b.eq_coeffs_convention = None
    elif ch is None:
        b.blts_are_rectangular = False
    elif isinstance(ch, str):
        setattr(b, par, ch)
    elif ch[0] == "val":
        setattr(b, par, ch[1])
    else:
        x = getattr(b, par).copy()
        x[... if par in ("time_array", "integration_time") else (..., -1)] += ch[1] if big else ch[2]
        setattr(b, par, x)
    names = {"spw_array": ["flex_spw_id_array"], "flex_spw_id_array": ["spw_array"], "ant_1_array": ["ant_2_array", "baseline_array", "uvw_array"],
             "phase_center_id_array": ["phase_center_catalog", "Nphase", "Nphase"], "eq_coeffs": ["eq_coeffs_convention"], "time_array": [], "phase_center_app_ra": []}.get(par, [])
    names = [par] + names
    fa, fb = Frozen(a), Frozen(b)
    exp = freeze(a)
    d = a.data_array - b.data_array if diff else a.data_array + b.data_array
    kw2 = {}
    if over == 1:
        kw2["override_params"] = names
    elif over == 2:
        kw2["override_params"] = ["gst0" if par != "gst0" else "rdate"]
    f = a.diff_vis if diff else a.sum_vis
    what = f"{f.__name__} with a different {par} "
    chk = dict(run_check=False, check_extra=False, run_check_acceptability=False)
    if par in ("flag_array", "nsample_array", "vis_units", "dut1", "rdate", "gst0", "earth_omega", "timesys", "telescope", "freq_array"):
        chk = {}
    ctx.step()
    if big and over != 1:
        expect_raises(lambda: f(b, inplace=inp, **chk, **kw2), ValueError, what)
        fa.check(a, what + " refused")
        fb.check(b, what + " refused")
        ctx.outcome("refused")
        return
    r = f(b, inplace=inp, **chk, **kw2)
    fb.check(b, what)
    if inp:
        r = a
    else:
        fa.check(a, what)
    require(np.array_equal(r.data_array, d), "%s: data", what)
    same_but(exp, r, ("data_array", "history", "filename"), what)
    ctx.outcome("combined")
    ctx.trace()


def free(case, ctx):
    kw = dict(layout="time", pols=(-5, -6))
    a, b = build(kw), build(kw)
    if case[1] == "data_array":
        b.data_array = b.data_array * 2 + 1
    elif case[1] == "history":
        b.history = "x"
    else:
        b.extra_keywords = {"Z": 1}
    for f in (a.sum_vis, a.diff_vis):
        f(b)
        ctx.step()
    require(a.sum_vis(b).data_array[0, 0, 0] == a.data_array[0, 0, 0] + b.data_array[0, 0, 0], "sum")
    ctx.trace()


def badsum(case, ctx):
    _, b, inp = case
    a = build(dict(layout="time", pols=(-5, -6)))
    fr = Frozen(a)
    if b == "type":
        from mc import cal
        expect_raises(lambda: a.sum_vis(cal.uvc(), inplace=inp), ValueError, "sum with a UVCal")
    else:
        expect_raises(lambda: a.sum_vis(a.copy(), inplace=inp, override_params=["fake"]), ValueError, "unknown override")
    fr.check(a, "refused sum")
    ctx.step()
    ctx.outcome("refused")


def eq(case, ctx):
    _, kw, conv = case
    a = build(dict(kw, eq=True))
    a.eq_coeffs = a.eq_coeffs + 0.01 * np.arange(a.telescope.Nants)[:, None] ** 2
    a.eq_coeffs_convention = conv
    exp = freeze(a)
    num = list(a.telescope.antenna_numbers)
    d = a.data_array.copy()
    for i in range(a.Nblts):
        c = a.eq_coeffs[num.index(a.ant_1_array[i])] * a.eq_coeffs[num.index(a.ant_2_array[i])]
        d[i] = d[i] * c[:, None] if conv == "multiply" else d[i] / c[:, None]
    a.remove_eq_coeffs()
    ctx.step()
    require(np.allclose(a.data_array, d, rtol=1e-5 if a.data_array.dtype == np.complex64 else 1e-12, atol=0) and a.data_array.dtype == d.dtype, "data after removing the coefficients")
    same_but(exp, a, ("data_array",), "remove_eq_coeffs")
    ctx.state(digest(a.data_array))
    ctx.trace()


def badeq(case, ctx):
    a = build(dict(layout="time", pols=(-5, -6), eq=True))
    if case[1] == "none":
        a.eq_coeffs = None
    else:
        a.eq_coeffs_convention = None if case[1] == "noconv" else "sideways"
    f = Frozen(a)
    expect_raises(a.remove_eq_coeffs, ValueError, "remove_eq_coeffs")
    f.check(a, "refused remove_eq_coeffs")
    ctx.step()
    ctx.outcome("refused")


PAIRS = [(3, 3), (0, 0), (12, 12), (3, 0), (0, 12), (12, 3), (3, 12)]
AUTO = {-5: (-5, -5), -6: (-6, -6), -7: (-5, -6), -8: (-6, -5), -1: (-1, -1), -2: (-2, -2), -3: (-1, -2), -4: (-2, -1)}


def norm_obj(kw, st):
    kw = dict(kw)
    jit = kw.pop("jit", False)
    u = build(dict(kw, ants=PAIRS))
    if jit:
        # times of one integration differ by less than the tolerance on times
        u.time_array = u.time_array + 1e-9 * ((np.arange(u.Nblts) * 7) % 5)
        u.Ntimes = len(np.unique(u.time_array))
    drop = []
    rng = np.arange(u.Nfreqs)
    for i in range(u.Nblts):
        if u.ant_1_array[i] != u.ant_2_array[i]:
            continue
        for j, p in enumerate(u.polarization_array):
            v = 1.0 + 0.5 * rng + 0.25 * j + 0.1 * (i % 5)
            if AUTO.get(int(p), (p, p))[0] == AUTO.get(int(p), (p, p))[1]:
                u.data_array[i, :, j] = v
                u.flag_array[i, :, j] = False
    for a, s in zip((3, 0, 12), st):
        rows = np.nonzero((u.ant_1_array == a) & (u.ant_2_array == a))[0]
        rows = rows[:1]
        if len(rows) == 0:
            continue
        if s == "f":
            u.flag_array[rows, 1] = True
        elif s == "z":
            u.data_array[rows, 0] = 0.0
        elif s == "n":
            u.data_array[rows, -1, 0] *= -1
        elif s == "u":
            drop += list(rows)
    if drop:
        u.select(blt_inds=np.setdiff1d(np.arange(u.Nblts), drop))
    return u


def norm_model(u, sk, inv):
    d, f = u.data_array.copy(), u.flag_array.copy()
    pl = [int(p) for p in u.polarization_array]
    auto = {}
    for i in range(u.Nblts):
        if u.ant_1_array[i] == u.ant_2_array[i]:
            auto[(u.ant_1_array[i], round((u.time_array[i] - gen.JD0) / gen.DT))] = i
    for i in range(u.Nblts):
        t = round((u.time_array[i] - gen.JD0) / gen.DT)
        i1, i2 = auto.get((u.ant_1_array[i], t)), auto.get((u.ant_2_array[i], t))
        if i1 is None or i2 is None:
            f[i] = True
            continue
        for j, p in enumerate(pl):
            p1, p2 = AUTO.get(p, (p, p))
            if sk and u.ant_1_array[i] == u.ant_2_array[i] and p1 == p2:
                continue
            for k in range(u.Nfreqs):
                x1, x2 = u.data_array[i1, k, pl.index(p1)].real, u.data_array[i2, k, pl.index(p2)].real
                bad = u.flag_array[i1, k, pl.index(p1)] or u.flag_array[i2, k, pl.index(p2)] or not (x1 > 0) or not (x2 > 0)
                if bad:
                    f[i, k, j] = True
                    d[i, k, j] = np.nan
                else:
                    g = np.sqrt(float(x1) * float(x2))
                    d[i, k, j] = d[i, k, j] * g if inv else d[i, k, j] / g
    return d, f


def norm(case, ctx):
    _, kw, st, sk, inv = case
    u = norm_obj(kw, st)
    if not np.any(u.ant_1_array == u.ant_2_array):
        fr = Frozen(u)
        expect_raises(lambda: u.normalize_by_autos(skip_autos=sk, invert=inv), ValueError, "normalise without autos")
        fr.check(u, "refused normalisation")
        ctx.outcome("refused")
        return
    exp = freeze(u)
    d, f = norm_model(u, sk, inv)
    u.normalize_by_autos(skip_autos=sk, invert=inv)
    ctx.step()
    bad = np.isnan(d)
    require(np.array_equal(u.flag_array, f), "flags after normalisation at %s", [int(x[0]) for x in np.nonzero(u.flag_array != f) if len(x)])
    ok = np.isclose(u.data_array, d, rtol=2e-6 if u.data_array.dtype == np.complex64 else 1e-12, atol=0) | bad
    require(ok.all(), "normalised data at %s", [int(x[0]) for x in np.nonzero(~ok) if len(x)])
    require(np.all(np.isfinite(u.data_array)), "non-finite data after normalisation")
    same_but(exp, u, ("data_array", "flag_array"), "normalize_by_autos")
    ctx.state(digest(u.data_array, u.flag_array))
    ctx.trace()


def undo(case, ctx):
    u = norm_obj(case[1], "ggg")
    w = u.copy()
    u.normalize_by_autos()
    u.normalize_by_autos(invert=True)
    ctx.step(2)
    m = ~u.flag_array
    require(np.allclose(u.data_array[m], w.data_array[m], rtol=1e-10), "normalise then invert")
    ctx.trace()


def badnorm(case, ctx):
    p = case[1]
    if p == "noautos":
        u = build(dict(layout="time", pols=(-5, -6), ants="cross"))
    else:
        u = build(dict(layout="time", pols=tuple(p), ants=PAIRS))
    fr = Frozen(u)
    expect_raises(u.normalize_by_autos, ValueError, "normalise")
    fr.check(u, "refused normalisation")
    ctx.step()
    ctx.outcome("refused")


def run(case, ctx):
    {"sum": summ, "change": change, "free": free, "badsum": badsum, "eq": eq, "badeq": badeq, "norm": norm, "undo": undo, "badnorm": badnorm}[case[0]](case, ctx)
