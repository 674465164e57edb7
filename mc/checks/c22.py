"""C22: turning a calibration object from one form into another (flexible Jones and back, delays into
gains, template from visibilities) and reading solutions through the accessors."""

import itertools

import numpy as np
from pyuvdata import UVCal

from mc import cal, gen
from mc.cal import CalImg, compare, structure
from mc.core import Violation, require
from mc.model import Frozen

ID = "C22"
BOUNDS = (
    "convert_to_flex_jones, then every history of depth 2 over {nothing, select of every window subset, reorder of windows, "
    "drop of antennas, drop of times} and remove_flex_jones with and without combining, on gain, wide-band and delay objects "
    "with 1-3 windows (equal and different lengths, overlapping, unsorted numbers) and 1-4 Jones terms, with and without every "
    "optional array and metadata only; convert_to_gain of delay objects over every Jones set, both signs, frequency lists inside "
    "and outside the range; every accessor with every key form; initialize_from_uvdata over visibility layouts, windows, "
    "polarizations, antenna subsets and calibration types."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

DS = {}
for kind in ("gain", "wide", "delay"):
    for spw in ("one", "two", "two_rev", "three", "overlap"):
        if kind != "gain" and spw in ("two", "overlap"):
            continue
        for ji, j in enumerate([(-5, -6), (-5,), (-6, -5), (-5, -6, -7, -8), (-1, -2), (-7, -5, -8)]):
            n = len(DS)
            DS[f"{kind}.{spw}.{ji}"] = dict(
                kind=kind, spw=spw, jones=j, nf=5 if spw == "two" else 4, nt=(2, 1, 3)[n % 3], trange=bool(n % 2), quality=bool(n % 3),
                tq=bool((n // 2) % 2), ref=bool(n % 4 == 1), scan=bool(n % 5 == 2), pc=bool(n % 4 == 2), seed=n % 6,
                ants=((3, 0, 12, 7), (12, 3), (7,))[n % 3], meta=n % 11 == 10, nants=5)
for n in ("gain.two.0", "wide.two_rev.0", "delay.three.1", "gain.one.3"):
    DS[n + ".tq"] = dict(DS[n], tq=True, meta=False, quality=True)
    DS[n + ".meta"] = dict(DS[n], meta=True)
OPS = ["none", "ants", "times", "rev", "freqrev", "spw0", "spwlast", "spwhalf", "spwodd", "chanlast"]


def cases(tier):
    out = []
    for d in DS:
        for op in OPS:
            for comb in (True, False):
                out.append(["flex", d, [op], comb])
        if tier == "thorough" or hash_(d) % 3 == 0:
            for a, b in itertools.permutations(OPS[1:], 2):
                out.append(["flex", d, [a, b], True])
    for w in ("same", "close", "len", "dup"):
        for comb in (True, False):
            out.append(["match", w, comb])
    # delays to gains
    i = 0
    for j in [(-5, -6), (-5,), (-6, -5), (-5, -6, -7, -8), (-7, -5, -8)]:
        for tr in (False, True):
            for sign in ("minus", "plus", None):
                for fr in ("one", "three", "desc", "uneven", "edges"):
                    out.append(["gain", dict(kind="delay", spw="one", jones=j, trange=tr, nt=(2, 3, 1)[i % 3], quality=bool(i % 3), tq=bool(i % 2),
                                             ref=bool(i % 5 == 1), scan=bool(i % 5 == 2), pc=bool(i % 4 == 2), seed=i % 5, ants=(12, 3, 0)), sign, fr])
                    i += 1
    for b in ("gain", "spws", "sign", "2d", "width", "widthlen", "below", "above", "wide"):
        out.append(["badgain", b])
    # accessors
    for d in DS:
        if not DS[d].get("meta") and (tier == "thorough" or hash_(d) % 2 == 0):
            out.append(["get", d])
    for t0 in (None, "wrap"):
        for tr in (False, True):
            out.append(["times", dict(nt=4, t0=t0, trange=tr)])
    # templates
    k = 0
    for lay in ("time", "bl", "ragged", "shuffle", "ragshuf"):
        for spw in ("one", "two", "two_rev", "overlap"):
            for ct in ("gain", "delay", "wide"):
                for pols in [(-5, -6, -7, -8), (-5,), (-6,), (-7,), (-1, -2), (-2,), (-8, -5)]:
                    kw = dict(layout=lay, spw=spw, pols=pols, nf=5 if spw == "two" else 4, ants=("three", "conj", "cross", "sorted")[k % 4], inttime=("const", "bytime")[k % 2])
                    opt = [{}, {"antnums": [3, 12]}, {"antnames": [0, 2]}, {"ants": [12, 0]}, {"jones": "linear"}, {"jones": [-6, -5]},
                           {"full": True}, {"times": True}, {"hist": "mine"}, {"x": "n"}, {"style": "sky"}, {"full": True, "antnums": [12, 0, 3]}, {"nohist": True}]
                    pick = opt if tier == "thorough" else [opt[k % len(opt)], opt[(k * 5 + 3) % len(opt)]]
                    for o in pick:
                        out.append(["init", kw, ct, o])
                    k += 1
    return out


def hash_(d):
    return sum(map(ord, d))


# ------------------------------------------------------------------ flexible Jones
def windows(im):
    """The object as a list of labelled windows: (spw, freqs, widths, jones, {name: [ant, chan, time]})."""
    a = im.arr
    fl = a["flex_jones_array"]
    out = []
    for i, s in enumerate(a["spw_array"].tolist()):
        if im.wide:
            idx = [i]
            fr = tuple(a["freq_range"][i].tolist())
            w = ()
        else:
            idx = [k for k, x in enumerate(a["flex_spw_id_array"].tolist()) if x == s]
            fr = tuple(a["freq_array"][idx].tolist())
            w = tuple(a["channel_width"][idx].tolist())
        js = a["jones_array"].tolist() if fl is None else [int(fl[i])]
        for m, j in enumerate(js):
            dat = {}
            for n in cal.DATA:
                if a[n] is not None:
                    dat[n] = a[n][:, idx, :, m]
            if a["total_quality_array"] is not None:
                dat["total_quality_array"] = a["total_quality_array"][idx, :, m]
            out.append((s, fr, w, j, dat))
    return out


def same_dat(x, y):
    return set(x) == set(y) and all(x[k].shape == y[k].shape and np.array_equal(x[k], y[k]) for k in x)


def match(a, b, what, number=False):
    """Two bags of windows are equal; number: window numbers have to agree too."""
    b = list(b)
    for x in a:
        hit = [i for i, y in enumerate(b) if x[1:4] == y[1:4] and (not number or x[0] == y[0])]
        ok = [i for i in hit if same_dat(x[4], b[i][4])]
        if not ok:
            raise Violation(f"{what}: window {x[:4]} " + ("has other values" if hit else f"is missing ({[y[:4] for y in b]})"))
        b.pop(ok[0])
    require(not b, "%s: unexpected windows %s", what, [y[:4] for y in b])


def rest(a, b, what):
    """Everything that does not live on the frequency or Jones axis is unchanged."""
    for n in ("ant_array",) + cal.TIME:
        x, y = a.arr[n], b.arr[n]
        require((x is None) == (y is None) and (x is None or np.array_equal(x, y)), "%s: %s changed", what, n)
    for n in cal.SCAL:
        require(str(a.scal[n]) == str(b.scal[n]), "%s: %s changed", what, n)
    require(a.tel == b.tel and a.cat == b.cat, "%s: telescope or catalog changed", what)


def chk_flex(w0, c, base, what):
    im = structure(c, what)
    require(c.flex_jones_array is not None and c.jones_array.tolist() == [0] and c.Njones == 1, "%s: not flexible Jones", what)
    require(len(set(c.spw_array.tolist())) == c.Nspws, "%s: window numbers repeat", what)
    match(w0, windows(im), what)
    rest(base, im, what)
    return im


def apply(op, c):
    if op == "ants" and c.Nants_data > 1:
        c.select(antenna_nums=[int(c.ant_array[-1])])
    elif op == "times" and c.Ntimes > 1:
        c.select(times=[c.get_time_array()[1]])
    elif op == "rev":
        c.reorder_freqs(spw_order="-number")
    elif op == "freqrev" and not c.wide_band:
        c.reorder_freqs(channel_order="-freq")
    elif op == "spw0" and c.Nspws > 1:
        c.select(spws=[int(c.spw_array[0])])
    elif op == "spwlast" and c.Nspws > 1:
        c.select(spws=[int(c.spw_array[-1])])
    elif op == "spwhalf" and c.Nspws > 1:
        c.select(spws=c.spw_array[: (c.Nspws + 1) // 2].tolist())
    elif op == "spwodd" and c.Nspws > 1:
        c.select(spws=c.spw_array[::2].tolist())
    elif op == "chanlast" and not c.wide_band and c.Nfreqs > 1:
        # the first window loses channels
        n = int(np.sum(c.flex_spw_id_array == c.spw_array[0]))
        keep = [k for k in range(c.Nfreqs) if k != int(np.nonzero(c.flex_spw_id_array == c.spw_array[0])[0][0])]
        if n > 1:
            c.select(freq_chans=keep)


def flex(case, ctx):
    _, d, ops, comb = case
    c = cal.build(DS[d])
    base = CalImg(c)
    w0 = windows(base)
    require(c.convert_to_flex_jones() is None, "convert_to_flex_jones returned something")
    ctx.step()
    im = chk_flex(w0, c, base, "convert_to_flex_jones")
    try:
        c.convert_to_flex_jones()
    except ValueError:
        pass
    else:
        raise Violation("converting twice was not refused")
    for op in ops:
        apply(op, c)  # selections and reorderings are decided by C19
        ctx.step()
    im = CalImg(c)
    remove(c, im, comb, ctx)


def remove(c, im, comb, ctx):
    ws = windows(im)
    fro = Frozen(c)
    jall = sorted({w[3] for w in ws}, reverse=True)
    groups = {}
    for w in ws:
        groups.setdefault((w[1], w[2]), []).append(w)
    dup = any(len({x[3] for x in g}) < len(g) for g in groups.values())
    full = all({x[3] for x in g} == set(jall) for g in groups.values())
    try:
        c.remove_flex_jones(combine_spws=comb)
    except ValueError as e:
        require(comb and dup, "remove_flex_jones(combine_spws=%s) refused: %s", comb, e)
        fro.check(c, "refused remove_flex_jones")
        ctx.outcome("refused")
        ctx.trace()
        return
    ctx.step()
    what = f"remove_flex_jones(combine_spws={comb})"
    require(not (comb and dup and full), "%s: windows with equal frequencies and Jones term were combined", what)
    g = structure(c, what)
    require(c.flex_jones_array is None, "%s: still flexible Jones", what)
    rest(im, g, what)
    require(sorted(c.jones_array.tolist()) == sorted(jall), "%s: Jones terms %s, expected %s", what, c.jones_array, jall)
    got = windows(g)
    ctx.state(g.key())
    ctx.trace()
    if comb and full:
        require(c.Nspws == len(groups), "%s: %s windows, expected %s", what, c.Nspws, len(groups))
        match(ws, got, what)
        require(set(c.spw_array.tolist()) <= set(im.arr["spw_array"].tolist()), "%s: invented window numbers", what)
        ctx.outcome("combined")
        return
    require(sorted(c.spw_array.tolist()) == sorted(im.arr["spw_array"].tolist()), "%s: windows changed", what)
    own = {w[0]: w[3] for w in ws}
    match(ws, [w for w in got if w[3] == own[w[0]]], what, number=True)
    for w in got:
        if w[3] != own[w[0]] and "flag_array" in w[4]:
            require(bool(np.all(w[4]["flag_array"])), "%s: added solutions of window %s Jones %s are not flagged", what, w[0], w[3])
    ctx.outcome("inflated")


def match_case(case, ctx):
    """Windows that look alike but are not the same must stay apart."""
    _, w, comb = case
    c = cal.uvc(spw="one", nf=4, jones=(-5, -6), nt=2, tq=False)
    c.convert_to_flex_jones()
    n = c.Nfreqs // 2
    if w == "close":
        c.channel_width[n:] *= 1.0 + 1e-3
        c.freq_array[n:] += 10.0
    elif w == "len":
        c.select(freq_chans=[0] + list(range(n, 2 * n)))
    elif w == "dup":
        c.flex_jones_array = np.array([-5, -5])
    im = CalImg(c)
    remove(c, im, comb, ctx)


# ------------------------------------------------------------------ delays to gains
def to_gain(case, ctx):
    _, kw, sign, fr = case
    c = cal.build(kw)
    base = CalImg(c)
    lo, hi = base.arr["freq_range"][0]
    f = {"one": np.array([(lo + hi) / 2]), "three": np.linspace(lo + 1e5, hi - 1e5, 3), "desc": np.linspace(hi - 1e5, lo + 1e5, 4),
         "uneven": np.array([lo + 1e5, lo + 1.1e5, hi - 3e5]), "edges": np.array([lo, hi])}[fr]
    w = np.full(f.shape, 1e5)
    fc, wc = f.copy(), w.copy()
    k = {} if sign is None else {"delay_convention": sign}
    c.convert_to_gain(freq_array=f, channel_width=w, **k)
    ctx.step()
    g = structure(c, "convert_to_gain")
    require(c.cal_type == "gain" and c.wide_band is False and c.freq_range is None and c.delay_array is None, "convert_to_gain: form")
    require(np.array_equal(f, fc) and np.array_equal(w, wc), "convert_to_gain changed its arguments")
    require(np.array_equal(c.freq_array, f) and np.array_equal(c.channel_width, w), "convert_to_gain: frequencies")
    require(set(c.flex_spw_id_array.tolist()) == set(base.arr["spw_array"].tolist()) == set(c.spw_array.tolist()), "convert_to_gain: window")
    s = 1 if sign == "plus" else -1
    d = base.arr["delay_array"][:, 0]
    for i, x in enumerate(f):
        e = np.exp(s * 2j * np.pi * d * x)
        require(np.allclose(g.arr["gain_array"][:, i], e, rtol=0, atol=1e-9), "convert_to_gain: gains at %s", x)
        require(np.array_equal(g.arr["flag_array"][:, i], base.arr["flag_array"][:, 0]), "convert_to_gain: flags")
        for n in ("quality_array", "total_quality_array"):
            require((base.arr[n] is None) == (g.arr[n] is None), "convert_to_gain: %s", n)
        if base.arr["quality_array"] is not None:
            require(np.array_equal(g.arr["quality_array"][:, i], base.arr["quality_array"][:, 0]), "convert_to_gain: quality")
        if base.arr["total_quality_array"] is not None:
            require(np.array_equal(g.arr["total_quality_array"][i], base.arr["total_quality_array"][0]), "convert_to_gain: total quality")
    a, b = base.copy(), g.copy()
    for im in (a, b):
        im.scal["cal_type"] = im.scal["wide_band"] = None
    rest(a, b, "convert_to_gain")
    require(np.array_equal(base.arr["jones_array"], g.arr["jones_array"]), "convert_to_gain: jones")
    require(c.history.startswith(base.history) and len(c.history) > len(base.history), "convert_to_gain: history")
    ctx.state(g.key())
    ctx.trace()


def bad_gain(case, ctx):
    b = case[1]
    kw = dict(kind="delay", spw="one", nt=2)
    if b == "gain":
        kw["kind"] = "gain"
    elif b == "wide":
        kw["kind"] = "wide"
    elif b == "spws":
        kw["spw"] = "three"
    c = cal.build(kw)
    f, w, s = np.array([1.01e8, 1.02e8]), np.array([1e5, 1e5]), "minus"
    if b == "sign":
        s = "times"
    elif b == "2d":
        f = f[None]
    elif b == "width":
        w = 1e5
    elif b == "widthlen":
        w = w[:1]
    elif b == "below":
        f = np.array([0.99e8, 1.02e8])
    elif b == "above":
        f = np.array([1.01e8, 1.2e8])
    fro = Frozen(c)
    try:
        c.convert_to_gain(freq_array=f, channel_width=w, delay_convention=s)
    except ValueError:
        fro.check(c, f"refused convert_to_gain ({b})")
        ctx.outcome("refused")
        ctx.trace()
        return
    raise Violation(f"convert_to_gain with {b} was not refused")


# ------------------------------------------------------------------ accessors
JSTR = {-5: "Jxx", -6: "Jyy", -7: "Jxy", -8: "Jyx", -1: "Jrr", -2: "Jll", -3: "Jrl", -4: "Jlr"}
JPHYS = {-5: "Jee", -6: "Jnn", -7: "Jen", -8: "Jne"}


def get(case, ctx):
    c = cal.build(DS[case[1]])
    im = CalImg(c)
    fro = Frozen(c)
    js = im.arr["jones_array"].tolist()
    fns = [("flag_array", c.get_flags)]
    if c.cal_type == "gain":
        fns.append(("gain_array", c.get_gains))
    if c.quality_array is not None:
        fns.append(("quality_array", c.get_quality))
    for n, fn in fns:
        v = im.arr[n]
        for i, a in enumerate(im.arr["ant_array"].tolist()):
            full = v[i]
            exp = full[:, :, 0] if len(js) == 1 else full
            for r, e in ((fn(a), exp), (fn((a,)), exp), (fn(np.int64(a)), exp), (fn(a, squeeze_pol=False), full)):
                require(r.shape == e.shape and np.array_equal(r, e), "%s of antenna %s", n, a)
            for m, j in enumerate(js):
                names = [j, JSTR[j]] + ([JPHYS[j]] if j in JPHYS else [])
                for k in names:
                    for r in (fn(a, k), fn((a, k)), fn([a, k])):
                        require(r.shape == v[i, :, :, m].shape and np.array_equal(r, v[i, :, :, m]), "%s of %s, %s", n, a, k)
                ctx.step()
        for bad in (99, (99,), (99, js[0])):
            try:
                fn(bad)
            except ValueError:
                continue
            raise Violation(f"{n} of absent antenna {bad} was not refused")
        for bad in ((int(im.arr["ant_array"][0]), 4), (int(im.arr["ant_array"][0]), [j for j in JSTR if j not in js][0])):
            try:
                fn(bad)
            except ValueError:
                continue
            raise Violation(f"{n} of absent Jones {bad} was not refused")
    for i, a in enumerate(im.arr["ant_array"].tolist()):
        require(c.ant2ind(a) == i, "ant2ind")
    for m, j in enumerate(js):
        require(c.jpol2ind(j) == m and c.jpol2ind(JSTR[j]) == m, "jpol2ind")
    fro.check(c, "accessors")
    ctx.state(im.key())
    ctx.trace()


def times(case, ctx):
    c = cal.build(case[1])
    im = CalImg(c)
    ctx.step()
    t, lst = c.get_time_array(), c.get_lst_array()
    if im.arr["time_array"] is not None:
        require(np.array_equal(t, im.arr["time_array"]) and np.array_equal(lst, im.arr["lst_array"]), "time and LST accessors")
    else:
        require(np.allclose(t, im.arr["time_range"].mean(axis=1), rtol=0, atol=1e-10), "time accessor")
        r = im.arr["lst_range"]
        d = np.mod(r[:, 1] - r[:, 0], 2 * np.pi)
        x = np.mod(lst - r[:, 0], 2 * np.pi)
        require(np.allclose(x, d / 2, rtol=0, atol=1e-7), "LST accessor: %s in %s", lst, r)
    ctx.state(im.key())
    ctx.trace()


# ------------------------------------------------------------------ template from visibilities
def init(case, ctx):
    _, kw, ct, o = case
    uv = gen.uvd(**kw)
    fro = Frozen(uv)
    k = dict(gain_convention="divide", cal_style=o.get("style", "redundant"))
    tn = np.asarray(uv.telescope.antenna_numbers).tolist()
    names = [str(x) for x in uv.telescope.antenna_names]
    if ct == "delay":
        k["cal_type"] = "delay"
    elif ct == "wide":
        k["wide_band"] = True
    sub = tn
    if "antnums" in o:
        k["antenna_numbers"] = np.array(o["antnums"])
        sub = o["antnums"]
    if "antnames" in o:
        k["antenna_names"] = [names[i] for i in o["antnames"]]
        sub = [tn[i] for i in o["antnames"]]
    data_ants = sorted(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist()))
    if "ants" in o:
        k["ant_array"] = np.array(o["ants"])
        data_ants = sorted(o["ants"])
    data_ants = [a for a in data_ants if a in sub]
    if not data_ants:
        return
    pols = uv.polarization_array.tolist()
    if "jones" in o:
        k["jones_array"] = o["jones"] if isinstance(o["jones"], str) else np.array(o["jones"])
        js = [-5, -6, -7, -8] if o["jones"] == "linear" else o["jones"]
    elif len(pols) == 1 and pols[0] in (-5, -6, -1, -2):
        js = pols
    else:
        js = [-5, -6] if pols[0] < -4 else [-1, -2]
    k["metadata_only"] = not o.get("full", False)
    ut = np.unique(uv.time_array)
    it = [float(uv.integration_time[np.nonzero(uv.time_array == t)[0][0]]) for t in ut]
    if "times" in o:
        k["time_array"] = ut[:1] + 0.25
        k["integration_time"] = np.array([7.0])
        ut, it = ut[:1] + 0.25, [7.0]
    if "hist" in o:
        k["history"] = "mine "
    if "nohist" in o:
        k["include_uvdata_history"] = False
    if "x" in o:
        k["x_orientation"] = o["x"]
    if "style" in o:
        k.update(ref_antenna_name=names[0], sky_catalog="cat")
    try:
        c = UVCal.initialize_from_uvdata(uv, **k)
    except ValueError as e:
        raise Violation(f"initialize_from_uvdata({k}): refused: {e}") from e
    ctx.step()
    fro.check(uv, "initialize_from_uvdata")
    what = f"initialize_from_uvdata({ct}, {o})"
    g = structure(c, what)
    a = g.arr
    require(a["ant_array"].tolist() == data_ants, "%s: antennas %s, expected %s", what, a["ant_array"], data_ants)
    require(np.array_equal(a["time_array"], ut), "%s: times", what)
    require(np.array_equal(a["integration_time"], it), "%s: integration times %s, expected %s", what, a["integration_time"], it)
    require(a["jones_array"].tolist() == list(js), "%s: Jones %s, expected %s", what, a["jones_array"], js)
    lst = dict(zip(uv.time_array.tolist(), uv.lst_array.tolist()))
    if "times" not in o:
        require(np.allclose(a["lst_array"], [lst[t] for t in ut.tolist()], rtol=0, atol=1e-7), "%s: LSTs", what)
    ids = uv.flex_spw_id_array
    if ct == "gain":
        require(np.array_equal(a["freq_array"], uv.freq_array) and np.array_equal(a["channel_width"], uv.channel_width)
                and np.array_equal(a["flex_spw_id_array"], ids), "%s: frequencies", what)
        require(c.wide_band is False and c.cal_type == "gain", "%s: kind", what)
    else:
        require(c.wide_band is True and c.cal_type == ("delay" if ct == "delay" else "gain"), "%s: kind", what)
        require(sorted(a["spw_array"].tolist()) == sorted(set(ids.tolist())), "%s: windows", what)
        for s, r in zip(a["spw_array"].tolist(), a["freq_range"]):
            f = uv.freq_array[ids == s]
            require(r[0] == f.min() and r[1] == f.max(), "%s: frequency range of window %s is %s", what, s, r)
    t = c.telescope
    order = t.antenna_numbers.tolist()
    require(sorted(order) == sorted(sub), "%s: telescope antennas %s", what, order)
    for i, n in enumerate(order):
        j = tn.index(n)
        require(str(t.antenna_names[i]) == names[j], "%s: name of antenna %s", what, n)
        require(np.array_equal(t.antenna_positions[i], uv.telescope.antenna_positions[j]), "%s: position of antenna %s", what, n)
        if uv.telescope.antenna_diameters is not None:
            require(len(t.antenna_diameters) == len(order) and t.antenna_diameters[i] == uv.telescope.antenna_diameters[j],
                    "%s: diameter of antenna %s", what, n)
    require(t.Nants == len(order) and t.name == uv.telescope.name and t.instrument == uv.telescope.instrument, "%s: telescope", what)
    require(t.x_orientation == ("north" if "x" in o else uv.telescope.x_orientation), "%s: x_orientation", what)
    require(c.metadata_only == k["metadata_only"], "%s: metadata_only", what)
    if o.get("full"):
        require(not c.flag_array.any(), "%s: flags", what)
        v = c.gain_array if ct != "delay" else c.delay_array
        require(bool(np.all(v == (1 if ct != "delay" else 0))), "%s: initial solutions", what)
    require(("mine" in c.history) if "hist" in o else ((uv.history in c.history) != ("nohist" in o)), "%s: history", what)
    # the template is independent of the visibilities
    for n in ("freq_array", "channel_width", "flex_spw_id_array", "time_array", "jones_array", "integration_time", "spw_array"):
        v = getattr(c, n)
        if v is not None and n != "jones_array":
            v += 1
    t.antenna_positions += 1.0
    t.name = "changed"
    fro.check(uv, "editing the template")
    ctx.state(g.key())
    ctx.trace()


def run(case, ctx):
    {"flex": flex, "match": match_case, "gain": to_gain, "badgain": bad_gain, "get": get, "times": times, "init": init}[case[0]](case, ctx)
