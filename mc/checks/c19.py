"""C19: selecting and reordering a calibration object, against an array image on which the
same index sets and permutations are applied."""

import itertools

import numpy as np

from mc import cal, malformed
from mc.cal import CalImg, compare, structure
from mc.core import Violation, require
from mc.model import Frozen

ID = "C19"
BOUNDS = (
    "UVCal.select on 9 small labelled calibration objects (gain, wide-band gain and delay; one, two, reversed and "
    "overlapping windows; times or time ranges; LST wrap; flexible Jones; metadata only; unsorted axes): every "
    "non-empty subset of antennas (numbers, names), times, LSTs, channels, frequencies, windows, Jones terms (numbers, "
    "names), phase centers, every half-step time and LST range (wrapping ones included); every pair of criteria of "
    "a reduced alphabet across axes; every rejected form (absent, empty, conflicting), in place and not; every reorder "
    "of every axis by key, reversed key and permutation, and two-step histories of select and reorder."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

DS = {
    "gain": dict(tq=True, ref=True, scan=True, pc=True),
    "two": dict(spw="two", nf=5, tq=True, torder=(2, 0, 1), ants=(12, 3, 0), jones=(-7, -5, -8)),
    "rev": dict(spw="two_rev", nf=4, ref=True, scan=True, quality=False, jones=(-6, -5)),
    "over": dict(spw="overlap", nf=4, jones=(-1, -2), pc=True, nt=4, style="sky"),
    "wrap": dict(nt=4, t0="wrap", nf=2, jones=(-5,), trange=False, torder=(3, 0, 2, 1)),
    "wrapr": dict(nt=4, t0="wrap", nf=2, jones=(-5,), trange=True),
    "delay": dict(kind="delay", spw="three", trange=True, tq=True, ref=True, scan=True, pc=True),
    "wide": dict(kind="wide", spw="two_rev", torder=(1, 2, 0), tq=True),
    "meta": dict(meta=True, spw="two", nf=4, ref=True, scan=True, pc=True),
    "flex": dict(flex=True, spw="one", nf=2, jones=(-5, -6), nt=2),
}


def subsets(n, lo=1):
    return [list(c) for k in range(lo, n + 1) for c in itertools.combinations(range(n), k)]


def dataset(name):
    return cal.build(DS[name])


# ------------------------------------------------------------------ atoms
def alphabet(name, c):
    """axis -> list of atoms [crit, payload]."""
    nt, na = c.Ntimes, c.Nants_data
    out = {"a": [], "t": [], "f": [], "j": []}
    for s in subsets(na):
        out["a"].append(["nums", s])
        out["a"].append(["names", s])
    for s in subsets(nt):
        out["t"].append(["times", s])
        out["t"].append(["lsts", s])
    for i in range(2 * nt + 1):
        for j in range(i, 2 * nt + 1):
            out["t"].append(["trange", [i, j]])
    for i in range(2 * nt + 1):
        for j in range(2 * nt + 1):
            out["t"].append(["lrange", [i, j]])
    if c.phase_center_catalog is not None:
        for s in ([3], [1], [3, 1]):
            out["t"].append(["pcid", s])
            out["t"].append(["pcname", s])
    if not c.wide_band:
        for s in subsets(c.Nfreqs):
            out["f"].append(["chans", s])
        for s in subsets(len(np.unique(c.freq_array))):
            out["f"].append(["freqs", s])
    if c.Nspws > 1:
        for s in subsets(c.Nspws):
            out["f"].append(["spws", s])
    js = c.jones_array.tolist() if c.flex_jones_array is None else sorted(set(c.flex_jones_array.tolist()))
    for s in subsets(len(js)):
        out["j"].append(["jnum", s])
        out["j"].append(["jstr", s])
    return out


JSTR = {-5: "Jxx", -6: "Jyy", -7: "Jxy", -8: "Jyx", -1: "Jrr", -2: "Jll", -3: "Jrl", -4: "Jlr"}
JPHYS = {-5: "Jee", -6: "Jnn", -7: "Jen", -8: "Jne"}


def ends(im, which):
    """Sorted boundary points (one inside each gap) for the half-step ranges."""
    a = im.arr
    if which == "t":
        v = a["time_array"] if a["time_array"] is not None else a["time_range"].mean(axis=1)
    else:
        if a["lst_array"] is not None:
            v = a["lst_array"]
        else:
            r = a["lst_range"]
            d = np.mod(r[:, 1] - r[:, 0], 2 * np.pi)
            v = np.mod(r[:, 0] + d / 2, 2 * np.pi)
    u = np.sort(np.unique(v))
    h = 0.31 * np.min(np.diff(u)) if len(u) > 1 else (1e-5 if which == "t" else 1e-3)
    if which == "t":
        h = min(h, 0.31 * 5e-5) if a["time_range"] is not None else h
    pts = [u[0] - h]
    for x, y in zip(u[:-1], u[1:]):
        pts += [x, (x + y) / 2]
    pts += [u[-1], u[-1] + h]
    if which == "l":
        pts = [min(max(p, 0.0), 2 * np.pi) for p in pts]
    return pts


def arc_overlap(a, b):
    """Do two closed arcs [a0, a1], [b0, b1] on the circle (wrapping if a1 < a0) meet?"""
    def seg(r):
        return [(r[0], r[1])] if r[0] <= r[1] else [(r[0], 2 * np.pi), (0.0, r[1])]

    return any(x[0] <= y[1] and y[0] <= x[1] for x in seg(a) for y in seg(b))


def decode(atom, im, alt=0):
    """-> (kwargs, axis, kept index list)."""
    k, p = atom
    a = im.arr
    wrapf = [list, tuple, np.array][alt % 3]
    tk = im.n("t")
    if k == "nums":
        v = [int(a["ant_array"][i]) for i in p]
        return {"antenna_nums": wrapf(v[::-1] if alt % 2 else v)}, "a", p
    if k == "names":
        nm = [im.tel["names"][im.tel["nums"].index(int(a["ant_array"][i]))] for i in p]
        return {"antenna_names": wrapf(nm)}, "a", p
    if k in ("times", "lsts"):
        if a["time_array"] is not None:
            arr = a["time_array"] if k == "times" else a["lst_array"]
            v = [float(arr[i]) for i in p]
        elif k == "times":
            v = [float(a["time_range"][i].mean()) for i in p]
        else:
            v = []
            for i in p:
                r = a["lst_range"][i]
                d = np.mod(r[1] - r[0], 2 * np.pi)
                v.append(float(np.mod(r[0] + (0.1, 0.5, 0.9)[alt % 3] * d, 2 * np.pi)))
        return {k: v[0] if len(v) == 1 and alt % 2 else wrapf(v)}, "t", p
    if k == "trange":
        e = ends(im, "t")
        r = [e[p[0]], e[p[1]]]
        if a["time_array"] is not None:
            keep = [i for i in range(tk) if r[0] <= a["time_array"][i] <= r[1]]
        else:
            keep = [i for i in range(tk) if a["time_range"][i, 0] <= r[1] and r[0] <= a["time_range"][i, 1]]
        return {"time_range": wrapf(r)}, "t", keep
    if k == "lrange":
        e = ends(im, "l")
        r = [e[p[0]], e[p[1]]]
        if a["lst_array"] is not None:
            keep = [i for i in range(tk) if arc_overlap(r, (a["lst_array"][i], a["lst_array"][i]))]
        else:
            keep = [i for i in range(tk) if arc_overlap(r, a["lst_range"][i])]
        return {"lst_range": wrapf(r)}, "t", keep
    if k == "pcid":
        return {"phase_center_ids": wrapf(p)}, "t", [i for i in range(tk) if a["phase_center_id_array"][i] in p]
    if k == "pcname":
        nm = [dict(im.cat[x])["cat_name"] for x in p]
        return {"catalog_names": nm[0] if len(nm) == 1 else list(nm)}, "t", [
            i for i in range(tk) if a["phase_center_id_array"][i] in p]
    if k == "chans":
        return {"freq_chans": wrapf(p) if len(p) > 1 or alt % 2 else p[0]}, "f", p
    if k == "freqs":
        u = np.unique(a["freq_array"])
        v = [float(u[i]) for i in p]
        return {"frequencies": wrapf(v)}, "f", [i for i, f in enumerate(a["freq_array"]) if f in v]
    if k == "spws":
        v = [int(a["spw_array"][i]) for i in p]
        if im.wide:
            return {"spws": list(v)}, "s", p
        return {"spws": list(v)}, "f", [i for i, s in enumerate(a["flex_spw_id_array"]) if s in v]
    if k in ("jnum", "jstr"):
        fl = a["flex_jones_array"]
        js = a["jones_array"].tolist() if fl is None else sorted(set(fl.tolist()))
        v = [js[i] for i in p]
        w = v if k == "jnum" else [(JPHYS if alt % 2 and x in JPHYS else JSTR)[x] for x in v]
        kw = {"jones": w[0] if len(w) == 1 and alt % 2 and k == "jnum" else wrapf(w)}
        if fl is None:
            return kw, "j", p
        ok = [s for s, f in zip(a["spw_array"].tolist(), fl.tolist()) if f in v]
        if im.wide:
            return kw, "s", [i for i, s in enumerate(a["spw_array"]) if s in ok]
        return kw, "f", [i for i, s in enumerate(a["flex_spw_id_array"]) if s in ok]
    raise AssertionError(k)


BAD = [
    {"antenna_nums": [99]}, {"antenna_nums": [3, 99]}, {"antenna_names": ["nope"]}, {"antenna_nums": [3], "antenna_names": ["x"]},
    {"times": [1.0]}, {"time_range": [1.0, 2.0]}, {"time_range": [1.0]}, {"lsts": [0.123456]}, {"lst_range": [0.1]},
    {"times": "T0", "time_range": "TR"}, {"lsts": "L0", "times": "T0"}, {"frequencies": [1.0]}, {"freq_chans": [50]},
    {"freq_chans": [50], "antenna_nums": [3]}, {"jones": [4]}, {"jones": ["Jzz"]}, {"antenna_nums": []}, {"freq_chans": []},
    {"frequencies": []}, {"times": []}, {"jones": []}, {"spws": [77]}, {"spws": []}, {"spws": "S0+77"}, {"phase_center_ids": [77]},
    {"catalog_names": ["nobody"]}, {"phase_center_ids": [3], "catalog_names": ["srcA"]},
    {"phase_center_ids": "P0", "times": "T1"}, {"phase_center_ids": []},
]


MALOBJ = [dict(kind="gain", spw="two", pc=True), dict(kind="delay", spw="three")]


def run_mal(case, ctx):
    o = MALOBJ[case[1]]
    malformed.run(lambda: cal.build(o), malformed.CAL[case[2]], ctx)


def cases(tier):
    out = []
    for i in range(len(MALOBJ)):
        for j in range(len(malformed.CAL)):
            out.append(["mal", i, j])
    thorough = tier == "thorough"
    for d in DS:
        c = dataset(d)
        al = alphabet(d, c)
        n = 0
        for ax in al:
            for at in al[ax]:
                out.append(["sel", d, [at], n % 6])
                n += 1
        red = {ax: al[ax][:: max(1, len(al[ax]) // (14 if thorough else 7))] for ax in al}
        for x, y in itertools.combinations(red, 2):
            for p, q in itertools.product(red[x], red[y]):
                out.append(["sel", d, [p, q], n % 6])
                n += 1
        # union of the three frequency criteria
        fs = {}
        for at in al["f"]:
            fs.setdefault(at[0], []).append(at)
        for x, y in itertools.combinations(fs, 2):
            for p, q in itertools.product(fs[x][:6], fs[y][:6]):
                out.append(["sel", d, [p, q], n % 6])
                n += 1
        ts = [a for a in al["t"] if a[0] == "pcid"]
        for p in ts:
            for q in al["t"][::3]:
                if q[0] not in ("pcid", "pcname"):
                    out.append(["sel", d, [p, q], n % 6])
                    n += 1
        # four at a time
        for i in range(40 if thorough else 12):
            ats = [red[ax][(i * (3 + k)) % len(red[ax])] for k, ax in enumerate(red) if red[ax]]
            out.append(["sel", d, ats, i % 6])
        for i in range(len(BAD)):
            for inp in (0, 1):
                out.append(["bad", d, i, inp])
        ro = reorders(d, c)
        for r in ro:
            out.append(["hist", d, [["r", r]]])
        for i, (r, s) in enumerate(itertools.product(ro, ro)):
            if r[0] != s[0] or r[1] != s[1]:
                if thorough or i % 3 == 0:
                    out.append(["hist", d, [["r", r], ["r", s]]])
        for i, (r, at) in enumerate(itertools.product(ro, [a for ax in red for a in red[ax]])):
            if thorough or i % 3 == 0:
                out.append(["hist", d, [["r", r], ["s", at]]])
                out.append(["hist", d, [["s", at], ["r", r]]])
    return out


def reorders(d, c):
    out = []
    for o in ("number", "name", "-number", "-name"):
        out.append(["ant", o])
        out.append(["jones", o])
    for o in ("time", "-time"):
        out.append(["time", o])
    out.append(["ant", list(range(c.Nants_data))[::-1]])
    out.append(["ant", list(range(1, c.Nants_data)) + [0]])
    out.append(["time", list(range(1, c.Ntimes)) + [0]])
    if c.Njones > 1:
        out.append(["jones", list(range(1, c.Njones)) + [0]])
    n = c.Nspws
    for o in ("number", "-number", "freq", "-freq", list(range(1, n)) + [0], None):
        if c.wide_band:
            out.append(["freq", o, None])
        else:
            for co in ("freq", "-freq", None):
                out.append(["freq", o, co])
    if not c.wide_band:
        out.append(["freq", None, list(range(1, c.Nfreqs)) + [0]])
        out.append(["freq", None, list(range(c.Nfreqs))[::-1]])
    return out


def perm(im, op):
    """Expected permutation, or None when any order of ties is fine / not determined here."""
    a = im.arr
    if isinstance(op[1], list) and op[0] != "freq":
        return list(op[1])
    if op[0] == "ant":
        if "number" in op[1]:
            v = a["ant_array"].tolist()
        else:
            v = [im.tel["names"][im.tel["nums"].index(int(x))] for x in a["ant_array"]]
        return sorted(range(len(v)), key=lambda i: v[i], reverse=op[1][0] == "-")
    if op[0] == "time":
        v = a["time_array"].tolist() if a["time_array"] is not None else a["time_range"][:, 0].tolist()
        return sorted(range(len(v)), key=lambda i: v[i], reverse=op[1][0] == "-")
    if op[0] == "jones":
        v = a["jones_array"].tolist()
        if "name" in op[1]:
            m = dict(JSTR)
            if im.tel["x"] == "east":
                m.update(JPHYS)
            v = [m.get(x, str(x)) for x in v]
        return sorted(range(len(v)), key=lambda i: v[i], reverse=op[1][0] == "-")
    so, co = op[1], op[2]
    spw = a["spw_array"].tolist()
    if im.wide:
        if so is None:
            so = "number"
        if isinstance(so, list):
            return so
        v = spw if "number" in so else a["freq_range"].mean(axis=1).tolist()
        return sorted(range(len(v)), key=lambda i: v[i], reverse=so[0] == "-")
    ids, fr = a["flex_spw_id_array"].tolist(), a["freq_array"].tolist()
    if isinstance(co, list):
        return co
    if so is None:
        order = spw
    elif isinstance(so, list):
        order = [spw[i] for i in so]
    elif "number" in so:
        order = sorted(spw, reverse=so[0] == "-")
    else:
        mean = {s: np.mean([f for f, i in zip(fr, ids) if i == s]) for s in spw}
        if len(set(np.round(list(mean.values()), 3))) != len(spw):
            return None
        order = sorted(spw, key=lambda s: mean[s], reverse=so[0] == "-")
    out = []
    if so is None:
        # windows stay where they are
        out = list(range(len(ids)))
        if co is not None:
            for s in spw:
                pos = [i for i in range(len(ids)) if ids[i] == s]
                srt = sorted(pos, key=lambda i: fr[i], reverse=co[0] == "-")
                for x, y in zip(pos, srt):
                    out[x] = y
        return out
    for s in order:
        pos = [i for i in range(len(ids)) if ids[i] == s]
        if co is not None:
            pos = sorted(pos, key=lambda i: fr[i], reverse=co[0] == "-")
        out += pos
    return out


def do_reorder(c, op):
    if op[0] == "ant":
        c.reorder_antennas(op[1] if isinstance(op[1], str) else np.array(op[1]))
    elif op[0] == "time":
        c.reorder_times(op[1] if isinstance(op[1], str) else list(op[1]))
    elif op[0] == "jones":
        c.reorder_jones(op[1] if isinstance(op[1], str) else tuple(op[1]))
    else:
        so = np.array(op[1]) if isinstance(op[1], list) else op[1]
        co = np.array(op[2]) if isinstance(op[2], list) else op[2]
        c.reorder_freqs(spw_order=so, channel_order=co)


def fits(op, im):
    """Do the indices of a permutation still match the axis (after a selection)?"""
    for v, ax in ((op[1], {"ant": "a", "time": "t", "jones": "j", "freq": "s"}[op[0]]), (op[2] if op[0] == "freq" else None, "f")):
        if isinstance(v, list) and len(v) != im.n(ax):
            return False
    return True


def reorder_model(im, op):
    if op[0] == "freq" and op[1] is None and op[2] is None and not im.wide:
        return im
    p = perm(im, op)
    if p is None:
        return None
    ax = {"ant": "a", "time": "t", "jones": "j", "freq": "s" if im.wide else "f"}[op[0]]
    im.take(ax, p)
    if op[0] == "freq" and not im.wide:
        ids = list(dict.fromkeys(im.arr["flex_spw_id_array"].tolist()))
        old = im.arr["spw_array"].tolist()
        k = [old.index(s) for s in ids]
        for n in cal.SPW:
            if im.arr[n] is not None:
                im.arr[n] = im.arr[n][k]
    return im


def select_model(im, atoms, alt):
    kw, keep = {}, {}
    for at in atoms:
        k, ax, idx = decode(at, im, alt)
        kw.update(k)
        idx = set(idx)
        if ax in keep:
            # frequency-like criteria add up, everything else intersects
            if ax == "f" and at[0] in ("chans", "freqs", "spws"):
                keep[ax] |= idx
            else:
                keep[ax] &= idx
        else:
            keep[ax] = idx
    if any(len(v) == 0 for v in keep.values()):
        return kw, None
    # one window: a selection on it is ignored
    for ax, v in keep.items():
        im.take(ax, sorted(v))
    return kw, im


def sel(case, ctx):
    _, d, atoms, alt = case
    c = dataset(d)
    fro = Frozen(c)
    im = CalImg(c)
    kw, exp = select_model(im, atoms, alt)
    inplace = alt % 2 == 0
    if exp is None:
        try:
            r = c.select(inplace=False, **kw)
        except (ValueError, IndexError):
            fro.check(c, f"{atoms}: refused select")
            ctx.outcome("refused")
            return
        raise Violation(f"{atoms}: selects nothing but was not refused ({r.Nants_data},{r.Nfreqs},{r.Ntimes},{r.Njones})")
    if inplace:
        r = c
        require(c.select(**kw) is None, "in-place select returned something")
    else:
        r = c.select(inplace=False, **kw)
        fro.check(c, f"{atoms}: select(inplace=False)")
    ctx.step()
    got = structure(r, str(atoms))
    compare(exp.canon_spw(), got.canon_spw(), str(atoms), catalog=False)
    ctx.state(got.key())
    ctx.trace()


def bad_kw(i, c):
    """The i-th rejected form on this object, or None where it does not apply."""
    kw = dict(BAD[i])
    sub = {
        "T0": [c.time_array[0] if c.time_array is not None else c.time_range[0].mean()],
        "T1": None,
        "TR": [1.0, 1e7],
        "L0": [c.lst_array[0] if c.lst_array is not None else c.lst_range[0].mean()],
        "S0+77": [int(c.spw_array[0]), 77],
        "P0": None,
    }
    if c.phase_center_id_array is not None:
        ids = c.phase_center_id_array
        sub["P0"] = [int(ids[0])]
        t = c.time_array if c.time_array is not None else c.time_range.mean(axis=1)
        sub["T1"] = [t[[k for k in range(c.Ntimes) if ids[k] != ids[0]][0]]]
    for k, v in kw.items():
        if isinstance(v, str):
            kw[k] = sub[v]
    if any(v is None for v in kw.values()):
        return None
    if "spws" in kw and c.Nspws == 1:
        return None  # documented: ignored with a warning
    return kw


def bad(case, ctx):
    _, d, i, inp = case
    c = dataset(d)
    kw = bad_kw(i, c)
    if kw is None:
        return
    fro = Frozen(c)
    try:
        r = c.select(inplace=bool(inp), **kw)
    except (ValueError, IndexError, KeyError, TypeError):
        fro.check(c, f"refused select {BAD[i]}")
        ctx.outcome("refused")
        ctx.trace()
        return
    raise Violation(f"select {BAD[i]} was not refused")


def hist(case, ctx):
    _, d, ops = case
    c = dataset(d)
    im = CalImg(c)
    for op in ops:
        if op[0] == "r":
            if not fits(op[1], im) or (op[1][0] == "jones" and d == "flex"):
                return
            im2 = reorder_model(im, op[1])
            if im2 is None:
                ctx.outcome("ties")
                return
            do_reorder(c, op[1])
        else:
            kw, im2 = select_model(im, [op[1]], 0)
            if im2 is None:
                return
            c.select(**kw)
        ctx.step()
        im = structure(c, str(ops))
        compare(im2.copy().canon_spw(), im.copy().canon_spw(), str(ops), catalog=False)
        im = CalImg(c)
    ctx.state(im.key())
    ctx.trace()


def run(case, ctx):
    {"mal": run_mal, "sel": sel, "bad": bad, "hist": hist}[case[0]](case, ctx)
