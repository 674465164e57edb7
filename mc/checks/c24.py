"""C24: UVFlag selection, combination and files, against array images."""

import itertools
import os

import numpy as np
from pyuvdata import UVFlag

from mc import flag, io, malformed
from mc.core import Violation, require
from mc.flag import FlagImg, compare, structure
from mc.model import Frozen

ID = "C24"
BOUNDS = (
    "UVFlag objects of every type and mode (baseline with four row orders, antenna and waterfall with unsorted times; one, two, "
    "reversed and overlapping windows; coded flags, metrics and weights, with and without squared weights): select by every subset "
    "of times, antennas, antenna pairs (either order, with polarization), antenna strings, row indices, frequencies, channels, polarizations (numbers, "
    "strings) and every pair of criteria of a reduced alphabet; every rejected form; add along every axis of every cut in both orders; "
    "OR and metric combination (all methods); write and read back, twice, with every compression, and lists of files."
)
ASSUMPTIONS = []

KINDS = ("bt", "bs", "br", "bb", "as", "ao", "bs.a", "bt.w", "bs.v", "br.v")


def subsets(n, hi=None):
    return [list(c) for k in range(1, (hi or n) + 1) for c in itertools.combinations(range(n), k)]


PSTR = {-5: "xx", -6: "yy", -7: "xy", -8: "yx"}
PSTRX = {-5: "ee", -6: "nn", -7: "en", -8: "ne"}
CONJ = {-5: -5, -6: -6, -7: -8, -8: -7}


def alphabet(kind):
    f = flag.make(kind, "flag")
    im = FlagImg(f)
    out = []
    ut = sorted(set(im.time.tolist()))
    for s in subsets(len(ut)):
        out.append(["times", s])
    for s in subsets(len(im.freq)):
        out.append(["chans", s])
    nu = len(set(im.freq.tolist()))
    for s in subsets(nu):
        out.append(["freqs", s])
    out.append(["mix", [0], [1]])
    out.append(["mix", [nu - 1], [0]])
    for s in subsets(len(im.pol)):
        out.append(["pols", s])
        out.append(["pstr", s])
        out.append(["pstrx", s])
    n = len(im.time)
    for s in ([0], [n - 1, 0], list(range(0, n, 2)), [1, 1, 0]):
        out.append(["inds", s])
    if im.type == "baseline":
        ants = sorted(set(im.a1.tolist()) | set(im.a2.tolist()))
        for s in subsets(len(ants)):
            out.append(["ants", s])
        prs = list(dict.fromkeys(zip(im.a1.tolist(), im.a2.tolist())))
        for i in range(len(prs)):
            for fl in (0, 1):
                out.append(["bls", [[i, fl, None]]])
                for p in range(len(im.pol)):
                    out.append(["bls", [[i, fl, p]]])
        for i, j in itertools.combinations(range(len(prs)), 2):
            out.append(["bls", [[i, 0, None], [j, 1, None]]])
        out += [["str", "auto"], ["str", "cross"], ["str", "all"], ["str", "3"], ["str", "0_3"], ["str", "3_12"]]
    elif im.type == "antenna":
        for s in subsets(len(im.ant)):
            out.append(["ants", s])
        out.append(["ants", [1, 0]])
        out.append(["ants", [1, 1, 0]])
    return out


def axis(at):
    return {"times": "r", "inds": "r2", "chans": "f", "freqs": "f2", "mix": "f3", "pols": "p", "pstr": "p2", "pstrx": "p3", "ants": "a", "bls": "b", "str": "s"}[at[0]]


def decode(at, im):
    """-> kwargs, [(axis, index set)], or None when it must be refused."""
    k, v = at[0], at[1]
    if k == "times":
        ut = sorted(set(im.time.tolist()))
        if max(v) >= len(ut):
            return None
        ts = [ut[i] for i in v]
        return {"times": ts}, [("r", {i for i, t in enumerate(im.time) if t in ts})]
    if k == "inds":
        return {"blt_inds": v}, [("r", set(v))]
    if k == "chans":
        return {"freq_chans": v}, [("f", set(v))]
    if k == "freqs":
        uf = sorted(set(im.freq.tolist()))
        fs = [uf[i] for i in v]
        return {"frequencies": fs}, [("f", {i for i, x in enumerate(im.freq) if x in fs})]
    if k == "mix":
        uf = sorted(set(im.freq.tolist()))
        fs = [uf[i] for i in v]
        return {"frequencies": fs, "freq_chans": at[2]}, [("f", {i for i, x in enumerate(im.freq) if x in fs} | set(at[2]))]
    if k in ("pols", "pstr", "pstrx"):
        ps = [im.pol[i] for i in v]
        if k == "pols":
            val = ps
        else:
            val = [(PSTR if k == "pstr" else PSTRX)[p] for p in ps]
        return {"polarizations": val}, [("p", set(v))]
    if k == "ants":
        if im.type == "antenna":
            return {"antenna_nums": im.ant[v].tolist()}, [("a", set(v))]
        ants = sorted(set(im.a1.tolist()) | set(im.a2.tolist()))
        s = {ants[i] for i in v}
        return {"antenna_nums": sorted(s)}, [("r", {i for i in range(len(im.time)) if im.a1[i] in s and im.a2[i] in s})]
    if k == "bls":
        prs = list(dict.fromkeys(zip(im.a1.tolist(), im.a2.tolist())))
        rows, pols, val = set(), set(), []
        for i, fl, p in v:
            a, b = prs[i]
            req = (b, a) if fl else (a, b)
            flipped = fl and a != b and (b, a) not in prs
            if p is None:
                val.append(req)
            else:
                pn = im.pol[p]
                val.append((*req, PSTR[pn]))
                pols.add(CONJ[pn] if flipped else pn)
            want = req if req in prs else (a, b)
            rows |= {r for r in range(len(im.time)) if (im.a1[r], im.a2[r]) == want}
        res = [("r", rows)]
        if pols:
            if not pols <= set(im.pol):
                return {"bls": val}, None
            res.append(("p", {im.pol.index(p) for p in pols}))
        return {"bls": val if len(val) > 1 else val[0]}, res
    if k == "str":
        if v == "all":
            return {"ant_str": v}, []
        if v == "auto":
            rows = {i for i in range(len(im.time)) if im.a1[i] == im.a2[i]}
        elif v == "cross":
            rows = {i for i in range(len(im.time)) if im.a1[i] != im.a2[i]}
        elif "_" in v:
            s = set(map(int, v.split("_")))
            rows = {i for i in range(len(im.time)) if {int(im.a1[i]), int(im.a2[i])} == s}
        else:
            rows = {i for i in range(len(im.time)) if int(v) in (im.a1[i], im.a2[i])}
        return {"ant_str": v}, [("r", rows)]
    raise ValueError(k)


def reduced(kind):
    al = alphabet(kind)
    by = {}
    for a in al:
        by.setdefault(axis(a)[0], []).append(a)
    return {k: [v[0], v[len(v) // 2], v[-1]] if len(v) > 3 else v for k, v in by.items()}


BAD = [
    ("times", {"times": [1.0]}),
    ("freqs", {"frequencies": [1.0]}),
    ("pols", {"polarizations": [4]}),
    ("pstr", {"polarizations": ["rr"]}),
    ("ants", {"antenna_nums": [99]}),
    ("bls", {"bls": [(0, 99)]}),
    ("inds", {"blt_inds": [1000]}),
    ("inds-", {"blt_inds": [-1]}),
    ("empty", {"blt_inds": []}),
    ("both", {"ant_str": "auto", "antenna_nums": [0]}),
    ("chans", {"freq_chans": [100]}),
]


MALOBJ = ["bt", "bt.w", "at", "at.w"]


def run_mal(case, ctx):
    o = MALOBJ[case[1]]
    malformed.run(lambda: flag.make(o, "flag"), malformed.FLAG[case[2]], ctx)


def cases(tier):
    out = []
    for i in range(len(MALOBJ)):
        for j in range(len(malformed.FLAG)):
            out.append(["mal", i, j])
    for k in KINDS:
        for mode in ("flag", "metric"):
            for a in alphabet(k):
                out.append(["sel", k, mode, [a], 0])
                out.append(["sel", k, mode, [a], 1])
            r = reduced(k)
            for x, y in itertools.combinations(sorted(r), 2):
                for a in r[x]:
                    for b in r[y]:
                        out.append(["sel", k, mode, [a, b], 1])
            if tier == "thorough":
                for x, y, z in itertools.combinations(sorted(r), 3):
                    for a in r[x]:
                        for b in r[y]:
                            for c in r[z]:
                                out.append(["sel", k, mode, [a, b, c], 0])
                al = alphabet(k)
                for a, b in itertools.product(al, al):
                    if axis(a)[0] != axis(b)[0]:
                        out.append(["sel", k, mode, [a, b], 0])
            for i in range(len(BAD)):
                out.append(["bad", k, mode, i])
            for ax in ("time", "baseline", "antenna", "frequency", "pol", "jones", "polarization"):
                for c in ("half", "alt"):
                    for o in (0, 1):
                        for inpl in (0, 1):
                            out.append(["add", k, mode, ax, c, o, inpl])
            for bad in ("tel", "freq", "pol", "time", "mode", "type", "width", "bl"):
                out.append(["addbad", k, mode, bad])
            for ws in (False, True):
                for comp in ("lzf", "gzip", None):
                    for kp in (False, True):
                        out.append(["file", k, mode, ws, comp, kp])
            out.append(["files", k, mode])
        for s in (0, 1):
            out.append(["or", k, s])
        for m in ("quadmean", "absmean", "mean"):
            for n in (1, 2):
                for inpl in (0, 1):
                    out.append(["comb", k, m, n, inpl])
    return out


def obj(kind, mode, ws=False, seed=0):
    f = flag.make(kind, mode, seed)
    if ws and mode == "metric" and f.type == "waterfall":
        f.weights_square_array = f.weights_array**2 + 1.0
    return f


def run_sel(case, ctx):
    _, k, mode, atoms, inpl = case
    f = obj(k, mode, ws=True)
    im = FlagImg(f)
    kw, keep = {}, {}
    refuse = False
    for a in atoms:
        r = decode(a, im)
        if r is None:
            return
        if set(r[0]) & set(kw):
            return
        kw.update(r[0])
        if r[1] is None:
            refuse = True
            continue
        for ax, s in r[1]:
            if ax == "f" and ax in keep:
                keep[ax] |= s
            elif ax in keep:
                keep[ax] &= s
            else:
                keep[ax] = set(s)
    if "ant_str" in kw and set(kw) & {"antenna_nums", "bls", "polarizations"}:
        return
    if "polarizations" in kw and "bls" in kw and any(len(b) == 3 for b in (kw["bls"] if isinstance(kw["bls"], list) else [kw["bls"]])):
        return
    what = f"select {kw}"
    if refuse or any(len(s) == 0 for s in keep.values()):
        fr = Frozen(f)
        try:
            f.select(**kw)
        except ValueError:
            fr.check(f, what)
            ctx.trace()
            return
        raise Violation(f"{what} matches nothing: expected a refusal")
    for ax, s in keep.items():
        im.take(ax, sorted(s))
    if inpl:
        f.select(**kw)
        g = f
    else:
        fr = Frozen(f)
        g = f.select(inplace=False, **kw)
        fr.check(f, what)
    ctx.step()
    got = structure(g, what)
    compare(im, got, what, tol=0)
    ctx.state(got.key())
    ctx.trace()


def run_bad(case, ctx):
    _, k, mode, i = case
    f = obj(k, mode)
    name, kw = BAD[i]
    fr = Frozen(f)
    try:
        f.select(**kw)
    except (ValueError, IndexError):
        fr.check(f, f"refused select {kw}")
        ctx.trace()
        return
    raise Violation(f"select {kw}: expected a refusal")


AXPOS = {
    "baseline": {"time": "r", "baseline": "r", "frequency": "f", "pol": "p", "jones": "p", "polarization": "p"},
    "waterfall": {"time": "r", "frequency": "f", "pol": "p", "jones": "p", "polarization": "p"},
    "antenna": {"time": "r", "antenna": "a", "frequency": "f", "pol": "p", "jones": "p", "polarization": "p"},
}


def split(f, ax, c):
    """Two index lists along the axis for the object f, or None."""
    im = FlagImg(f)
    if ax in ("time", "baseline") and im.type == "baseline":
        # the other label must agree row by row: cut a time-major grid
        if ax == "time":
            ut = sorted(set(im.time.tolist()))
            grp = [ut.index(t) for t in im.time]
        else:
            ub = sorted(set(im.bl.tolist()))
            grp = [ub.index(b) for b in im.bl]
        n = len(set(grp))
        first = set(range(n // 2)) if c == "half" else set(range(0, n, 2))
        a = [i for i, g in enumerate(grp) if g in first]
        b = [i for i, g in enumerate(grp) if g not in first]
        if len(a) != len(b):
            return None
        key = (lambda i: int(im.bl[i])) if ax == "time" else (lambda i: float(im.time[i]))
        if [key(i) for i in a] != [key(i) for i in b]:
            return None
        return a, b
    n = {"r": len(im.time), "f": len(im.freq), "p": len(im.pol), "a": 0 if im.ant is None else len(im.ant)}[AXPOS[im.type][ax]]
    if n < 2:
        return None
    r = list(range(n))
    return (r[: n // 2], r[n // 2 :]) if c == "half" else (r[::2], r[1::2])


def part(f, ax, idx):
    p = AXPOS[f.type][ax]
    g = f.copy()
    if p == "r":
        g.select(blt_inds=idx)
    elif p == "a":
        g.select(antenna_nums=g.ant_array[idx].tolist())
    elif p == "p":
        g.select(polarizations=g.polarization_array[idx].tolist())
    else:
        im = FlagImg(g).take("f", idx)
        g.freq_array, g.channel_width, g.flex_spw_id_array, g.spw_array = im.freq, im.width, im.spwid, im.spws
        g.Nfreqs, g.Nspws = len(im.freq), len(im.spws)
        for n, v in im.data().items():
            setattr(g, n, v)
    return g


def run_add(case, ctx):
    _, k, mode, ax, c, o, inpl = case
    f = obj(k, mode, ws=True)
    if k in ("bt", "bb") and ax in ("time", "baseline"):
        # an even number of groups is needed: drop the last time
        f.select(times=np.unique(f.time_array)[:2])
    if ax not in AXPOS[f.type]:
        a, b = f, f.copy()
        fr = Frozen(a)
        try:
            a.__add__(b, axis=ax)
        except ValueError:
            fr.check(a, "refused add")
            ctx.trace()
            return
        raise Violation(f"add along {ax} of type {f.type}: expected a refusal")
    ii = split(f, ax, c)
    if ii is None:
        return
    if o:
        ii = (ii[1], ii[0])
    full = FlagImg(f)
    p = AXPOS[f.type][ax]
    if p == "f":
        ids = [int(full.spwid[i]) for i in ii[0] + ii[1]]
        if any(ids[i] in ids[:i] and ids[i] != ids[i - 1] for i in range(1, len(ids))):
            return
    a, b = part(f, ax, ii[0]), part(f, ax, ii[1])
    exp = full.take(p, ii[0] + ii[1])
    fa, fb = Frozen(a), Frozen(b)
    what = f"add along {ax}"
    if inpl:
        g = a
        g.__iadd__(b, axis=ax)
    else:
        g = a.__add__(b, axis=ax)
        fa.check(a, what)
    fb.check(b, what)
    ctx.step()
    got = structure(g, what)
    compare(exp, got, what, tol=0)
    ctx.state(got.key())
    ctx.trace()


def run_addbad(case, ctx):
    _, k, mode, bad = case
    f = obj(k, mode)
    g = f.copy()
    ax = "frequency"
    if bad == "tel":
        g.telescope.name = "elsewhere"
    elif bad == "freq":
        ax = "time"
        g.freq_array = g.freq_array + 1e5
    elif bad == "width":
        ax = "pol"
        g.channel_width = g.channel_width * 2
    elif bad == "pol":
        if len(f.polarization_array) < 2:
            return
        g.polarization_array = g.polarization_array[::-1].copy()
    elif bad == "time":
        g.time_array = g.time_array + 0.5
        g.set_lsts_from_time_array()
    elif bad == "mode":
        g = obj(k, "metric" if mode == "flag" else "flag")
    elif bad == "type":
        g = obj("bt.w" if f.type != "waterfall" else "bt", mode)
    elif bad == "bl":
        if f.type == "waterfall":
            return
        if f.type == "baseline":
            g.ant_1_array = g.ant_1_array[::-1].copy()
            g.ant_2_array = g.ant_2_array[::-1].copy()
            g.baseline_array = g.baseline_array[::-1].copy()
            if np.array_equal(g.baseline_array, f.baseline_array):
                return
        else:
            g.ant_array = g.ant_array[::-1].copy()
    g.check()
    fa, fb = Frozen(f), Frozen(g)
    for inpl in (False, True):
        try:
            f.__add__(g, axis=ax, inplace=inpl)
        except ValueError:
            fa.check(f, f"refused add ({bad})")
            fb.check(g, f"refused add ({bad})")
            continue
        raise Violation(f"adding objects with other {bad}: expected a refusal")
    ctx.step(2)
    ctx.trace()


def run_or(case, ctx):
    _, k, s = case
    a, b = flag.make(k, "flag", 0), flag.make(k, "flag", 1 + s)
    ia, ib = FlagImg(a), FlagImg(b)
    fa, fb = Frozen(a), Frozen(b)
    c = a | b
    fa.check(a, "a | b")
    fb.check(b, "a | b")
    ia.flag = np.array([x or y for x, y in zip(ia.flag.ravel(), ib.flag.ravel())]).reshape(ia.flag.shape)
    compare(ia, structure(c, "or"), "or", tol=0)
    a |= b
    compare(ia, structure(a, "ior"), "ior", tol=0)
    fb.check(b, "a |= b")
    m = flag.make(k, "metric")
    for x, y in ((m, b), (b, m)):
        fx, fy = Frozen(x), Frozen(y)
        try:
            x | y
        except ValueError:
            fx.check(x, "refused or")
            fy.check(y, "refused or")
        else:
            raise Violation("OR with a metric object: expected a refusal")
    ctx.step(4)
    ctx.trace(4)
    ctx.state(ia.key())


def run_comb(case, ctx):
    _, k, method, n, inpl = case
    from mc.checks.c23 import m_collapse

    objs = [flag.make(k, "metric", s) for s in range(n + 1)]
    ims = [FlagImg(o) for o in objs]
    exp = ims[0].copy()
    for i in np.ndindex(*exp.metric.shape):
        exp.metric[i], exp.w[i] = m_collapse([m.metric[i] for m in ims], [m.w[i] for m in ims], method)
    fr = [Frozen(o) for o in objs]
    oth = objs[1] if n == 1 else objs[1:]
    g = objs[0].combine_metrics(oth, method=method, inplace=bool(inpl))
    if inpl:
        g = objs[0]
    else:
        fr[0].check(objs[0], "combine_metrics")
    for f, o in list(zip(fr, objs))[1:]:
        f.check(o, "combine_metrics")
    compare(exp, structure(g, "combine"), "combine_metrics")
    ctx.step()
    ctx.trace()
    ctx.state(exp.key())


def run_file(case, ctx):
    _, k, mode, ws, comp, kp = case
    f = obj(k, mode, ws)
    if not kp:
        if f.Npols < 2:
            return
        f.collapse_pol(method="or" if mode == "flag" else "mean")
    im = FlagImg(f)
    fr = Frozen(f)
    p = io.path(".h5")
    try:
        f.write(p, data_compression=comp)
        h = f.history
        try:
            f.write(p)
        except ValueError:
            pass
        else:
            raise Violation("an existing file was overwritten")
        ctx.step()
        for gen_ in range(2):
            g = UVFlag(p) if gen_ == 0 else UVFlag()
            if gen_:
                g.read(p)
            ctx.step()
            got = structure(g, "read")
            compare(im, got, "written and read", tol=0)
            require((im.ws is None) == (got.ws is None), "weights_square_array")
            require(h in g.history, "history lost")
            if gen_ == 0:
                g.write(p, clobber=True)
    finally:
        io.rm(p)
    fr.check(f, "write") if False else None
    compare(im, FlagImg(f), "object after writing", tol=0)
    ctx.state(im.key())
    ctx.trace()


def run_files(case, ctx):
    """A list of files is read as the concatenation along time."""
    _, k, mode = case
    f = obj(k, mode, True)
    ii = split(f, "time", "half")
    if k in ("bt", "bb"):
        f.select(times=np.unique(f.time_array)[:2])
        ii = split(f, "time", "half")
    if ii is None:
        return
    parts = [part(f, "time", i) for i in ii]
    paths = [io.path(f"{i}.h5") for i in range(2)]
    try:
        for o, p in zip(parts, paths):
            o.write(p, clobber=True)
        for order in ((0, 1), (1, 0)):
            exp = FlagImg(f).take("r", ii[order[0]] + ii[order[1]])
            for g in (UVFlag([paths[i] for i in order]), UVFlag.from_file([paths[i] for i in order]) if hasattr(UVFlag, "from_file") else None):
                if g is None:
                    continue
                got = structure(g, "read list")
                compare(exp, got, "read list", tol=0)
                ctx.step()
    finally:
        for p in paths:
            io.rm(p)
    ctx.trace()


def run(case, ctx):
    {"mal": run_mal, "sel": run_sel, "bad": run_bad, "add": run_add, "addbad": run_addbad, "or": run_or, "comb": run_comb, "file": run_file, "files": run_files}[
        case[0]
    ](case, ctx)
