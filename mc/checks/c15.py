"""C15: the accessors of visibilities return (and set) the requested rows, whatever was asked and done before."""

import itertools

import numpy as np
from pyuvdata import UVData

from mc import gen, io
from mc.core import Violation, digest, require

ID = "C15"
BOUNDS = (
    "every key (antenna pair of 5x5+1, with and without each of 14 polarizations given as numbers and names, baseline number, polarization alone; "
    "as arguments, tuple or mixed) of get_data, get_flags, get_nsamples, get_times, get_lsts, antpair2ind and the lists, on objects of 5 row "
    "layouts x 6 antenna-pair sets x 7 polarization sets x windows; set_data, set_flags and set_nsamples of every key; and histories of 2 (3) of 34 "
    "operations (select, reorder, conjugate, combine, resample, compress, assign arrays, relabel, copy, files) with the answers of all keys "
    "asked before and checked after each."
)
ASSUMPTIONS = ["arrays of an object are replaced, not modified in place, when they are changed directly"]

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
ANT = ["three", "conj", "two", "autos"]
BOTH = [(0, 3), (3, 0), (0, 0), (12, 3), (3, 12), (0, 12)]
POL = [(-5, -6, -7, -8), (-8, -5, -7, -6), (-7,), (-5, -7), (1, 2), (-1, -4, -3), (-6, -5)]
NUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4, "pI": 1, "pQ": 2, "I": 1, "XY": -7}
CONJ = {-7: -8, -8: -7, -3: -4, -4: -3}
EN = {"east": {"ee": -5, "nn": -6, "en": -7, "ne": -8}, "north": {"nn": -5, "ee": -6, "ne": -7, "en": -8}}

OPS = ["sel_bl", "sel_ant", "sel_time", "sel_pol", "sel_blt", "sel_freq", "re_time", "re_bl", "re_ant1", "re_perm", "re_autos", "conj12", "conj21", "conj_some", "pol_aips", "pol_rev", "fr_rev", "add_t", "iadd_bl", "concat",
       "copy", "xo", "xo_none", "assign_ant", "assign_pol", "down", "up", "rect_none", "rect_set", "uvh5", "read", "sum", "phase", "metacopy"]


def cases(tier):
    out = []
    for lay in LAY:
        for ants in ANT + ["both"]:
            for pi in range(len(POL)):
                out.append(["acc", lay, ants, pi, 3])
                if lay in ("time", "bl", "ragged"):
                    out.append(["acc", lay, ants, pi, 1])
                    out.append(["set", lay, ants, pi])
    starts = [["time", "conj", 0], ["ragshuf", "both", 1], ["bl", "both", 3]]
    for s in starts:
        for a, b in itertools.product(OPS, repeat=2):
            out.append(["hist", s, [a, b]])
    if tier == "thorough":
        for s in starts[:2]:
            for t in itertools.product(OPS, repeat=3):
                out.append(["hist", s, list(t)])
    for h in itertools.product(("none", "rect", "both", "tf"), ("time", "bl", "ragged", "shuffle")):
        out.append(["file", *h])
    return out


def build(lay, ants, pi, nt=3, t0=0.0):
    return gen.uvd(ants=BOTH if ants == "both" else ants, layout=lay, nt=nt, nf=2, spw="one", pols=POL[pi], extras=False, x_orient="east", t0=gen.JD0 + t0, seed=int(t0 * 100))


class Ref:
    """Plain lists of what an object holds."""

    def __init__(self, u):
        self.a = u.ant_1_array.tolist()
        self.b = u.ant_2_array.tolist()
        self.p = [int(x) for x in u.polarization_array]
        self.t, self.l = u.time_array.copy(), u.lst_array.copy()
        self.meta = u.data_array is None
        if not self.meta:
            self.d, self.f, self.n = u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy()
        self.xo = u.telescope.x_orientation
        self.pairs = list(dict.fromkeys(zip(self.a, self.b)))

    def rows(self, x, y):
        return [i for i in range(len(self.a)) if self.a[i] == x and self.b[i] == y]

    def num(self, p):
        if not isinstance(p, str):
            return p
        if p in NUM:
            return NUM[p]
        return EN.get(self.xo, {}).get(p)

    def inds(self, key):
        """[(rows, columns, conjugated)] or None when there is nothing."""
        if len(key) == 1:
            p = self.num(key[0])
            if p not in self.p:
                return None
            return [(list(range(len(self.a))), [self.p.index(p)], False)]
        x, y = key[:2]
        r1 = self.rows(x, y)
        r2 = self.rows(y, x) if x != y else []
        if len(key) == 2:
            out = [(r1, list(range(len(self.p))), False)] if r1 else []
            c = [CONJ.get(q, q) for q in self.p]
            if r2 and all(q in self.p for q in c):
                out.append((r2, [self.p.index(q) for q in c], True))
            return out or None
        p = self.num(key[2])
        if p is None:
            return None
        out = []
        if r1 and p in self.p:
            out.append((r1, [self.p.index(p)], False))
        if r2 and CONJ.get(p, p) in self.p:
            out.append((r2, [self.p.index(CONJ.get(p, p))], True))
        return out or None


def keys(r):
    """Every key of pairs and polarizations as (canonical key, ways to pass it)."""
    ants = sorted(set(r.a) | set(r.b) | {7})[:5] + [99]
    pols = [-5, -6, -7, -8, "xx", "xy", "yx", "pI", "I", -4, "rl", "XY", 1] + list(EN.get(r.xo, {"en": 0}))
    for p in pols:
        if r.num(p) is None:
            continue
        yield (p,), [(p,), ((p,),)]
    for x, y in itertools.product(ants, repeat=2):
        yield (x, y), [((x, y),), (x, y)]
        if 0 <= min(x, y):
            bl = 2048 * x + y + 2**16
            yield (x, y, None, bl), [(bl,), ((bl,),), (np.int64(bl),)]
        for p in pols:
            if r.num(p) is not None:
                yield (x, y, p), [((x, y, p),), (x, y, p), ((x, y), p)]


def check_access(u, r, what, ctx, full=True):
    n = 0
    for key, forms in keys(r):
        bl = len(key) == 4
        k = key[:2] if bl else key
        exp = r.inds(k)
        for form in forms if full else forms[:1]:
            n += 1
            msg = f"{what}: {form}"
            if exp is None:
                for f in (u.get_times, u.get_lsts) + (() if r.meta else (u.get_data, u.get_flags, u.get_nsamples)):
                    try:
                        f(*form)
                    except KeyError:
                        continue
                    except Exception as e:
                        raise Violation(f"{msg}: {type(e).__name__} {e}") from e
                    raise Violation(f"{msg}: {f.__name__} of what is not there")
                continue
            rows = [i for q in exp for i in q[0]]
            g = u.get_times(*form)
            require(np.array_equal(g, r.t[rows]), "%s: times %s, expected those of rows %s", msg, g, rows)
            require(np.array_equal(u.get_lsts(*form), r.l[rows]), "%s: lsts", msg)
            if r.meta:
                continue
            for f, src in ((u.get_data, r.d), (u.get_flags, r.f), (u.get_nsamples, r.n)):
                e = np.concatenate([np.conj(src[q[0]][:, :, q[1]]) if q[2] and src is r.d else src[q[0]][:, :, q[1]] for q in exp])
                for sq in ("default", "none", "full") if full and form is forms[0] else ("default",):
                    x = e
                    if sq == "full":
                        x = np.squeeze(e)
                    elif sq == "default" and e.shape[2] == 1:
                        x = e[:, :, 0]
                    for fc in (False, True) if sq == "none" else (False,):
                        g = f(*form, squeeze=sq, force_copy=fc)
                        require(g.shape == x.shape and np.array_equal(g, x), "%s: %s(squeeze=%s) is %s, expected rows %s", msg, f.__name__, sq, g.ravel()[:3], exp)
                        require(g.dtype == src.dtype, "%s: %s is of %s", msg, f.__name__, g.dtype)
                        if fc:
                            require(g.flags.writeable, "%s: forced copy is read-only", msg)
                            require(not np.shares_memory(g, u.data_array) and not np.shares_memory(g, u.flag_array) and not np.shares_memory(g, u.nsample_array), "%s: forced copy is a view", msg)
                        elif g.flags.writeable:
                            require(not np.shares_memory(g, u.data_array) and not np.shares_memory(g, u.nsample_array), "%s: writable view", msg)
        if len(key) == 2:
            for o in (True, False):
                x, y = key
                e = r.rows(x, y) + (r.rows(y, x) if not o and x != y else [])
                g = u.antpair2ind(x, y, ordered=o)
                require(u.antpair2ind((x, y), ordered=o) is g or np.array_equal(np.arange(len(r.a))[g], np.arange(len(r.a))[u.antpair2ind((x, y), ordered=o)]), "antpair2ind forms")
                if g is None:
                    require(e == [], "%s: antpair2ind(%d, %d) is None", what, x, y)
                else:
                    require(np.arange(len(r.a))[g].tolist() == e or sorted(np.arange(len(r.a))[g].tolist()) == sorted(e) and not o, "%s: antpair2ind(%d, %d, %s) is %s, expected %s", what, x, y, o, g, e)
    # lists
    require(sorted(u.get_antpairs()) == sorted(r.pairs), "%s: get_antpairs %s", what, u.get_antpairs())
    require(sorted(u.get_ants().tolist()) == sorted(set(r.a) | set(r.b)), "%s: get_ants", what)
    require(sorted(int(b) for b in u.get_baseline_nums()) == sorted(2048 * x + y + 2**16 for x, y in r.pairs), "%s: get_baseline_nums", what)
    name = {v: k for k, v in NUM.items() if k not in ("I", "XY")}
    name.update({v: k for k, v in EN.get(r.xo, {}).items()})
    pn = [name[q] for q in r.p]
    require(u.get_pols() == pn, "%s: get_pols %s", what, u.get_pols())
    require(sorted(u.get_antpairpols()) == sorted((x, y, q) for x, y in r.pairs for q in pn), "%s: get_antpairpols", what)
    if all(q < 0 for q in r.p):
        require(sorted(u.get_feedpols()) == sorted(set("".join(pn))), "%s: get_feedpols", what)
    if not r.meta:
        seen = []
        for k, d in u.antpairpol_iter():
            seen.append(k)
            e = r.inds(k)
            x = np.concatenate([np.conj(r.d[q[0]][:, :, q[1]]) if q[2] else r.d[q[0]][:, :, q[1]] for q in e])[:, :, 0]
            require(np.array_equal(d, x), "%s: antpairpol_iter at %s", what, k)
        require(sorted(seen) == sorted(u.get_antpairpols()), "%s: antpairpol_iter keys", what)
    ctx.step(n)


def acc(case, ctx):
    _, lay, ants, pi, nt = case
    u = build(lay, ants, pi, nt)
    check_access(u, Ref(u), str(case), ctx)
    check_access(u, Ref(u), f"{case} again", ctx, full=False)
    m = u.copy(metadata_only=True)
    check_access(m, Ref(m), f"{case} metadata only", ctx, full=False)
    ctx.state(digest(*case))
    ctx.trace()


def setter(case, ctx):
    _, lay, ants, pi = case
    u0 = build(lay, ants, pi)
    r = Ref(u0)
    u = u0.copy()
    for key, forms in keys(r):
        k = key[:2] if len(key) == 4 else key
        exp = r.inds(k)
        for form in forms[:2]:
            for name, arr, f, val in (("data", r.d, u.set_data, 1j), ("flags", r.f, u.set_flags, None), ("nsamples", r.n, u.set_nsamples, 5.0)):
                msg = f"{case}: set_{name}{form}"
                if exp is None:
                    try:
                        f(arr[:1, :, :1].copy(), *form)
                    except (KeyError, ValueError):
                        pass
                    else:
                        raise Violation(f"{msg}: set what is not there")
                    continue
                e0 = exp[0]
                new = arr[e0[0]][:, :, e0[1]]
                new = (~new if val is None else new * 3 + val).astype(arr.dtype)
                # rows that exist only or also conjugated are refused
                conj = any(q[2] for q in exp) or len(k) > 1 and k[0] != k[1] and r.rows(k[1], k[0])
                try:
                    f(new, *form)
                    done = True
                except ValueError:
                    done = False
                require(done or conj, "%s: refused", msg)
                require(not done or not any(q[2] for q in exp), "%s: conjugated rows set", msg)
                want = arr.copy()
                if done:
                    for i, row in enumerate(e0[0]):
                        for j, col in enumerate(e0[1]):
                            want[row, :, col] = new[i, :, j]
                for nm, src in (("data", "d"), ("flags", "f"), ("nsamples", "n")):
                    w = want if nm == name else getattr(r, src)
                    g = {"data": u.data_array, "flags": u.flag_array, "nsamples": u.nsample_array}[nm]
                    require(np.array_equal(g, w), "%s: %s array", msg, nm)
                # a wrong shape changes nothing
                if done:
                    a = {"data": u.data_array, "flags": u.flag_array, "nsamples": u.nsample_array}[name]
                    a[...] = arr
                    if len(e0[0]) > 1:
                        try:
                            f(new[:1], *form)
                        except ValueError:
                            pass
                        else:
                            raise Violation(f"{msg}: wrong shape accepted")
                        require(np.array_equal(a, arr), "%s: refused but set", msg)
                ctx.step()
    ctx.trace()


def other(u, dt):
    w = u.copy()
    w.time_array = w.time_array + dt
    w.set_lsts_from_time_array()
    w._set_app_coords_helper()
    if not w.metadata_only:
        w.data_array = w.data_array * 2
    return w


def do(u, op):
    """Apply; returns the object to go on with."""
    ps = list(dict.fromkeys(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))
    if op == "sel_bl":
        u.select(bls=ps[::2])
    elif op == "sel_ant":
        u.select(antenna_nums=sorted({ps[0][0], ps[0][1], ps[-1][0]}))
    elif op == "sel_time":
        u.select(times=np.unique(u.time_array)[:2])
    elif op == "sel_pol":
        u.select(polarizations=[int(u.polarization_array[-1])])
    elif op == "sel_blt":
        u.select(blt_inds=np.arange(u.Nblts)[1:])
    elif op == "sel_freq":
        u.select(freq_chans=[0])
    elif op == "re_time":
        u.reorder_blts("time")
    elif op == "re_bl":
        u.reorder_blts("baseline")
    elif op == "re_ant1":
        u.reorder_blts("ant1", minor_order="time")
    elif op == "re_perm":
        u.reorder_blts(np.roll(np.arange(u.Nblts)[::-1], 2))
    elif op == "re_autos":
        u.reorder_blts("time", autos_first=True)
    elif op in ("conj12", "conj21"):
        if len({frozenset(p) for p in ps}) == len(ps) and not set(u.polarization_array.tolist()) ^ {CONJ.get(q, q) for q in u.polarization_array.tolist()}:
            u.conjugate_bls("ant1<ant2" if op == "conj12" else "ant2<ant1")
    elif op == "conj_some":
        if not set(u.polarization_array.tolist()) ^ {CONJ.get(q, q) for q in u.polarization_array.tolist()}:
            a = [i for i in range(u.Nblts) if u.ant_1_array[i] != u.ant_2_array[i] and not ((u.ant_1_array == u.ant_2_array[i]) & (u.ant_2_array == u.ant_1_array[i])).any()]
            if a:
                u.conjugate_bls(np.array(a[:2], dtype=int))
    elif op == "pol_aips":
        u.reorder_pols("AIPS")
    elif op == "pol_rev":
        u.reorder_pols(np.arange(u.Npols)[::-1])
    elif op == "fr_rev":
        u.reorder_freqs(channel_order="-freq")
    elif op == "add_t":
        u = u + other(u, 0.125 * (1 + u.Ntimes))
    elif op == "iadd_bl":
        w = other(u, 0.0625 * (1 + u.Ntimes))
        w.select(blt_inds=np.arange(0, w.Nblts, 2))
        u += w
    elif op == "concat":
        u.fast_concat(other(u, 0.25 * (1 + u.Ntimes)), "blt", inplace=True)
    elif op == "copy":
        u = u.copy()
    elif op == "metacopy":
        u = u.copy(metadata_only=True)
    elif op == "xo":
        u.telescope.x_orientation = "north"
    elif op == "xo_none":
        u.telescope.x_orientation = None
    elif op == "assign_ant":
        a, b = u.ant_1_array.copy(), u.ant_2_array.copy()
        m = {0: 3, 3: 0}
        u.ant_1_array = np.array([m.get(x, x) for x in a.tolist()])
        u.ant_2_array = np.array([m.get(x, x) for x in b.tolist()])
        u.baseline_array = u.antnums_to_baseline(u.ant_1_array, u.ant_2_array)
    elif op == "assign_pol":
        if all(p in (-5, -6, -7, -8) for p in u.polarization_array):
            m = {-5: -6, -6: -5, -7: -8, -8: -7}
            u.polarization_array = np.array([m[int(p)] for p in u.polarization_array])
    elif op == "down":
        u.downsample_in_time(n_times_to_avg=2, allow_drift=True) if u.Ntimes > 1 and not u.metadata_only else None
    elif op == "up":
        u.upsample_in_time(6.0, allow_drift=True) if not u.metadata_only else None
    elif op == "rect_none":
        u.blts_are_rectangular, u.time_axis_faster_than_bls = None, None
    elif op == "rect_set":
        u.set_rectangularity(force=True)
    elif op in ("uvh5", "read"):
        if u.metadata_only:
            return u
        p = io.path(".uvh5")
        u.write_uvh5(p, run_check=False)
        if op == "uvh5":
            u = UVData.from_file(p, run_check=False)
        else:
            u.read(p, run_check=False)
        io.rm(p)
    elif op == "sum":
        if not u.metadata_only:
            u.sum_vis(u.copy(), inplace=True, run_check=False)
    elif op == "phase":
        u.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", cat_type="sidereal")
    return u


def hist(case, ctx):
    _, (lay, ants, pi), seq = case
    u = build(lay, ants, pi)
    check_access(u, Ref(u), f"{case[1]}", ctx, full=False)
    for i, op in enumerate(seq):
        v = do(u, op)
        what = f"{case[1]} after {seq[:i + 1]}"
        check_access(v, Ref(v), what, ctx, full=False)
        if v is not u and i == 0:
            check_access(u, Ref(u), what + ", the object before", ctx, full=False)
        u = v
    ctx.state(digest(u.ant_1_array, u.ant_2_array, u.time_array, u.polarization_array))
    ctx.trace()


def filecase(case, ctx):
    """Files that say all, some or nothing about the row structure."""
    import h5py

    _, keep, lay = case
    for ants in ("three", "both"):
        u = build(lay, ants, 0)
        p = io.path(".uvh5")
        u.write_uvh5(p)
        rect = bool(u.blts_are_rectangular)
        with h5py.File(p, "r+") as h:
            for k in ("blts_are_rectangular", "time_axis_faster_than_bls"):
                if k in h["Header"] and (keep == "none" or keep == "rect" and k[0] == "t" or keep == "tf" and k[0] == "b" and not (u.time_axis_faster_than_bls)):
                    del h["Header/" + k]
        v = UVData.from_file(p)
        check_access(v, Ref(v), f"{case} ({rect})", ctx, full=False)
        for kw in (dict(times=np.unique(u.time_array)[:2]), dict(bls=u.get_antpairs()[:2]), dict(polarizations=[-7, -8]), dict(blt_inds=[0, 1, 4])):
            v = UVData.from_file(p, **kw)
            check_access(v, Ref(v), f"{case} read with {list(kw)}", ctx, full=False)
        v = UVData.from_file(p, read_data=False)
        check_access(v, Ref(v), f"{case} metadata", ctx, full=False)
        io.rm(p)
    ctx.trace()


def run(case, ctx):
    {"acc": acc, "set": setter, "hist": hist, "file": filecase}[case[0]](case, ctx)
