"""C02: combining visibility objects gives the union of their cells, correctly labelled."""

import itertools

import numpy as np

from pyuvdata import UVData

from mc import gen
from mc.core import Violation, require
from mc.model import BLT, DATA, Frozen, UVModel, check_valid, pc_canon, same

ID = "C02"
BOUNDS = (
    "UVData +, += and fast_concat: every ordered pair of boxes (blt units x frequency"
    " units x polarization units, all non-empty subsets) of 6 small labelled data sets,"
    " operands in several axis orders, disjoint (must give the union with gaps flagged)"
    " or overlapping (must be refused, or overwrite when the first is empty); every set"
    " partition of 4 units of each axis into up to 4 operands, in every order, folded"
    " left and right; every pair of phase-centre catalogs of the alphabet."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

DS = {
    "plain": dict(ants="two", nt=2, nf=4, pols=(-5, -6)),
    "multi": dict(ants="conj", nt=2, nf=4, spw="two", pols=(-5, -6, -7, -8), pc="multi"),
    "rag": dict(ants="cross", nt=3, layout="ragged", nf=4, spw="two_rev", pc="mixed",
                pols=(-6, -5), scan=True, inttime="blt"),
    "eqscan": dict(ants="two", nt=2, nf=4, eq=True, scan=True, pols=(1, 2, 3, 4)),
    "overlap": dict(ants="two", nt=2, nf=4, spw="overlap", pols=(-1, -2), pc="sidA"),
    "blmaj": dict(ants="cross", nt=2, nf=4, layout="bl", spw="two_eqw", pols=(-5, -7),
                  pc="drift"),
    "desc": dict(ants="two", nt=2, nf=4, spw="one_desc", pols=(-5, -6), pc="sidB"),
    "meta": dict(ants="two", nt=2, nf=4, pols=(-5, -6), meta=True, spw="two_eqw"),
    "flexpol": dict(ants="two", nt=2, nf=2, pols=(-5, -6), flex=True),
    "c64": dict(ants="two", nt=2, nf=3, pols=(-5, -6), dtype="complex64"),
}
_cache = {}


def dataset(name):
    if name not in _cache:
        kw = dict(DS[name])
        flex = kw.pop("flex", False)
        if "dtype" in kw:
            kw["dtype"] = np.dtype(kw["dtype"])
        uv = gen.uvd(**kw)
        if flex:
            uv.convert_to_flex_pol()
        _cache[name] = uv
    return _cache[name].copy()


def units(n, k):
    """split range(n) into k near-equal interleaved units"""
    return [list(range(i, n, k)) for i in range(k)]


def permute(uv, ob, of, op):
    """Reorder the axes of an object by direct assignment (no library method)."""
    def perm(n, how):
        x = np.arange(n)
        if how == 0:
            return x
        if how == 1:
            return x[::-1]
        return np.roll(x, 1)

    b, f, p = perm(uv.Nblts, ob), perm(uv.Nfreqs, of), perm(uv.Npols, op)
    if of == 2:  # swap the windows and roll the channels inside each
        f = np.concatenate(
            [
                np.roll(np.nonzero(uv.flex_spw_id_array == s)[0], 1)
                for s in list(dict.fromkeys(uv.flex_spw_id_array))[::-1]
            ]
        )
    if ob:
        for n in BLT + DATA:
            v = getattr(uv, n)
            if v is not None:
                setattr(uv, n, v[b])
        uv.blt_order = None
    if of:
        for n in ["freq_array", "channel_width", "flex_spw_id_array"]:
            setattr(uv, n, getattr(uv, n)[f])
        for n in DATA:
            if getattr(uv, n) is not None:
                setattr(uv, n, getattr(uv, n)[:, f])
        if uv.eq_coeffs is not None:
            uv.eq_coeffs = uv.eq_coeffs[:, f]
    if op:
        uv.polarization_array = uv.polarization_array[p]
        for n in DATA:
            if getattr(uv, n) is not None:
                setattr(uv, n, getattr(uv, n)[:, :, p])
    uv.set_rectangularity(force=True)
    return uv


def piece(base, b=None, f=None, p=None, order=(0, 0, 0)):
    uv = base.copy()
    kw = {}
    if b is not None:
        kw["blt_inds"] = sorted(b)
    if f is not None:
        kw["freq_chans"] = sorted(f)
    if kw:
        uv.select(run_check=False, **kw)
    if p is not None:
        pols = [int(base.polarization_array[i]) for i in sorted(p)]
        uv.select(polarizations=pols, run_check=False)
    return permute(uv, *order)


# ------------------------------------------------------------------ label model
class Cells:
    """Cells keyed by labels; the oracle for a combined object."""

    def __init__(self, uv):
        m = UVModel(uv)
        c = m.c
        self.n = uv.Nblts
        self.bl = [
            (round(float(t), 9), int(a), int(b))
            for t, a, b in zip(c["time_array"], c["ant_1_array"], c["ant_2_array"])
        ]
        self.fr = [
            (int(s), float(f)) for s, f in zip(c["flex_spw_id_array"], c["freq_array"])
        ]
        self.po = [int(x) for x in c["polarization_array"]]
        self.rows = {}
        for i, k in enumerate(self.bl):
            r = {}
            for n in BLT:
                if n == "phase_center_id_array":
                    pid = c[n][i]
                    if pid not in m.cat:
                        raise Violation(f"phase center id {pid} not in catalog")
                    r[n] = pc_canon(m.cat[pid])
                elif c[n] is not None:
                    r[n] = c[n][i]
                else:
                    r[n] = None
            self.rows[k] = r
        self.chan = {}
        for i, k in enumerate(self.fr):
            eq = c["eq_coeffs"]
            self.chan[k] = (
                float(c["channel_width"][i]),
                None if eq is None else tuple(eq[:, i].tolist()),
            )
        self.win = {}
        for i, s in enumerate(m.spw):
            self.win[int(s)] = None if m.fpol is None else int(np.asarray(m.fpol)[i])
        self.data = None
        if c["data_array"] is not None:
            self.data = {}
            d, fl, ns = c["data_array"], c["flag_array"], c["nsample_array"]
            for i, x in enumerate(self.bl):
                for j, y in enumerate(self.fr):
                    for k, z in enumerate(self.po):
                        self.data[x, y, z] = (d[i, j, k], bool(fl[i, j, k]), ns[i, j, k])
        self.m = m
        self.dtypes = tuple(None if c[n] is None else c[n].dtype for n in DATA)

    def union(self, other):
        out = Cells.__new__(Cells)
        out.rows = {**self.rows, **{k: v for k, v in other.rows.items() if k not in self.rows}}
        out.chan = {**self.chan, **other.chan}
        out.win = {**self.win, **other.win}
        out.po = list(dict.fromkeys(self.po + other.po))
        out.m = self.m
        out.dtypes = self.dtypes
        if self.data is None:
            out.data = None
        else:
            out.data = {**self.data, **other.data}
        return out


def check_cells(exp, uv, what):
    require(len(set(uv.polarization_array.tolist())) == uv.Npols, "repeated pols")
    got = Cells(uv)
    for nm, a, b in [
        ("baseline-times", set(exp.rows), got.bl),
        ("channels", set(exp.chan), got.fr),
        ("polarizations", set(exp.po), got.po),
    ]:
        require(len(b) == len(set(b)), "%s: repeated %s" % (what, nm))
        require(set(b) == a, "%s: %s are not the union" % (what, nm))
    for k, r in exp.rows.items():
        for n in r:
            if not same(r[n], got.rows[k][n]):
                raise Violation(
                    f"{what}: {n} of row {k}: expected {r[n]} got {got.rows[k][n]}"
                )
    for k, v in exp.chan.items():
        require(v == got.chan[k], f"{what}: channel {k}: {v} != {got.chan[k]}")
    require(exp.win == got.win, f"{what}: windows {exp.win} != {got.win}")
    if exp.data is None:
        require(got.data is None, f"{what}: data appeared")
    else:
        for k, v in got.data.items():
            e = exp.data.get(k, (0.0, True, 0.0))
            if v[0] != e[0] or v[1] != e[1] or v[2] != e[2]:
                raise Violation(f"{what}: cell {k}: expected {e} got {v}")
    for nm in ("ant", "tel", "g"):
        a, b = getattr(exp.m, nm), getattr(got.m, nm)
        for k in a:
            require(same(a[k], b[k]), f"{what}: {k} changed: {a[k]} -> {b[k]}")
    check_valid(uv, what)
    c = got.m.counts()
    for k in c:
        require(getattr(uv, k) == c[k], f"{what}: {k}={getattr(uv, k)} not {c[k]}")
    return got


def subs(n):
    return [
        list(c) for r in range(1, n + 1) for c in itertools.combinations(range(n), r)
    ]


def partitions(xs, kmax):
    if not xs:
        yield []
        return
    first, rest = xs[0], xs[1:]
    for part in partitions(rest, kmax):
        if len(part) < kmax:
            yield [[first]] + part
        for i in range(len(part)):
            yield part[:i] + [[first] + part[i]] + part[i + 1 :]


ORD = [(0, 0, 0), (1, 1, 1), (2, 0, 1), (0, 2, 1), (1, 2, 0), (2, 1, 0)]


def cases(tier):
    out = []
    th = tier != "quick"
    # A: ordered pairs of boxes
    for di, name in enumerate(DS):
        nb, nf, np_ = 3, 2, 2
        if name == "flexpol":
            np_ = 1
        if th:
            nf = 3
        boxes = list(itertools.product(subs(nb), subs(nf), subs(np_)))
        for i, (x, y) in enumerate(itertools.product(boxes, boxes)):
            dis = any(not set(a) & set(b) for a, b in zip(x, y))
            if not th:
                if not dis and i % 23:
                    continue
                # every disjoint pair on the plain data set, every 7th elsewhere
                if dis and name != "plain" and (i + di) % 7:
                    continue
            out.append(["box", name, [nb, nf, np_], x, y, [ORD[i % 6], ORD[(i // 6) % 6]], i % 3])
    # B: partitions
    for di, name in enumerate(DS):
        for ax in ("blt", "freq", "pol"):
            n = {"blt": 4, "freq": 4, "pol": 4}[ax]
            if ax == "pol":
                n = min(4, len(DS[name]["pols"]))
                if name == "flexpol":
                    continue
            if ax == "freq" and name == "c64":
                n = 3
            k = 0
            for part in partitions(list(range(n)), 4):
                if len(part) < 2:
                    continue
                for perm in itertools.permutations(part):
                    k += 1
                    for how in ("left", "right", "iadd", "concat", "concat_ip"):
                        if not th and (k + len(how) + di) % 7:
                            continue
                        out.append(["part", name, ax, n, perm, how])
    # C: phase-centre catalogs
    pcs = ["unproj", "sidA", "sidB", "drift", "ephem", "multi", "mixed", "unused", "sidA3",
           "clash"]
    for a, b in itertools.product(pcs, pcs):
        for how in ("left", "concat", "iadd"):
            out.append(["pc", a, b, None, how])
        for c in pcs[::3]:
            out.append(["pc", a, b, c, "concat"])
            out.append(["pc", a, b, c, "left"])
    # D: refusals
    for what in ("vis_units", "telescope", "x_orientation", "antpos", "lst", "inttime",
                 "uvw", "chwidth", "app_ra", "flexmix", "flexpolmix", "type"):
        for how in ("add", "iadd"):
            out.append(["refuse", what, how])
    for what in NEAR:
        for how, pos, x, axis, ords in itertools.product(("add", "iadd"), ("first", "last"), (0.4, 5), "fp", ((0, 0, 0), (1, 0, 0))):
            if what == "channel_width" and axis == "f":
                axis = "b"
            out.append(["near", what, how, pos, x, axis, ords])
    for what in ("empty_first", "empty_second", "both_valid", "partial_zero",
                 "zero_unflagged"):
        for how in ("add", "iadd"):
            out.append(["overwrite", what, how])
    return out


def fold(parts, how, axis=None):
    """Combine; return the result. Operands that must not change are checked."""
    frs = [Frozen(p) for p in parts]
    if how == "left":
        acc = parts[0]
        for p in parts[1:]:
            acc = acc + p
        for fr, p in zip(frs, parts):
            fr.check(p, "operand of +")
        return acc
    if how == "right":
        acc = parts[-1]
        for p in parts[-2::-1]:
            acc = p + acc
        for fr, p in zip(frs, parts):
            fr.check(p, "operand of +")
        return acc
    if how == "iadd":
        acc = parts[0]
        acc0 = acc
        for p in parts[1:]:
            acc += p
        require(acc is acc0, "+= returned another object")
        for fr, p in zip(frs[1:], parts[1:]):
            fr.check(p, "right operand of +=")
        return acc
    ax = {"blt": "blt", "freq": "freq", "pol": "polarization"}[axis]
    other = parts[1] if len(parts) == 2 else parts[1:]
    if how == "concat":
        r = parts[0].fast_concat(other, ax)
        frs[0].check(parts[0], "first operand of fast_concat(inplace=False)")
        for fr, p in zip(frs[1:], parts[1:]):
            fr.check(p, "operand of fast_concat")
        return r
    require(parts[0].fast_concat(other, ax, inplace=True) is None, "returned value")
    for fr, p in zip(frs[1:], parts[1:]):
        fr.check(p, "operand of fast_concat")
    return parts[0]


def run(case, ctx):
    kind = case[0]
    if kind == "box":
        _, name, (nb, nf, np_), x, y, ords, meth = case
        base = dataset(name)
        ub, uf, up = units(base.Nblts, nb), units(base.Nfreqs, nf), units(base.Npols, np_)
        def mk(box, o):
            b = [i for u in box[0] for i in ub[u]]
            f = [i for u in box[1] for i in uf[u]]
            p = [i for u in box[2] for i in up[u]]
            return piece(base, b, f, p, o)
        A, B = mk(x, ords[0]), mk(y, ords[1])
        ca, cb = Cells(A), Cells(B)
        meta = base.data_array is None
        dis = any(not set(a) & set(b) for a, b in zip(x, y))
        ctx.step()
        if not dis and not meta:
            fa, fb = Frozen(A), Frozen(B)
            try:
                A + B
            except ValueError:
                fa.check(A, "refused +")
                fb.check(B, "refused +")
                ctx.outcome("refused overlap")
                ctx.trace()
                return
            raise Violation("objects with overlapping valid data were combined")
        res = fold([A, B], ["left", "iadd", "right"][meth])
        if meth == 2:
            ca, cb = (ca, cb)
        g = check_cells(ca.union(cb), res, f"{x}+{y}")
        ctx.state(g.m.digest())
        ctx.trace()
    elif kind == "part":
        _, name, ax, n, parts, how = case
        base = dataset(name)
        N = {"blt": base.Nblts, "freq": base.Nfreqs, "pol": base.Npols}[ax]
        u = units(N, n)
        objs = []
        for i, part in enumerate(parts):
            idx = [j for k in part for j in u[k]]
            kw = {{"blt": "b", "freq": "f", "pol": "p"}[ax]: idx}
            objs.append(piece(base, **kw))
            objs[-1].history = f"mc test object 0. part {i}."
        if name == "flexpol" and any(
            o.flex_spw_polarization_array is None for o in objs
        ):
            ctx.outcome("n/a: a piece has one polarization, not flexible any more")
            return
        cs = [Cells(o) for o in objs]
        exp = cs[0]
        for c in cs[1:]:
            exp = exp.union(c)
        ctx.step(len(parts) - 1)
        if how.startswith("concat") and ax == "freq":
            w = [z[0] for c in cs for z in c.fr]
            runs = 1 + sum(a != b for a, b in zip(w, w[1:]))
            if runs > len(set(w)):
                # windows would end up interspersed: the library refuses that
                try:
                    fold(objs, how, ax)
                except ValueError:
                    ctx.outcome("refused: windows interspersed")
                    ctx.trace()
                    return
                raise Violation("fast_concat interspersed the windows")
        res = fold(objs, how, ax)
        g = check_cells(exp, res, f"{how} {parts}")
        if how.startswith("concat"):
            # fast_concat keeps the order in which the pieces were given
            for nm in ("bl", "fr", "po"):
                want = []
                for c in cs:
                    want += [z for z in getattr(c, nm) if z not in want]
                require(getattr(g, nm) == want, f"fast_concat changed the {nm} order")
        ctx.state(g.m.digest())
        ctx.trace()
    elif kind == "pc":
        run_pc(case, ctx)
    elif kind == "refuse":
        run_refuse(case, ctx)
    elif kind == "near":
        run_near(case, ctx)
    elif kind == "overwrite":
        run_overwrite(case, ctx)


def pc_obj(pc, i):
    kw = dict(ants="two", nt=2, nf=2, pols=(-5,), t0=gen.JD0 + i * 5 * gen.DT, seed=i)
    if pc == "sidA3":  # the same source under another id
        uv = gen.uvd(pc="sidA", **kw)
        uv.phase_center_catalog = {9: uv.phase_center_catalog[2]}
        uv.phase_center_id_array[:] = 9
        return uv
    if pc == "clash":  # another source under the same name and id
        uv = gen.uvd(pc="sidA", **kw)
        uv.phase_center_catalog[2]["cat_lon"] = 1.5
        return uv
    return gen.uvd(pc=pc, **kw)


def run_pc(case, ctx):
    _, a, b, c, how = case
    objs = [pc_obj(x, i) for i, x in enumerate((a, b, c)) if x]
    cs = [Cells(o) for o in objs]
    exp = cs[0]
    for x in cs[1:]:
        exp = exp.union(x)
    ctx.step()
    res = fold(objs, how, "blt")
    # a name clash may be resolved by renaming the phase centre, never its position
    got = Cells(res)
    for k, r in exp.rows.items():
        e, g = dict(r["phase_center_id_array"]), dict(got.rows[k]["phase_center_id_array"])
        ne, ng = e.pop("cat_name"), g.pop("cat_name")
        require(e == g, f"phase center of row {k}: {e} became {g}")
        require(ng.startswith(ne) or "clash" in (a, b, c), f"source {ne} renamed {ng}")
        r["phase_center_id_array"] = got.rows[k]["phase_center_id_array"]
    check_cells(exp, res, f"pc {a} {b} {c} {how}")
    seen = {}
    for pid, ent in res.phase_center_catalog.items():
        key = pc_canon({k: v for k, v in ent.items()})
        require(key not in seen, "the merged catalog repeats an entry")
        seen[key] = pid
    ctx.state(got.m.digest())
    ctx.trace()
    ctx.outcome(sorted(res.phase_center_catalog))


def run_refuse(case, ctx):
    _, what, how = case
    base = gen.uvd(ants="two", nt=2, nf=4, pols=(-5, -6), pc="sidA")
    A, B = piece(base, b=[0, 1]), piece(base, b=[2, 3])
    if what == "vis_units":
        B.vis_units = "uncalib"
    elif what == "telescope":
        B.telescope.name = "other"
    elif what == "x_orientation":
        B.telescope.set_feeds_from_x_orientation = None
        B = gen.uvd(ants="two", nt=2, nf=4, pols=(-5, -6), pc="sidA", x_orient="north")
        B.select(blt_inds=[2, 3])
    elif what == "antpos":
        B.telescope.antenna_positions = B.telescope.antenna_positions.copy()
        B.telescope.antenna_positions[0, 0] += 0.5
        B.check = lambda **k: True
    elif what in ("lst", "inttime", "uvw", "app_ra"):
        A, B = piece(base, p=[0]), piece(base, p=[1])
        B.check = lambda **k: True
        if what == "lst":
            B.lst_array = B.lst_array + 0.01
        elif what == "inttime":
            B.integration_time = B.integration_time * 2
        elif what == "uvw":
            B.uvw_array = B.uvw_array + 2.5
        else:
            B.phase_center_app_ra = B.phase_center_app_ra + 0.01
    elif what == "chwidth":
        B.channel_width = B.channel_width / 2
    elif what == "flexmix":
        B.convert_to_flex_pol()
    elif what == "flexpolmix":
        A.convert_to_flex_pol()
        B.convert_to_flex_pol()
        B.flex_spw_polarization_array = B.flex_spw_polarization_array[::-1].copy()
    elif what == "type":
        B = object()
    fa = Frozen(A)
    ctx.step()
    try:
        if how == "add":
            A + B
        else:
            A += B
    except (ValueError, AttributeError):
        fa.check(A, f"refused {how}")
        ctx.outcome(what)
        ctx.state(what)
        ctx.trace()
        return
    raise Violation(f"objects with different {what} were combined")


NEAR = ("lst_array", "integration_time", "uvw_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "channel_width")


def run_near(case, ctx):
    """Shared rows (channels) whose metadata differ in one place by a little less or a little more than the tolerance."""
    _, what, how, pos, x, axis, ords = case
    base = gen.uvd(ants="three", nt=2, nf=4, pols=(-5, -6), pc="sidA")
    n = base.Nblts
    kw = {"f": ({"f": [0, 1]}, {"f": [2, 3]}), "p": ({"p": [0]}, {"p": [1]}), "b": ({"b": range(n // 2)}, {"b": range(n // 2, n)})}[axis]
    A, B = piece(base, **kw[0]), piece(base, order=ords, **kw[1])
    B.check = lambda **k: True
    tol = getattr(UVData(), "_" + what).tols[1]
    v = getattr(B, what).copy()
    i = {"first": 0, "last": -1}[pos]
    if v.ndim == 2:
        k = int(np.argmax(np.abs(v).max(axis=1)))  # the longest one, and its largest coordinate
        v[k, int(np.argmax(np.abs(v[k])))] += tol * x
        require(np.abs(v).max() > 20, "case: uvw")
    else:
        v[i] += tol * x
    setattr(B, what, v)
    fa, fb = Frozen(A), Frozen(B)
    ctx.step()
    try:
        if how == "add":
            r = A.__add__(B, run_check=False)
        else:
            r = A.copy()
            r.__iadd__(B, run_check=False)
    except ValueError:
        r = None
    fa.check(A, "combine")
    fb.check(B, "combine")
    if x > 1:
        require(r is None, f"objects whose {what} differ by {x} times the tolerance were combined")
    else:
        require(r is not None, f"objects whose {what} agree within the tolerance were refused")
        require(r.Nblts == base.Nblts and r.Nfreqs == base.Nfreqs and r.Npols == base.Npols, "shape")
    ctx.outcome([what, x])
    ctx.state(f"{what} {x} {pos} {axis}")
    ctx.trace()


def run_overwrite(case, ctx):
    _, what, how = case
    base = gen.uvd(ants="two", nt=2, nf=4, pols=(-5, -6))
    A, B = piece(base, b=[0, 1, 2]), piece(base, b=[1, 2, 3], order=(1, 0, 0))
    ok = what == "empty_first"
    tgt = {"empty_first": A, "empty_second": B}.get(what)
    def blank(uv, rows, flag=True):
        uv.data_array[rows] = 0
        uv.nsample_array[rows] = 0
        uv.flag_array[rows] = flag
    if what == "empty_first":
        blank(A, [1, 2])
    elif what == "empty_second":
        blank(B, [1, 2])
    elif what == "partial_zero":
        blank(A, [1])
    elif what == "zero_unflagged":
        blank(A, [1, 2], False)
    ca, cb = Cells(A), Cells(B)
    fa, fb = Frozen(A), Frozen(B)
    ctx.step()
    try:
        if how == "add":
            res = A + B
        else:
            res = A
            res += B
    except ValueError:
        require(not ok, "an all-zero fully flagged overlap was not overwritten")
        fa.check(A, "refused")
        fb.check(B, "refused")
        ctx.outcome("refused " + what)
        ctx.trace()
        return
    require(ok, f"{what}: overlapping valid data were combined")
    fb.check(B, "right operand")
    g = check_cells(ca.union(cb), res, what)
    ctx.state(g.m.digest())
    ctx.trace()
