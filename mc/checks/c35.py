"""C35: the row order and rectangularity found from the rows are true of them, for every sequence of rows."""

import itertools
import math

import numpy as np
from pyuvdata import UVData, utils

from mc import gen, io
from mc.core import Violation, digest, require
from mc.model import Frozen

ID = "C35"
BOUNDS = (
    "every sequence of 1 to 5 (6 thorough) different (antenna pair, time) rows over 4 sets of up to 4 antenna pairs (autos and conjugates) "
    "and 1 to 3 times through determine_blt_order and determine_rectangularity, with and without the known order; on real UVData objects "
    "every permutation of every set of up to 4 (5 thorough) rows of 4 data sets through determine_blt_order and set_rectangularity (forced "
    "or not, already set or not), and after every reorder_blts() order x minor order x autos first x conjugation, followed by every "
    "selection of rows of a small set."
)
ASSUMPTIONS = ["a row (antenna pair and time) occurs once in an object"]

PAIRS = {
    "std": [(0, 0), (0, 1), (1, 1), (1, 0)],
    "cross": [(1, 0), (0, 2), (2, 1)],
    "autos": [(2, 2), (0, 0), (1, 1)],
    "wide": [(0, 7), (3, 7), (7, 0), (3, 12)],
}
ORD = ("time", "baseline", "ant1", "ant2")


def cases(tier):
    top = 5 if tier == "quick" else 6
    out = []
    for k, ps in PAIRS.items():
        for npair in range(1, len(ps) + 1):
            for nt in (1, 2, 3):
                m = npair * nt
                for n in range(1, top + 1):
                    if n > m:
                        continue
                    c = math.perm(m, n)
                    if c > 20000 and tier == "quick" and k != "std":
                        continue
                    parts = max(1, c // 8000)
                    for q in range(parts):
                        out.append(["seq", k, npair, nt, n, q, parts])
                # complete sets, in every order there is
                if m <= (6 if tier == "quick" else 8) and m > top:
                    parts = max(1, math.factorial(m) // 8000)
                    for q in range(parts):
                        out.append(["seq", k, npair, nt, m, q, parts])
    for k in ("two", "three", "autos", "conj"):
        for n in range(1, 5 if tier == "quick" else 6):
            out.append(["obj", k, n])
    for fmt in ("uvh5", "uvfits"):
        for o in (["time", "baseline"], ["baseline", "time"], ["time"], ["baseline"], ["ant1"], ["ant2"], ["time", "ant2"], ["ant2", "time"], ["time", "ant1"]):
            out.append(["files", fmt, o])
    for k in ("two", "three", "autos", "conj", "sorted"):
        for nt in (1, 2, 3):
            for o in ORD + ("bda",):
                for mo in (None,) + ORD:
                    if o == "bda" and mo is not None:
                        continue
                    out.append(["reorder", k, nt, o, mo])
    return out


def key(o, r):
    d = {"time": r[1], "baseline": r[2], "ant1": r[0][0], "ant2": r[0][1]}
    return tuple(d[x] for x in o)


def holds(o, rows):
    k = [key(o, r) for r in rows]
    return all(x <= y for x, y in zip(k, k[1:]))


def rectangular(rows):
    """(is rectangular, time is the faster axis or None when either is right)"""
    t = [r[1] for r in rows]
    b = [r[0] for r in rows]
    nt, nb = len(set(t)), len(set(b))
    if len(rows) != nt * nb:
        return False, False
    if nt == 1 and nb == 1:
        return True, None
    # time slowest: blocks of one time each with the baselines in the same order
    slow = all(t[i] == t[i - i % nb] and b[i] == b[i % nb] for i in range(len(rows)))
    fast = all(b[i] == b[i - i % nt] and t[i] == t[i % nt] for i in range(len(rows)))
    if fast and not (slow and nb > 1 and nt == 1):
        return True, True
    return (True, False) if slow else (False, False)


def verdict(rows, o, r, what):
    """Check a found order and rectangularity."""
    if o is None:
        require(not any(holds((x,), rows) for x in ORD), "%s: no order found for %s", what, rows)
    else:
        require(all(x in ORD for x in o) and holds(o, rows), "%s: %s is not the order of %s", what, o, rows)
        e = rectangular(rows)
        nt, nb = len({q[1] for q in rows}), len({q[0] for q in rows})
        if e[0] and nt > 1 and nb > 1:
            # complete and sorted data gets a full order
            for f in (("time", "baseline"), ("baseline", "time")):
                if holds(f, rows):
                    require(tuple(o) == f, "%s: %s for complete data in %s order %s", what, o, f, rows)
    if r is not None:
        e = rectangular(rows)
        require(bool(r[0]) is e[0], "%s: rectangular %s for %s", what, r[0], rows)
        if e[1] is not None:
            require(bool(r[1]) is e[1], "%s: time axis faster %s for %s", what, r[1], rows)


def seq(case, ctx):
    _, k, npair, nt, n, q, parts = case
    ps = PAIRS[k][:npair]
    num = {p: int(utils.antnums_to_baseline(*p, Nants_telescope=20)) for p in ps}
    pool = [(p, 2459000.25 + t / 64, num[p]) for p in ps for t in range(nt)]
    c = 0
    for i, rows in enumerate(itertools.permutations(pool, n)):
        if i % parts != q:
            continue
        t = np.array([r[1] for r in rows])
        a = np.array([r[0][0] for r in rows])
        b = np.array([r[0][1] for r in rows])
        bl = np.array([r[2] for r in rows])
        nb, ntm = len(set(bl.tolist())), len(set(t.tolist()))
        o = utils.bltaxis.determine_blt_order(time_array=t, ant_1_array=a, ant_2_array=b, baseline_array=bl, Nbls=nb, Ntimes=ntm)
        r = utils.bltaxis.determine_rectangularity(time_array=t, baseline_array=bl, nbls=nb, ntimes=ntm)
        verdict(rows, o, r, "rows")
        require(t.shape == (n,) and [tuple(x) for x in zip(a.tolist(), b.tolist())] == [x[0] for x in rows] and t.tolist() == [x[1] for x in rows], "arguments changed")
        c += 2
    ctx.step(c)
    ctx.state(digest(*case))
    ctx.trace()


def rows_of(u):
    return list(zip(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()), u.time_array.tolist(), u.baseline_array.tolist()))


def obj(case, ctx):
    _, k, n = case
    base = gen.uvd(ants=k, nt=2, nf=1, pols=(-5,), extras=False, meta=True)
    pick = range(min(base.Nblts, 6 if n < 4 else 5))
    for inds in itertools.combinations(pick, n):
        s = base.select(blt_inds=list(inds), inplace=False)
        for perm in itertools.permutations(range(n)):
            u = s.copy()
            u.reorder_blts(order=np.array(perm), run_check=False)
            rows = rows_of(u)
            for known, force in ((None, True), (None, False), (True, True), (False, True), (True, False), (False, False)):
                v = u.copy()
                v.blt_order = None
                v.blts_are_rectangular = known
                v.time_axis_faster_than_bls = known
                before = Frozen(v)
                o = v.determine_blt_order()
                require(v.blt_order == o, "determine_blt_order() does not set what it returns")
                v.set_rectangularity(force=force)
                if not force:
                    # whatever was recorded is kept
                    require(known is None or v.blts_are_rectangular is known, "recorded rectangularity changed")
                    verdict(rows, o, None, "object")
                    if known is None and v.blts_are_rectangular is not None:
                        verdict(rows, o, (v.blts_are_rectangular, v.time_axis_faster_than_bls), "object")
                else:
                    verdict(rows, o, (v.blts_are_rectangular, v.time_axis_faster_than_bls), "object")
                    v.check(check_extra=True)
                w = v.copy()
                w.blt_order, w.blts_are_rectangular, w.time_axis_faster_than_bls = None, known, known
                w._blt_order.form = u._blt_order.form
                before.check(w, "anything else")
                ctx.step(2)
            # an order that is recorded is returned as it is
            v.blt_order = ("ant1",)
            require(v.determine_blt_order() == ("ant1",), "recorded order")
    ctx.state(digest(*case))
    ctx.trace()


def files(case, ctx):
    """Each order an object can have is written and read."""
    _, fmt, order = case
    us = [gen.uvd(ants=a, nt=2, nf=2, pols=(-5,), extras=False, pc="sidA") for a in (((0, 3), (12, 0)), ((0, 12), (0, 3)), ((3, 0), (12, 0)))]
    for u, perm in itertools.product(us, itertools.permutations(range(4))):
        v = u.copy()
        v.reorder_blts(order=np.array(perm))
        v.blt_order = None
        o = v.determine_blt_order()
        if o is None or list(o) != order:
            continue
        p = io.path("." + fmt)
        getattr(v, "write_" + fmt)(p)
        r = UVData.from_file(p)
        require(tuple(r.blt_order) == tuple(o), "%s: order %s read as %s", fmt, o, r.blt_order)
        require([x[:2] for x in rows_of(r)] == [x[:2] for x in rows_of(v)], "%s rows", fmt)
        r.check()
        io.rm(p)
        ctx.step()
        break
    else:
        raise Violation(f"no rows with order {order}")
    ctx.trace()


def reorder(case, ctx):
    _, k, nt, o, mo = case
    for autos in (False, True):
        for conj in (None, "ant1<ant2", "ant2<ant1"):
            u = gen.uvd(ants=k, nt=nt, nf=1, pols=(-5, -6, -7, -8), extras=False, layout="shuffle")
            if conj == "ant1<ant2" and len({frozenset(p) for p in u.get_antpairs()}) < u.Nbls:
                continue
            try:
                u.reorder_blts(o, minor_order=mo, autos_first=autos, conj_convention=conj)
            except ValueError:
                require(o == "bda" and (mo is not None or autos) or o == "baseline" and mo not in (None, "time", "baseline"), "reorder_blts(%s, %s) refused", o, mo)
                continue
            rows = rows_of(u)
            rec = u.blt_order
            if rec is not None and rec != ("bda",) and not autos:
                require(holds(rec, rows), "reorder_blts(%s, %s) records %s for %s", o, mo, rec, rows)
            verdict(rows, _found(u), (u.blts_are_rectangular, u.time_axis_faster_than_bls) if u.blts_are_rectangular is not None else None, f"after reorder_blts({o}, {mo}, {autos})")
            for n in range(1, min(u.Nblts, 6) + 1):
                for inds in ([*range(n)], [*range(0, u.Nblts, n)], [*range(u.Nblts - n, u.Nblts)]):
                    v = u.select(blt_inds=inds, inplace=False)
                    require(v.blts_are_rectangular is not None, "rectangularity lost")
                    verdict(rows_of(v), _found(v), (v.blts_are_rectangular, v.time_axis_faster_than_bls), f"after reorder_blts({o}, {mo}, {autos}) and select({inds})")
                    ctx.step()
            ctx.step(2)
    ctx.state(digest(*case))
    ctx.trace()


def _found(u):
    v = u.copy(metadata_only=True)
    v.blt_order = None
    return v.determine_blt_order()


def run(case, ctx):
    {"seq": seq, "obj": obj, "reorder": reorder, "files": files}[case[0]](case, ctx)


_ = UVData
