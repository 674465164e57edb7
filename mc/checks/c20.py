"""C20: combining calibration objects (+, +=, fast_concat).

A labelled calibration object is cut into blocks, the blocks are put in other orders and combined;
the oracle is the union of the cell dictionaries and of the label dictionaries of the
operands."""

import itertools

import numpy as np

from mc import cal
from mc.cal import CalImg, structure
from mc.core import Violation, require
from mc.model import Frozen

ID = "C20"
BOUNDS = (
    "Labelled UVCal objects (gain with one, two, reversed and overlapping windows, wide-band gain, delay, flexible "
    "Jones, metadata only, time ranges, reference antennas, scan numbers, phase centers with conflicting "
    "identifiers, with and without quality and total quality): every pair of blocks cut by {all, halves, alternating} on up to "
    "two axes per operand, with no common cell, each operand in original, reversed and rotated axis "
    "order, by +, += and in both operand orders; the same with a common cell (must be refused, operands unchanged); "
    "every three-block sum in each order; fast_concat along every axis of 2 and 3 blocks in every order; one-sided "
    "quality arrays; every incompatible attribute (refused, operands unchanged)."
)
ASSUMPTIONS = ["select and reorder (C19) are used to make the blocks"]

DS = {
    "gain": dict(tq=True, ref=True, scan=True, pc=True, nt=4, ants=(3, 0, 12, 7)),
    "two": dict(spw="two", nf=4, tq=True, torder=(2, 0, 3, 1), nt=4, ants=(12, 3, 0), jones=(-7, -5, -8)),
    "rev": dict(spw="two_rev", nf=4, ref=True, quality=False, tq=True, jones=(-6, -5), nt=3),
    "over": dict(spw="overlap", nf=4, jones=(-1, -2), pc=True, nt=3, style="sky", ants=(0, 7, 3)),
    "range": dict(trange=True, nf=3, nt=4, scan=True, pc=True, ants=(0, 3, 7)),
    "delay": dict(kind="delay", spw="three", nt=3, tq=True, ref=True, scan=True),
    "wide": dict(kind="wide", spw="two_rev", torder=(1, 2, 0), tq=True, quality=False),
    "meta": dict(meta=True, spw="two", nf=4, ref=True, scan=True, pc=True),
    "flex": dict(flex=True, spw="one", nf=3, jones=(-6, -5), nt=3, ants=(0, 3, 7)),
    "flexw": dict(flex=True, kind="wide", spw="one", jones=(-6, -5), nt=3, ants=(0, 3, 7)),
}
QUICK = ("gain", "two", "rev", "over", "range", "delay", "wide", "meta", "flex", "flexw")
CUTS = ("lo", "hi", "even", "odd")
DISJ = {("lo", "hi"), ("hi", "lo"), ("even", "odd"), ("odd", "even")}
PERMS = ("id", "rev", "rot")


def cut(n, c):
    r = list(range(n))
    if c == "all":
        return r
    h = n // 2
    return {"lo": r[:h], "hi": r[h:], "even": r[::2], "odd": r[1::2]}[c]


def axlen(c, ax):
    return CalImg(c).n("s" if ax == "f" and c.wide_band else ax)


def block(d, spec):
    """spec: {axis: cut}; by select on the original object."""
    c = cal.build(DS[d])
    kw = {}
    for ax, cc in sorted(spec.items()):
        if cc == "all":
            continue
        i = cut(axlen(c, ax), cc)
        if ax == "a":
            kw["antenna_nums"] = c.ant_array[i]
        elif ax == "t":
            if c.time_array is not None:
                kw["times"] = c.time_array[i]
            else:
                kw["times"] = c.time_range[i].mean(axis=1)
        elif ax == "j":
            kw["jones"] = c.jones_array[i]
        elif c.wide_band:
            kw["spws"] = c.spw_array[i]
        else:
            kw["freq_chans"] = np.array(i)
    if kw:
        c.select(**kw)
    return c


def shuffle(c, p, flex):
    if p == "id":
        return c

    def f(n):
        r = list(range(n))
        return r[::-1] if p == "rev" else r[1:] + r[:1]

    c.reorder_antennas(np.array(f(c.Nants_data)))
    c.reorder_times(np.array(f(c.Ntimes)))
    if not flex:
        c.reorder_jones(np.array(f(c.Njones)))
    if c.wide_band:
        c.reorder_freqs(spw_order=np.array(f(c.Nspws)))
    else:
        # keep windows contiguous: permute the windows and reverse inside
        order = []
        ids = c.flex_spw_id_array.tolist()
        for s in f(c.Nspws):
            pos = [i for i, x in enumerate(ids) if x == c.spw_array[s]]
            order += pos[::-1] if p == "rev" else pos[1:] + pos[:1]
        c.reorder_freqs(channel_order=np.array(order))
    return c


def specs():
    out = []
    axes = "aftj"
    for ax in axes:
        for c in CUTS:
            out.append({ax: c})
    for x, y in itertools.combinations(axes, 2):
        for c1 in ("lo", "odd"):
            for c2 in ("hi", "even"):
                out.append({x: c1, y: c2})
    return out


def relation(a, b):
    """'disjoint', or 'overlap' for the two specs."""
    for ax in set(a) & set(b):
        if (a[ax], b[ax]) in DISJ:
            return "disjoint"
    return "overlap"


def cases(tier):
    out = []
    sp = specs() + [{}]
    for d in QUICK:
        for x, y in itertools.product(sp, sp):
            rel = relation(x, y)
            nontriv = len(x) + len(y)
            if rel == "disjoint":
                for pa, pb in (("id", "id"), ("id", "rot"), ("rev", "id"), ("rot", "rev")):
                    if tier == "quick" and nontriv == 4 and (pa, pb) != ("id", "rot"):
                        continue
                    if tier == "quick" and nontriv == 3 and (pa, pb) not in (("id", "rot"), ("rot", "rev")):
                        continue
                    out.append(["add", d, x, y, pa, pb, 0])
                out.append(["add", d, x, y, "rev", "rot", 1])
            elif nontriv <= (2 if tier == "quick" else 4):
                out.append(["over", d, x, y])
        for ax in "aftj":
            # three blocks: lo / even-of-hi / odd-of-hi in any order of addition
            for o in itertools.permutations(range(3)):
                out.append(["three", d, ax, list(o), "id"])
                out.append(["three", d, ax, list(o), "rev"])
            for n in (2, 3):
                for o in itertools.permutations(range(n)):
                    for inpl in (0, 1):
                        out.append(["cat", d, ax, n, list(o), inpl])
            for miss in ("quality_array", "total_quality_array"):
                for who in (0, 1):
                    out.append(["one", d, ax, miss, who])
            out.append(["corner", d, ax])
        for k in BAD:
            for how in ("add", "cat_a", "cat_t", "cat_f", "cat_j"):
                out.append(["bad", d, k, how])
    if tier == "thorough":
        ex = []
        for d in QUICK:
            for x, y in itertools.product(sp, sp):
                if relation(x, y) == "disjoint":
                    for pa, pb in itertools.product(PERMS, PERMS):
                        for inpl in (0, 1):
                            ex.append(["add", d, x, y, pa, pb, inpl])
        seen = {repr(c) for c in out}
        out += [c for c in ex if repr(c) not in seen]
    return out


def union(ims):
    """Expected cells and labels of the combination."""
    cells, tq, lab = {}, {}, {"t": {}, "f": {}, "s": {}}
    for im in ims:
        for k, v in im.cells().items():
            cells[k] = v
        t = im.tqcells()
        if t is not None:
            tq.update(t)
        for ax, m in im.labels().items():
            lab[ax].update(m)
    return cells, tq, lab


def judge(ims, got, what, newants):
    cells, tq, lab = union(ims)
    keys = {}
    for nm, f in (("ant_array", "a"), ("jones_array", "j")):
        want = set()
        for im in ims:
            want |= set(im.arr[nm].tolist())
        have = got.arr[nm].tolist()
        require(len(have) == len(set(have)) and set(have) == want, "%s: %s is %s, expected %s", what, nm, have, sorted(want))
        keys[f] = want
    for nm, f in (("time_keys", "t"), ("freq_keys", "f")):
        want = set()
        for im in ims:
            want |= set(getattr(im, nm)())
        have = getattr(got, nm)()
        require(len(have) == len(set(have)) and set(have) == want, "%s: axis %s is %s, expected %s", what, f, have, sorted(want))
        keys[f] = want
    g = got.labels()
    for ax in g:
        require(set(g[ax]) == set(lab[ax]), "%s: labels %s %s expected %s", what, ax, list(g[ax]), list(lab[ax]))
        for k, v in lab[ax].items():
            require(g[ax][k] == v, "%s: labels of %s %s are %s, expected %s", what, ax, k, g[ax][k], v)
    for n in cal.SCAL:
        require(repr(got.scal[n]) == repr(ims[0].scal[n]), "%s: %s changed to %r", what, n, got.scal[n])
    require(got.tel == ims[0].tel, "%s: telescope changed", what)
    if got.arr["flag_array"] is None:
        require(all(im.arr["flag_array"] is None for im in ims), "%s: data arrays lost", what)
        return
    hasq = any(im.arr["quality_array"] is not None for im in ims)
    require((got.arr["quality_array"] is not None) == hasq, "%s: presence of quality_array", what)
    names = [n for n in cal.DATA]
    fi, qi = names.index("flag_array"), names.index("quality_array")
    for k, v in got.cells().items():
        w = cells.get(k)
        if w is None:
            require(bool(v[fi]), "%s: cell %s that no operand has is not flagged", what, k)
            for i in (0, 1, qi):
                require(v[i] is None or v[i] == 0, "%s: cell %s that no operand has is %s", what, k, v[i])
        else:
            w = list(w)
            if hasq and w[qi] is None:
                w[qi] = 0.0
            require(all((a is None and b is None) or a == b for a, b in zip(v, w)), "%s: cell %s is %s, expected %s", what, k, v, w)
    hastq = any(im.arr["total_quality_array"] is not None for im in ims) and not newants
    t = got.tqcells()
    require((t is not None) == hastq, "%s: presence of total_quality_array", what)
    if hastq:
        for k, v in t.items():
            ok = [c.tqcells()[k] for c in ims if c.arr["total_quality_array"] is not None and k in c.tqcells()] or [0.0]
            require(v in ok, "%s: total quality of %s is %s, expected %s", what, k, v, ok)


def reid(c):
    """Give the phase centers of an operand other identifiers."""
    if c.phase_center_catalog is None or c.Nphase != 2:
        return c
    c.phase_center_catalog = {1: c.phase_center_catalog[3], 3: c.phase_center_catalog[1]}
    c.phase_center_id_array = np.where(c.phase_center_id_array == 3, 1, 3)
    return c


def shared_range(ia, ib):
    """Objects that share a time range cannot be added (documented by the tests)."""
    return ia.arr["time_range"] is not None and bool(set(ia.time_keys()) & set(ib.time_keys()))


def do_add(a, b, inpl):
    if inpl:
        c = a.copy()
        fb = Frozen(b)
        c += b
        fb.check(b, "second operand of +=")
        return c
    fa, fb = Frozen(a), Frozen(b)
    c = a + b
    fa.check(a, "first operand of +")
    fb.check(b, "second operand of +")
    return c


def refused(f, objs, what):
    fr = [Frozen(o) for o in objs]
    try:
        f()
    except (ValueError, NotImplementedError):
        for x, o in zip(fr, objs):
            x.check(o, what + " (refused)")
        return
    raise Violation(f"{what}: expected a refusal")


def empty(d, spec):
    c = cal.build(DS[d])
    return any(len(cut(axlen(c, ax), cc)) == 0 for ax, cc in spec.items())


def flexj(d, *specs):
    return d.startswith("flex") and any("j" in s for s in specs)


def run_add(case, ctx):
    _, d, x, y, pa, pb, inpl = case
    if empty(d, x) or empty(d, y) or flexj(d, x, y):
        return
    flex = d.startswith("flex")
    a = shuffle(block(d, x), pa, flex)
    b = reid(shuffle(block(d, y), pb, flex))
    ia, ib = CalImg(a), CalImg(b)
    what = f"{x} + {y}"
    if shared_range(ia, ib):
        refused(lambda: a + b, (a, b), what)
        ctx.outcome("refused time range")
        ctx.trace()
        return
    c = do_add(a, b, inpl)
    ctx.step()
    got = structure(c, what)
    newants = bool(set(ib.arr["ant_array"].tolist()) - set(ia.arr["ant_array"].tolist()))
    judge([ia, ib], got, what, newants)
    ctx.state(got.key())
    ctx.trace()


def run_over(case, ctx):
    _, d, x, y = case
    if empty(d, x) or empty(d, y) or flexj(d, x, y):
        return
    a, b = block(d, x), block(d, y)
    ia, ib = CalImg(a), CalImg(b)
    if not (set(ia.cells()) & set(ib.cells())):
        return
    refused(lambda: a + b, (a, b), f"{x} + {y} (overlap)")
    refused(lambda: a.__iadd__(b), (a, b), f"{x} += {y} (overlap)")
    ctx.step(2)
    ctx.trace(2)


def three(d, ax):
    a = block(d, {ax: "lo"})
    c = cal.build(DS[d])
    hi = cut(axlen(c, ax), "hi")
    if len(hi) < 2 or axlen(a, ax) == 0:
        return None
    out = [a]
    for part in (hi[::2], hi[1::2]):
        b = cal.build(DS[d])
        if ax == "a":
            b.select(antenna_nums=b.ant_array[part])
        elif ax == "t":
            b.select(times=b.time_array[part] if b.time_array is not None else b.time_range[part].mean(axis=1))
        elif ax == "j":
            b.select(jones=b.jones_array[part])
        elif b.wide_band:
            b.select(spws=b.spw_array[part])
        else:
            b.select(freq_chans=np.array(part))
        out.append(b)
    return out


def run_three(case, ctx):
    _, d, ax, order, p = case
    if flexj(d, {ax: 1}):
        return
    parts = three(d, ax)
    if parts is None:
        return
    parts[1] = reid(parts[1])
    parts = [shuffle(parts[i], p, d.startswith("flex")) for i in order]
    ims = [CalImg(o) for o in parts]
    if any(shared_range(m, n) for m, n in itertools.combinations(ims, 2)):
        return
    fr = [Frozen(o) for o in parts]
    left = (parts[0] + parts[1]) + parts[2]
    right = parts[0] + (parts[1] + parts[2])
    ctx.step(4)
    for f, o in zip(fr, parts):
        f.check(o, "operand")
    for c, w in ((left, "(a+b)+c"), (right, "a+(b+c)")):
        got = structure(c, w)
        judge(ims, got, w, ax == "a")
        ctx.state(got.key())
    ctx.trace(2)


CATAX = {"a": "antenna", "t": "time", "j": "jones", "f": "freq"}


def catax(c, ax):
    return "spw" if ax == "f" and c.wide_band else CATAX[ax]


def run_cat(case, ctx):
    _, d, ax, n, order, inpl = case
    if flexj(d, {ax: 1}):
        return
    if n == 2:
        if empty(d, {ax: "lo"}) or empty(d, {ax: "hi"}):
            return
        parts = [block(d, {ax: "lo"}), block(d, {ax: "hi"})]
    else:
        parts = three(d, ax)
        if parts is None:
            return
    parts[1] = reid(parts[1])
    parts = [parts[i] for i in order]
    ims = [CalImg(o) for o in parts]
    fr = [Frozen(o) for o in parts]
    if ax == "f" and not parts[0].wide_band:
        ids = [int(x) for i in ims for x in i.arr["flex_spw_id_array"]]
        if any(ids[i] in ids[:i] and ids[i] != ids[i - 1] for i in range(1, len(ids))):
            return  # would leave the channels of a window apart
    a = parts[0]
    oth = parts[1] if n == 2 and not inpl else parts[1:]
    if inpl:
        c = a.copy()
        c.fast_concat(oth, catax(c, ax), inplace=True)
    else:
        c = a.fast_concat(oth, catax(a, ax), inplace=False)
    ctx.step()
    for f, o in zip(fr, parts):
        f.check(o, "operand of fast_concat")
    what = f"fast_concat {ax}"
    got = structure(c, what)
    judge(ims, got, what, ax == "a")
    # concatenation keeps the order of the operands
    for nm, f in (("ant_array", "a"), ("jones_array", "j")):
        e = np.concatenate([i.arr[nm] for i in ims]) if f == ax else ims[0].arr[nm]
        require(np.array_equal(got.arr[nm], e), "%s: order of %s", what, nm)
    for nm, f in (("time_keys", "t"), ("freq_keys", "f")):
        e = sum((getattr(i, nm)() for i in ims), []) if f == ax else getattr(ims[0], nm)()
        require(getattr(got, nm)() == e, "%s: order of %s", what, nm)
    ctx.state(got.key())
    ctx.trace()


def run_one(case, ctx):
    """Quality arrays on one operand only."""
    _, d, ax, miss, who = case
    if d == "meta" or flexj(d, {ax: 1}) or empty(d, {ax: "lo"}):
        return
    parts = [block(d, {ax: "lo"}), block(d, {ax: "hi"})]
    setattr(parts[who], miss, None)
    ims = [CalImg(o) for o in parts]
    for how in ("add", "cat"):
        if how == "add":
            if shared_range(*ims):
                continue
            c = do_add(parts[0], parts[1], 0)
        else:
            c = parts[0].fast_concat(parts[1], catax(parts[0], ax), inplace=False)
        ctx.step()
        what = f"{how}, {miss} only on one operand"
        got = structure(c, what)
        judge(ims, got, what, ax == "a")
        ctx.state(got.key())
        ctx.trace()


def run_corner(case, ctx):
    """Fill a hole: an object with a padded corner plus the two missing corners."""
    _, d, ax = case
    other = {"a": "t", "t": "f", "f": "j", "j": "a"}[ax]
    if flexj(d, {ax: 1}, {other: 1}) or empty(d, {ax: "lo", other: "lo"}):
        return
    q = [block(d, {ax: x, other: y}) for x in ("even", "odd") for y in ("lo", "hi")]
    ims = [CalImg(o) for o in q]
    if shared_range(ims[0], ims[1]) or shared_range(ims[0], ims[2]):
        return
    c = q[0] + q[3]
    ctx.step()
    got = structure(c, "corner")
    newants = "a" in (ax, other)
    judge([ims[0], ims[3]], got, "corner", newants)
    ctx.state(got.key())
    ctx.trace()


BAD = ("telescope", "gain_convention", "cal_style", "ref_antenna_name", "ref", "scan", "pcnone", "timekind",
       "pcdiff", "type", "wide")


def spoil(c, k, d):
    """Make c incompatible; return False when not applicable."""
    if k == "telescope":
        c.telescope.name = "elsewhere"
    elif k == "gain_convention":
        c.gain_convention = "multiply"
    elif k == "cal_style":
        if c.cal_style == "sky":
            c._set_redundant()
        else:
            c._set_sky()
            c.sky_catalog = "x"
            c.ref_antenna_name = str(c.telescope.antenna_names[0])
    elif k == "ref_antenna_name":
        if c.cal_style != "sky":
            return False
        c.ref_antenna_name = str(c.telescope.antenna_names[3])
    elif k == "ref":
        if c.ref_antenna_array is None:
            return False
        c.ref_antenna_array = np.roll(c.ref_antenna_array, 1)
    elif k == "scan":
        if c.scan_number_array is None:
            return False
        c.scan_number_array = c.scan_number_array + 100
    elif k == "pcnone":
        if c.phase_center_catalog is None:
            return False
        c.phase_center_catalog = None
        c.phase_center_id_array = None
        c.Nphase = None
    elif k == "pcdiff":
        if c.phase_center_catalog is None or c.Ntimes < 2:
            return False
        old = c.phase_center_id_array.copy()
        c.phase_center_id_array = np.roll(old, 1)
        if np.array_equal(old, c.phase_center_id_array):
            return False
    elif k == "timekind":
        return None
    elif k in ("type", "wide"):
        return None
    return True


def run_bad(case, ctx):
    _, d, k, how = case
    ax = "a" if how == "add" else how[-1]
    if flexj(d, {ax: 1}) or empty(d, {ax: "lo"}):
        return
    a, b = block(d, {ax: "lo"}), block(d, {ax: "hi"})
    r = spoil(b, k, d)
    if r is False:
        return
    if r is None:
        # an object of another kind
        alt = dict(DS[d])
        if k == "timekind":
            alt["trange"] = not alt.get("trange", False)
        elif k == "type":
            alt["kind"] = "gain" if alt.get("kind") == "delay" else "delay"
        else:
            alt["kind"] = "gain" if alt.get("kind") in ("wide", "delay") else "wide"
        if k != "timekind":
            alt["spw"] = "one"
        b = cal.build(alt)
    if k in ("ref", "scan", "pcdiff") and ax == "t":
        return  # per-time quantities of different times may differ
    b.check()
    what = f"{how} with other {k}"
    if how == "add":
        refused(lambda: a + b, (a, b), what)
        refused(lambda: a.__iadd__(b), (a, b), what)
    else:
        refused(lambda: a.fast_concat(b, catax(a, ax), inplace=True), (a, b), what)
        refused(lambda: a.fast_concat([b], catax(a, ax)), (a, b), what)
    ctx.step(2)
    ctx.trace(2)


def run(case, ctx):
    {"add": run_add, "over": run_over, "three": run_three, "cat": run_cat, "one": run_one, "corner": run_corner, "bad": run_bad}[
        case[0]
    ](case, ctx)
