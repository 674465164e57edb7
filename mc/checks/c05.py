"""C05: phase-centre catalogue operations keep every row with its own phase centre."""

import itertools

import numpy as np
from pyuvdata import UVData

from mc import gen
from mc.core import Violation, digest, require
from mc.model import Frozen

ID = "C05"
BOUNDS = (
    "7 catalogues of 1-4 phase centres (sidereal with and without proper motion, epochs, ephemerides of different days, driftscan, unprojected; "
    "shared names, shared positions, exact duplicates, unused entries, scattered ids) on 8 rows; every history of 2 (thorough: 3) operations out of "
    "70 rename, split, merge and select calls incl. refused ones; every pair of 12 catalogues (and of catalogues after one operation) combined by "
    "+, += and fast_concat along rows and frequencies, with and without ignore_name, in both directions, chains of three."
)
ASSUMPTIONS = ["where a split is given the name of another identical entry, rows may join that entry"]

PAR = {
    "A": gen.PC["sidA"], "B": gen.PC["sidB"], "C": gen.PC["sidC"], "E": gen.PC["ephem"], "D": gen.PC["drift"], "U": gen.PC["unproj"],
    "Apm": dict(gen.PC["sidA"], cat_pm_ra=30.0, cat_pm_dec=-20.0),
    "Aep": dict(gen.PC["sidC"], cat_lon=0.9, cat_lat=-0.45),
    "E2": dict(gen.PC["ephem"], cat_times=gen.PC["ephem"]["cat_times"] + 0.05),
    "Ed": dict(gen.PC["ephem"], cat_dist=np.array([0.2, 0.21, 0.25])),
    "Av": dict(gen.PC["sidA"], cat_vrad=3.5),
    "Cj": dict(gen.PC["sidC"], cat_epoch=2000.0),
}
DEF = {"A": "src", "B": "other", "C": "third", "E": "mover", "D": "zen", "U": "unprojected"}

# catalogue: id -> (parameters, name)
CATS = {
    "one": {2: ("A", "src")},
    "two": {3: ("A", "src"), 1: ("B", "other")},
    "same_name": {0: ("A", "src"), 4: ("B", "src"), 1: ("Apm", "src")},
    "same_pos": {5: ("A", "src"), 0: ("A", "twin"), 2: ("C", "third")},
    "mixed": {1: ("E", "mover"), 0: ("U", "unprojected"), 7: ("D", "zen"), 3: ("A", "src")},
    "dup": {1: ("A", "src"), 3: ("A", "src"), 0: ("E", "mover")},
    "ephems": {0: ("E", "mover"), 1: ("E2", "mover"), 2: ("Ed", "mover")},
}
ADDC = dict(
    CATS,
    renum={1: ("A", "src"), 3: ("B", "other")},
    rev={0: ("B", "other"), 1: ("A", "src")},
    names={3: ("A", "one"), 1: ("B", "two")},
    ep={3: ("Aep", "src"), 0: ("Cj", "third"), 1: ("C", "third")},
    vr={0: ("Av", "src"), 1: ("E2", "mover"), 9: ("U", "unprojected")},
)

OPS = []
for _i, _n in [("src", "new"), ("src", "other"), ("mover", "src"), ("other", "src"), (1, "src"), (3, "mover"), ([1, 3], "src"), ([0, 2], "x"), ([], "x"), ("nope", "x"), (1, 5), (77, "x"), (1.5, "x")]:
    OPS.append(["rename", _i, _n])
_m = {"first": [0], "even": [0, 2, 4, 6], "all": list(range(8)), "none": [], "bool": [True, True, False, False] * 2, "neg": [-1, -2], "far": [0, 8]}
for _i, _n, _k, _d, _new in [
    ("src", "new", "even", True, None), ("src", None, "even", True, None), ("src", "new", "all", True, None), ("src", None, "all", True, 5), ("src", "new", "none", False, None),
    (1, "new", "even", True, None), (1, None, "bool", True, None), (1, "src", "bool", True, 6), (1, "src", "first", False, None), (3, "src", "first", True, None), (3, "src", "neg", True, 12),
    (0, "new", "even", True, 1), (0, "src", "even", True, None), (0, "mover", "neg", True, None), (2, "mover", "bool", True, None), (2, "src", "first", False, None), ("mover", "new", "bool", True, 9), ("mover", "mover", "first", True, None),
    ("other", "src", "even", True, 8), (5, "twin", "even", True, None), ("src", "new", "far", True, None), ("src", 3, "even", True, None), ("src", "new", "even", True, 1.5), ("nope", "x", "first", True, None), (77, "x", "first", True, None), (1.5, "x", "first", True, None),
    (7, "mover", "even", True, 2), ("src", "new", "first", False, 3), ("third", "src", "even", True, None), (4, None, "even", True, None), (1, None, "even", True, None),
]:
    OPS.append(["split", _i, _n, _k, _d, _new])
for _i in ("src", [1, 3], [3, 1], [0, 1, 2], ["src", "new"], ["src", 3], ["src", "other"], [1, 1], ["src", "src", 1], [0, 5], ["mover"], "nope", [77, 1], 1.5):
    for _f, _g in ((False, False), (True, False), (False, True)):
        if _i in ("nope", 1.5, [77, 1], ["mover"]) and _f:
            continue
        OPS.append(["merge", _i, _f, _g])
OPS += [["select", [0, 1, 2]], ["select", [0, 2, 4, 6]], ["select", [3, 7]], ["selid", 1], ["selid", 3], ["copy"]]


def cases(tier):
    out = []
    n = len(OPS)
    for c in CATS:
        for i in range(n):
            out.append(["ops", c, i])
    if tier == "thorough":
        for c in CATS:
            for i in range(n):
                for j in range(n):
                    out.append(["ops3", c, i, j])
    else:
        for k, (c, i) in enumerate(itertools.product(CATS, range(n))):
            out.append(["ops3", c, i, (k * 7) % n])
    for a in ADDC:
        for b in ADDC:
            out.append(["add", a, b])
    for a in CATS:
        for i in range(n):
            if OPS[i][0] in ("split", "merge", "rename"):
                out.append(["addop", a, i])
    for t in itertools.product(("two", "renum", "same_name", "dup", "ephems", "names"), repeat=3):
        out.append(["chain", *t])
    return out


def entry(par, name):
    e = gen.pc_entry("unproj")
    if par != "U":
        e = {"info_source": "user"}
    for k, v in PAR[par].items():
        e[k] = v.copy() if isinstance(v, np.ndarray) else v
    if par == "U":
        e.update(cat_lon=0.0, cat_lat=np.pi / 2, cat_frame="altaz")
    e["cat_name"] = name
    return e


_b = {}


def base(cat, t0=0, f0=1e8):
    """Rows cycle through the ids, the ids given last are used by fewer rows."""
    k = (str(cat), t0, f0)
    if k not in _b:
        c = (CATS | ADDC)[cat] if isinstance(cat, str) else cat
        u = gen.uvd(ants="two", nt=4, nf=2, pols=(-5, -6), pc="unproj", extras=False, t0=gen.JD0 + t0, f0=f0, seed=int(t0 * 10) % 97)
        ids = list(c)
        u.phase_center_catalog = {i: entry(*c[i]) for i in ids}
        u.Nphase = len(ids)
        # which time has which centre; all rows of a time agree
        seq = [ids[(j * j) % len(ids)] for j in range(4)] if len(ids) < 4 else ids
        tind = np.round((u.time_array - u.time_array.min()) / gen.DT).astype(int)
        u.phase_center_id_array = np.array([seq[t] for t in tind])
        if len(ids) == 3 and cat != "same_pos":  # all three are used but for one catalogue, where an entry is unused
            u.phase_center_id_array[-2:] = ids[2]
        u._set_app_coords_helper()
        u.uvw_array = np.arange(u.Nblts * 3, dtype=float).reshape(-1, 3) + t0
        _b[k] = u
    return _b[k].copy()


def pkey(e):
    """Everything of an entry but its name."""
    out = []
    for k in sorted(e):
        if k in ("cat_name", "info_source") or e[k] is None:
            continue
        v = e[k]
        out.append((k, tuple(np.asarray(v, float).ravel().tolist()) if not isinstance(v, str) else v))
    return tuple(out)


class St:
    """ids per row, catalogue: id -> [params, name]"""

    def __init__(self, u):
        self.ids = [int(x) for x in u.phase_center_id_array]
        self.cat = {k: [pkey(v), v["cat_name"]] for k, v in u.phase_center_catalog.items()}

    def img(self):
        return self.ids, self.cat


class Refused(Exception):
    pass


def byname(s, n):
    return [k for k, v in s.cat.items() if v[1] == n]


def model(s, op):
    """Next state; None where it stays as it is."""
    if op[0] == "rename":
        _, ident, new = op
        if isinstance(ident, float):
            raise Refused
        if isinstance(ident, str):
            ids = byname(s, ident)
            if not ids:
                raise Refused
        else:
            ids = ident if isinstance(ident, list) else [ident]
            if any(i not in s.cat for i in ids):
                raise Refused
        if not isinstance(new, str):
            raise Refused
        for i in ids:
            s.cat[i][1] = new
    elif op[0] == "split":
        _, ident, new, mk, down, nid = op
        if isinstance(ident, float):
            raise Refused
        if isinstance(ident, str):
            ids = byname(s, ident)
            if len(ids) != 1:
                raise Refused
            i = ids[0]
        else:
            i = ident
            if i not in s.cat:
                raise Refused
        if nid is not None and (not isinstance(nid, int) or nid in s.cat):
            raise Refused
        if new is not None and not isinstance(new, str):
            raise Refused
        n = len(s.ids)
        m = mask(mk, n)
        if m is None:
            raise Refused
        sel = [r for r in range(n) if m[r]]
        if any(s.ids[r] != i for r in sel):
            if not down:
                raise Refused
            sel = [r for r in sel if s.ids[r] == i]
        if not sel:
            return
        if len(sel) == s.ids.count(i):
            x = nid
            if x is None:
                x = "?"
            s.cat[x] = s.cat.pop(i)
            if new is not None:
                s.cat[x][1] = new
            s.ids = [x if q == i else q for q in s.ids]
        else:
            name = s.cat[i][1] if new is None else new
            x = "?" if nid is None else nid
            twin = [k for k, v in s.cat.items() if v == [s.cat[i][0], name] and k != i]
            s.join = twin
            s.cat[x] = [s.cat[i][0], name]
            for r in sel:
                s.ids[r] = x
    elif op[0] == "merge":
        _, ident, force, ign = op
        if isinstance(ident, float):
            raise Refused
        ids = []
        for q in ident if isinstance(ident, list) else [ident]:
            if isinstance(q, str):
                f = byname(s, q)
                if not f:
                    raise Refused
            else:
                if q not in s.cat:
                    raise Refused
                f = [q]
            ids += [k for k in f if k not in ids]
        if len(ids) < 2:
            return
        a = s.cat[ids[0]]
        for k in ids[1:]:
            if (a[0] != s.cat[k][0] or not ign and a[1] != s.cat[k][1]) and not force:
                raise Refused
        for k in ids[1:]:
            del s.cat[k]
        s.ids = [ids[0] if q in ids else q for q in s.ids]
    elif op[0] == "select":
        keep = op[1]
        if any(k >= len(s.ids) for k in keep):
            raise Refused
        s.ids = [s.ids[k] for k in keep]
    elif op[0] == "selid":
        if op[1] not in s.ids:
            raise Refused
        s.ids = [op[1]] * s.ids.count(op[1])


def mask(mk, n):
    m = [False] * n
    v = _m[mk]
    if v and isinstance(v[0], bool):
        if len(v) != n:
            return None
        return v
    for k in v:
        if not -n <= k < n:
            return None
        m[k] = True
    return m


def real(u, op):
    if op[0] == "rename":
        u.rename_phase_center(op[1], op[2])
    elif op[0] == "split":
        _, ident, new, mk, down, nid = op
        v = _m[mk]
        u.split_phase_center(ident, new_name=new, select_mask=np.array(v, dtype=bool if v and isinstance(v[0], bool) else int), new_id=nid, downselect=down)
    elif op[0] == "merge":
        u.merge_phase_centers(op[1], force_merge=op[2], ignore_name=op[3])
    elif op[0] == "select":
        u.select(blt_inds=op[1], run_check=False)
    elif op[0] == "selid":
        u.select(phase_center_ids=op[1], run_check=False)
    elif op[0] == "copy":
        return u.copy()
    return u


def check_state(u, s, what):
    require(u.Nphase == len(u.phase_center_catalog), "%s: Nphase %s of %d", what, u.Nphase, len(u.phase_center_catalog))
    g = St(u)
    require(set(g.ids) <= set(g.cat), "%s: rows with ids %s, catalogue has %s", what, sorted(set(g.ids)), sorted(g.cat))
    if "?" in s.cat:
        new = [k for k in g.cat if k not in s.cat]
        if len(new) == 1:
            x = new[0]
            s.cat[x] = s.cat.pop("?")
            s.ids = [x if q == "?" else q for q in s.ids]
    if getattr(s, "join", None) and g.img() != s.img():
        # rows may have joined the identical entry
        x = next(k for k in s.cat if k == "?" or k not in g.cat)
        v = s.cat.pop(x)
        for t in s.join:
            if [t if q == x else q for q in s.ids] == g.ids:
                s.ids = list(g.ids)
                break
        else:
            s.cat[x] = v
    require(g.ids == s.ids and g.cat == s.cat, "%s: rows %s of %s, expected %s of %s", what, g.ids, {k: v[1] for k, v in g.cat.items()}, s.ids, {k: v[1] for k, v in s.cat.items()})


PCN = ("phase_center_catalog", "phase_center_id_array", "Nphase")


def rest(u, src):
    """A copy of u with src's catalogue, for comparing all the rest."""
    w = u.copy()
    for a in PCN:
        setattr(w, a, getattr(src, a))
    return w


def apply(u, op, what, ctx):
    s = St(u)
    ctx.step()
    before = u.copy()
    fz = Frozen(before)
    try:
        model(s, op)
        ok = True
    except Refused:
        ok = False
    try:
        w = real(u, op)
        require(ok, "%s: not refused", what)
    except (Violation, AssertionError):
        raise
    except Exception as e:
        if ok:
            raise Violation(f"{what}: {type(e).__name__}: {e}") from e
        fz.check(u, f"{what}: refused but changed")
        return u
    check_state(w, s, what)
    if op[0] not in ("select", "selid"):
        fz.check(rest(w, before), f"{what}: the rest")
    # entries do not share their contents
    arrs = [id(v) for e in w.phase_center_catalog.values() for v in e.values() if isinstance(v, np.ndarray)]
    require(len(set(arrs)) == len(arrs) and len({id(e) for e in w.phase_center_catalog.values()}) == len(w.phase_center_catalog), "%s: entries share arrays", what)
    return w


def ops(case, ctx, third=None):
    cat, i = case[1], case[2]
    u0 = apply(base(cat), OPS[i], f"{cat}: {OPS[i]}", ctx)
    if third is not None:
        u0 = apply(u0, OPS[third], f"{cat}: {OPS[i]} then {OPS[third]}", ctx)
    for op in OPS:
        w = apply(u0.copy(), op, f"{cat}: {OPS[i]}{' ' + str(OPS[third]) if third is not None else ''} then {op}", ctx)
        ctx.state(digest(w.phase_center_id_array, sorted((k, v["cat_name"]) for k, v in w.phase_center_catalog.items())))
    ctx.trace()


def truth(u):
    s = St(u)
    return {(round(float(t), 9), int(b)): (s.cat[i][0], s.cat[i][1]) for t, b, i in zip(u.time_array, u.baseline_array, s.ids)}


def entries(u):
    s = St(u)
    return [(v[0], v[1]) for v in s.cat.values()]


def check_sum(w, us, ign, what):
    require(w.Nphase == len(w.phase_center_catalog) and set(w.phase_center_id_array.tolist()) <= set(w.phase_center_catalog), "%s: rows with ids %s, catalogue has %s", what, set(w.phase_center_id_array.tolist()), set(w.phase_center_catalog))
    g = truth(w)
    exp = {}
    for u in us:
        exp.update(truth(u))
    require(set(g) == set(exp), "%s: rows", what)
    names = {}
    for u in us:
        for p, n in entries(u):
            names.setdefault(p, set()).add(n)
    for k in exp:
        if ign:
            require(g[k][0] == exp[k][0] and g[k][1] in names[g[k][0]], "%s: row %s is of %s, was of %s", what, k, g[k], exp[k])
        else:
            require(g[k] == exp[k], "%s: row %s is of %s, was of %s", what, k, g[k], exp[k])
    # nothing invented, nothing lost, equal centres become one
    have = entries(w)
    all_in = [e for u in us for e in entries(u)]
    if not ign:
        require(set(have) == set(all_in), "%s: entries %s, expected %s", what, have, all_in)
        if all(len(set(entries(u))) == len(entries(u)) for u in us):
            require(len(set(have)) == len(have), "%s: the same phase centre twice: %s", what, have)
    else:
        require({p for p, _ in have} == {p for p, _ in all_in}, "%s: entries %s, expected %s", what, have, all_in)
        if all(len({p for p, _ in entries(u)}) == len(entries(u)) for u in us):
            require(len({p for p, _ in have}) == len(have), "%s: the same phase centre twice: %s", what, have)


def combine(a, b, ign, how):
    if how == "add":
        return a.__add__(b, ignore_name=ign, run_check=False)
    if how == "iadd":
        w = a.copy()
        w.__add__(b, inplace=True, ignore_name=ign, run_check=False)
        return w
    w = a.fast_concat(b, "blt", ignore_name=ign, run_check=False)
    return w


def pair(a, b, what, ctx):
    for ign in (False, True):
        for how in ("add", "iadd", "concat"):
            fa, fb = Frozen(a), Frozen(b)
            w = combine(a, b, ign, how)
            check_sum(w, [a, b], ign, f"{what} {how} ignore_name={ign}")
            fa.check(a, f"{what} {how}: first operand")
            fb.check(b, f"{what} {how}: second operand")
            ctx.step()


def relabel(u, catalog):
    """The same rows with another numbering."""
    w = u.copy()
    m = {}
    for n, k in enumerate(sorted(u.phase_center_catalog, reverse=True)):
        m[k] = 2 * n + 1
    w.phase_center_id_array = np.array([m[int(x)] for x in u.phase_center_id_array])
    w.phase_center_catalog = {m[k]: {a: (v.copy() if isinstance(v, np.ndarray) else v) for a, v in e.items()} for k, e in sorted(u.phase_center_catalog.items(), key=lambda q: m[q[0]])}
    return w


def freqadd(a, what, ctx):
    """Along frequency rows meet their own rows, whatever the numbers."""
    for ign, new in itertools.product((False, True), repeat=2):
        b = relabel(a, None) if new else a.copy()
        b.freq_array = b.freq_array + 5e5
        if ign and new:
            for e in b.phase_center_catalog.values():
                e["cat_name"] = e["cat_name"] + "_b"
        dup = len({p for p, _ in entries(a)}) < len(entries(a)) if ign else len(set(entries(a))) < len(entries(a))
        for how in ("add", "concat"):
            try:
                w = a.__add__(b, ignore_name=ign, run_check=False) if how == "add" else a.fast_concat(b, "freq", ignore_name=ign, run_check=False)
            except ValueError as e:
                # adding asks for the same catalogue where rows overlap, concatenating only for the same centres
                require(dup or new and how == "add", "%s along frequency refused: %s", what, e)
                continue
            check_sum(w, [a, a] if not ign else [a, b], ign, f"{what} {how} along frequency, ignore_name={ign}")
            ctx.step()
    # a row of another centre
    s = St(a)
    if len({p for p, _ in entries(a)}) > 1:
        b = a.copy()
        b.freq_array = b.freq_array + 5e5
        i0 = int(b.phase_center_id_array[0])
        other = [k for k in s.cat if s.cat[k][0] != s.cat[i0][0]]
        if other:
            b.phase_center_id_array[0] = other[0]
            for how in ("add", "concat"):
                try:
                    w = a.__add__(b, run_check=False) if how == "add" else a.fast_concat(b, "freq", run_check=False)
                except ValueError:
                    continue
                raise Violation(f"{what} {how} along frequency: rows of different phase centres combined")


def add(case, ctx):
    a, b = base(case[1]), base(case[2], t0=0.25)
    pair(a, b, f"{case[1]} and {case[2]}", ctx)
    if case[1] == case[2]:
        freqadd(a, case[1], ctx)
    ctx.state(digest(case[1], case[2]))
    ctx.trace()


def addop(case, ctx):
    op = OPS[case[2]]
    a = base(case[1])
    try:
        model(St(a), op)
    except Refused:
        return
    a = real(a, op)
    b = base(case[1], t0=0.25)
    pair(a, b, f"{case[1]} after {op} and before", ctx)
    pair(b, a, f"{case[1]} before and after {op}", ctx)
    c = real(base(case[1], t0=0.25), op)
    pair(a, c, f"{case[1]} both after {op}", ctx)
    freqadd(a, f"{case[1]} after {op}", ctx)
    ctx.trace()


def chain(case, ctx):
    us = [base(c, t0=0.25 * i) for i, c in enumerate(case[1:])]
    for ign in (False, True):
        w = us[0].copy()
        for u in us[1:]:
            w = w.__add__(u, ignore_name=ign, run_check=False)
        check_sum(w, us, ign, f"{case[1:]} added, ignore_name={ign}")
        w = us[0].fast_concat(us[1:], "blt", ignore_name=ign, run_check=False)
        check_sum(w, us, ign, f"{case[1:]} concatenated, ignore_name={ign}")
        ctx.step(2)
    ctx.trace()


def run(case, ctx):
    if case[0] == "ops":
        ops(case, ctx)
    elif case[0] == "ops3":
        ops(case, ctx, third=case[3])
    else:
        {"add": add, "addop": addop, "chain": chain}[case[0]](case, ctx)


_ = UVData, DEF
