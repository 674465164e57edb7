"""C29: Mir metadata tables: queries, masks, edits, undo, grouping, combination and files, for every
short history of operations against an explicit table."""

import copy
import itertools
import os
import warnings

import numpy as np

from mc.core import digest, expect_raises, require

ID = "C29"
BOUNDS = (
    "tables of four records in unsorted key order (integer keys: In, Bl, Sp; key tuples: Eng; text round trips: Antpos, Codes), every history of up to two operations (in the quick tier also of three that set values twice or set after a quarter of the masks, in the "
    "thorough tier all of three) from an alphabet of 23: masks by condition, by key, by position, by array, or-ed and reset, values by condition, key, position and mask, undo of one field or all, copies; after every step "
    "every field by mask, without it, by key, by index and by condition, header keys, length, iteration, groups of one and two fields; combination for every pair of key relations x equal or edited values x "
    "masks of both x merge/overwrite/discard_flagged; files: every mask, overwriting, appending with and without the key check"
)
ASSUMPTIONS = ["header keys are not edited; conditions combined by `or` are asked without the internal mask; masks are or-ed only onto partial masks"]

FIELDS = {
    "in": ("MirInData", "inhid", "ints", "az", ("inhid",)),
    "bl": ("MirBlData", "blhid", "isb", "u", ("blhid",)),
    "sp": ("MirSpData", "sphid", "iband", "fsky", ("sphid",)),
    "eng": ("MirEngData", None, "commStatus", "ha", ("antenna", "inhid")),
}
KEYS = [30, 10, 40, 20]
TUPS = [(3, 10), (1, 10), (3, 20), (2, 10)]

OPS = [
    ("mask", dict(where=("A", "eq", 1))), ("mask", dict(where=("B", "gt", 1.5))), ("mask", dict(where=("A", "ne", [2, 3]))), ("mask", dict(where=[("A", "le", 2), ("B", "ge", 1.0)])),
    ("mask", dict(where=[("A", "eq", 3), ("B", "lt", 1.0)], and_where_args=False)), ("mask", dict(where=("B", "between", (0.5, 2.0)))), ("mask", dict(where=("B", "outside", (0.6, 2.0)))),
    ("mask", dict(keys=(0, 2))), ("mask", dict(index=[1, 3])), ("mask", dict(arr="alt")), ("mask", dict(arr="alt", use_mask=False)), ("mask", dict(reset=True)),
    ("mask", dict(where=("A", "eq", 3), reset=True)), ("mask", dict(where=("A", "eq", 2), and_mask=False)),
    ("set", "A", 9, {}), ("set", "B", -4.0, dict(where=("A", "eq", 1))), ("set", "B", 7.5, dict(keys=(1, 3))), ("set", "A", 2, dict(index=[0])), ("set", "B", "arr", dict(use_mask=False)),
    ("undo", "A"), ("undo", "B"), ("undo", None), ("reset",),
]
CMP = {
    "eq": lambda a, b: a in b if isinstance(b, list) else a == b, "ne": lambda a, b: a not in b if isinstance(b, list) else a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "between": lambda a, b: b[0] <= a <= b[1], "outside": lambda a, b: a < b[0] or a > b[1],
}
ALIAS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


class Table:
    """Rows of (key, A, B), a mask and the values to go back to."""

    def __init__(self, keys, a, b):
        self.keys, self.v, self.mask, self.old = list(keys), {"A": list(a), "B": list(b)}, [True] * len(keys), {}

    def cond(self, where, and_where_args=True):
        ws = [where] if isinstance(where[0], str) else where
        rows = [[CMP[c](self.v[f][i], val) for f, c, val in ws] for i in range(len(self.keys))]
        return [all(r) if and_where_args else any(r) for r in rows]

    def rows(self, where=None, keys=None, index=None, use_mask=None, and_where_args=True):
        n = len(self.keys)
        if index is not None:
            return list(index)
        if keys is not None:
            return [self.keys.index(k) for k in keys]
        um = True if use_mask is None else use_mask
        if where is None:
            return [i for i in range(n) if self.mask[i] or not um]
        c = self.cond(where, and_where_args)
        return [i for i in range(n) if c[i] and (self.mask[i] or not um)]


def cases(tier):
    out = []
    for kind in FIELDS:
        for i in range(len(OPS)):
            out.append(["hist", kind, [i], 2 if tier == "quick" else 3])
            if tier == "quick":
                out.extend(["hist", kind, [i, j], 3] for j in range(len(OPS)) if OPS[j][0] == "set" and (OPS[i][0] == "set" or (i + j) % 4 == 0))
    for kind in FIELDS:
        for rel in ("disjoint", "same", "subset", "superset", "partial", "reorder", "empty", "intoempty"):
            for m1 in range(4):
                out.append(["add", kind, rel, m1])
    for kind in list(FIELDS):
        for app, chk in itertools.product((False, True), (False, True)):
            out.append(["file", kind, app, chk])
    out.append(["antpos"])
    out.append(["codes"])
    for kind in FIELDS:
        out.append(["eq", kind])
        out.append(["bad", kind])
    return out


def build(kind, keys, a, b):
    from pyuvdata.uvdata import mir_meta_data as mm

    cls = getattr(mm, FIELDS[kind][0])
    obj0 = cls()
    arr = np.zeros(len(keys), dtype=obj0.dtype)
    if FIELDS[kind][1] is None:
        arr["antenna"] = [k[0] for k in keys]
        arr["inhid"] = [k[1] for k in keys]
    else:
        arr[FIELDS[kind][1]] = keys
    arr[FIELDS[kind][2]] = a
    arr[FIELDS[kind][3]] = b
    return cls(arr)


def keys_of(kind, n=4):
    return (TUPS if FIELDS[kind][1] is None else KEYS)[:n]


def fld(kind, f):
    return FIELDS[kind][2] if f == "A" else FIELDS[kind][3]


def trans(kind, tab, kw):
    """The model's arguments as the real ones."""
    out = {}
    for k, v in kw.items():
        if k == "where":
            conv = lambda w: (fld(kind, w[0]), w[1], w[2])  # noqa
            out["where"] = conv(v) if isinstance(v[0], str) else [conv(w) for w in v]
        elif k == "keys":
            out["header_key"] = [tab.keys[i] for i in v]
        elif k == "arr":
            n = len(tab.keys) if kw.get("use_mask") is False else sum(tab.mask)
            out["mask"] = np.arange(n) % 2 == 0
        else:
            out[k] = v
    return out


def same(got, want, what):
    got, want = list(np.asarray(got).tolist()), list(want)
    require(len(got) == len(want) and all(abs(x - y) < 1e-6 for x, y in zip(got, want)), f"{what}: {got} instead of {want}")


def norm(keys):
    return [tuple(int(x) for x in k) if isinstance(k, (tuple, list)) else int(k) for k in keys]


def observe(obj, kind, tab, what):
    n = len(tab.keys)
    require(len(obj) == sum(tab.mask), f"{what}: length {len(obj)}")
    require(np.asarray(obj.get_mask()).tolist() == tab.mask, f"{what}: mask {obj.get_mask()} instead of {tab.mask}")
    require(norm(obj.get_header_keys()) == [tab.keys[i] for i in tab.rows()], f"{what}: keys {obj.get_header_keys()}")
    require(norm(obj.get_header_keys(use_mask=False)) == tab.keys, f"{what}: all keys")
    for f in ("A", "B"):
        rf = fld(kind, f)
        col = tab.v[f]
        same(obj[rf], [col[i] for i in tab.rows()], f"{what}: {rf}")
        same(obj.get_value(rf, use_mask=False), col, f"{what}: {rf} without the mask")
        same(obj.get_value(rf, header_key=[tab.keys[2], tab.keys[0]]), [col[2], col[0]], f"{what}: {rf} by key")
        same(obj.get_value(rf, index=np.array([3, 1])), [col[3], col[1]], f"{what}: {rf} by index")
        require(np.asarray(obj.get_mask(header_key=[tab.keys[2], tab.keys[0]])).tolist() == [tab.mask[2], tab.mask[0]], f"{what}: mask by key")
        for w in (("A", "eq", 1), ("B", "ge", 1.0), ("A", "ne", [1, 9]), ("B", "between", (0.5, 2.0)), ("B", "outside", (0.5, 2.0)), ("A", "lt", 3)):
            ww = (fld(kind, w[0]), w[1], w[2])
            same(obj.get_value(rf, where=ww), [col[i] for i in tab.rows(where=w)], f"{what}: {rf} where {w}")
            same(obj.get_value(rf, where=ww, use_mask=False), [col[i] for i in tab.rows(where=w, use_mask=False)], f"{what}: {rf} where {w}, unmasked")
            require(np.asarray(obj.where(*ww)).tolist() == tab.cond(w), f"{what}: where {w}")
            if w[1] in ALIAS:
                require(np.asarray(obj.where(ww[0], ALIAS[w[1]], ww[2])).tolist() == tab.cond(w), f"{what}: where {w} by symbol")
            require(np.asarray(obj.where(*ww, mask=np.array(tab.mask))).tolist() == [c and m for c, m in zip(tab.cond(w), tab.mask)], f"{what}: where {w} with a mask")
            require(norm(list(obj.where(*ww, return_header_keys=True))) == [tab.keys[i] for i in range(n) if tab.cond(w)[i]], f"{what}: keys where {w}")
        both = [("A", "ge", 2), ("B", "ge", 1.0)]
        rb = [(fld(kind, x), c, v) for x, c, v in both]
        for andw, um in ((True, None), (True, False), (False, False)):
            same(obj.get_value(rf, where=rb, and_where_args=andw, use_mask=um), [col[i] for i in tab.rows(where=both, and_where_args=andw, use_mask=um)], f"{what}: {rf} where both ({andw}, {um})")
    tup = obj.get_value([fld(kind, "A"), fld(kind, "B")])
    require(len(tup) == sum(tab.mask) and all(abs(x - tab.v["A"][i]) < 1e-6 and abs(y - tab.v["B"][i]) < 1e-6 for (x, y), i in zip(tup, tab.rows())), f"{what}: tuples {tup}")
    its = [(float(r[fld(kind, "A")]), float(r[fld(kind, "B")])) for r in obj]
    require(all(abs(x - tab.v["A"][i]) < 1e-6 and abs(y - tab.v["B"][i]) < 1e-6 for (x, y), i in zip(its, tab.rows())) and len(its) == sum(tab.mask), f"{what}: iteration")
    # groups
    for um in (True, False):
        rows = tab.rows(use_mask=um)
        g = obj.group_by(fld(kind, "A"), use_mask=um, return_index=True)
        want = {}
        for pos, i in enumerate(rows):
            want.setdefault(tab.v["A"][i], []).append(pos)
        require({int(k): sorted(np.asarray(v).tolist()) for k, v in g.items()} == want, f"{what}: groups {g} instead of {want}")
        g = obj.group_by([fld(kind, "A"), fld(kind, "B")], use_mask=um, return_index=True)
        want = {}
        for pos, i in enumerate(rows):
            want.setdefault((tab.v["A"][i], round(tab.v["B"][i], 5)), []).append(pos)
        require({(int(k[0]), round(float(k[1]), 5)): sorted(np.asarray(v).tolist()) for k, v in g.items()} == want, f"{what}: groups of two fields {g} instead of {want}")
        if FIELDS[kind][1] is not None:
            g = obj.group_by(fld(kind, "A"), use_mask=um)
            want = {}
            for i in rows:
                want.setdefault(tab.v["A"][i], []).append(tab.keys[i])
            require({int(k): sorted(np.asarray(v).tolist()) for k, v in g.items()} == {k: sorted(v) for k, v in want.items()}, f"{what}: groups of keys {g}")


def apply(obj, kind, tab, op):
    """One operation on both; returns whether the real one was applied."""
    n = len(tab.keys)
    if op[0] == "mask":
        kw = op[1]
        if kw.get("and_mask") is False and all(tab.mask):
            return False
        if "arr" in kw:
            real = trans(kind, tab, kw)
            new = [False] * n
            rows = range(n) if kw.get("use_mask") is False else tab.rows()
            for pos, i in enumerate(rows):
                new[i] = bool(real["mask"][pos])
        elif "where" in kw:
            new = tab.cond(kw["where"], kw.get("and_where_args", True))
        elif "keys" in kw:
            new = [i in kw["keys"] for i in range(n)]
        elif "index" in kw:
            new = [i in kw["index"] for i in range(n)]
        else:
            new = [True] * n
        if not kw.get("reset"):
            new = [a and b for a, b in zip(tab.mask, new)] if kw.get("and_mask", True) else [a or b for a, b in zip(tab.mask, new)]
        got = obj.set_mask(**trans(kind, tab, kw))
        require(bool(got) == (new != tab.mask), f"set_mask said {got}")
        tab.mask = new
    elif op[0] == "set":
        _, f, val, kw = op
        mkw = {k: ([tab.keys[i] for i in v] if k == "keys" else v) for k, v in kw.items()}
        rows = tab.rows(**mkw)
        val = [0.25 * (i + 1) for i in range(len(rows))] if val == "arr" else val
        tab.old.setdefault(f, list(tab.v[f]))
        for pos, i in enumerate(rows):
            tab.v[f][i] = val[pos] if isinstance(val, list) else val
        if kw:
            obj.set_value(fld(kind, f), np.array(val) if isinstance(val, list) else val, **trans(kind, tab, kw))
        else:
            obj[fld(kind, f)] = val
    elif op[0] == "undo":
        if op[1] is not None and op[1] not in tab.old:
            expect_raises(lambda: obj.reset_values(fld(kind, op[1])), ValueError, "undo of an unchanged field")
            return True
        for f in [op[1]] if op[1] is not None else list(tab.old):
            tab.v[f] = tab.old.pop(f)
        obj.reset_values() if op[1] is None else obj.reset_values(fld(kind, op[1]))
    else:
        for f in list(tab.old):
            tab.v[f] = tab.old.pop(f)
        tab.mask = [True] * n
        obj.reset()
    return True


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case[0]](ctx, *case[1:])


START = ([1, 2, 1, 3], [0.5, 1.0, 2.0, 3.0])


def _hist(ctx, kind, prefix, depth):
    obj0 = build(kind, keys_of(kind), *START)
    tab0 = Table(keys_of(kind), *START)

    def rec(obj, tab, hist):
        for j in range(len(OPS)) if len(hist) >= len(prefix) else [prefix[len(hist)]]:
            o, t = obj.copy(), copy.deepcopy(tab)
            if not apply(o, kind, t, OPS[j]):
                continue
            what = f"{FIELDS[kind][0]} after {[OPS[q] for q in hist + [j]]}"
            observe(o, kind, t, what)
            ctx.step()
            ctx.state(digest((kind, t.v, t.mask, sorted(t.old.items()))))
            if len(hist) + 1 < depth:
                rec(o, t, hist + [j])
        # the copies left this one alone
        observe(obj, kind, tab, f"{FIELDS[kind][0]} after its copies were changed")

    rec(obj0, tab0, [])
    ctx.trace()


def _add(ctx, kind, rel, m1):
    from pyuvdata.uvdata import mir_meta_data as mm

    allk = (TUPS + [(5, 30), (4, 10), (9, 9), (8, 8)]) if FIELDS[kind][1] is None else (KEYS + [50, 5, 60, 1])
    k1 = allk[:4]
    k2 = {"disjoint": allk[4:7], "same": allk[:4], "subset": allk[1:3], "superset": allk[:6], "partial": allk[2:6], "reorder": allk[:4][::-1], "empty": None, "intoempty": allk[:4]}[rel]
    masks1 = [[True] * 4, [False, True, True, False], [True, False, False, True], [False] * 4]
    a_of = {k: i % 3 + 1 for i, k in enumerate(allk)}
    b_of = {k: 0.5 * (i + 1) for i, k in enumerate(allk)}
    if k2 is None or rel == "intoempty":
        cls = getattr(mm, FIELDS[kind][0])
        t = Table(k1, [a_of[k] for k in k1], [b_of[k] for k in k1])
        o = build(kind, k1, t.v["A"], t.v["B"])
        o.set_mask(mask=np.array(masks1[m1]), use_mask=False)
        t.mask = masks1[m1]
        for inp in (False, True):
            left, right = (o.copy(), cls()) if k2 is None else (cls(), o.copy())
            new = left.__add__(right, inplace=inp)
            require(not inp or new is left, "in-place addition gave another object")
            observe(new, kind, t, f"addition of an empty table ({rel})")
            if right._data is not None:
                new[fld(kind, "A")] = 77
                observe(right, kind, t, "the right operand after the sum was changed")
            ctx.step()
        ctx.state((kind, rel))
        return
    n2 = len(k2)
    for edit, m2, merge, over, disc, inp in itertools.product((None, 0, n2 - 1), range(3), (None, True, False), (None, True, False), (False, True), (False, True)):
        a2, b2 = [a_of[k] for k in k2], [b_of[k] for k in k2]
        if edit is not None:
            a2[edit] = 8
        mask1, mask2 = masks1[m1], [[True] * n2, [i % 2 == 0 for i in range(n2)], [False] * n2][m2]
        o1 = build(kind, k1, [a_of[k] for k in k1], [b_of[k] for k in k1])
        o2 = build(kind, k2, a2, b2)
        o1.set_mask(mask=np.array(mask1), use_mask=False)
        o2.set_mask(mask=np.array(mask2), use_mask=False)
        t1, t2 = Table(k1, [a_of[k] for k in k1], [b_of[k] for k in k1]), Table(k2, a2, b2)
        t1.mask, t2.mask = list(mask1), list(mask2)
        what = f"{rel}, masks {mask1} and {mask2}, edited {edit}, merge={merge}, overwrite={over}, discard_flagged={disc}"
        # the definition
        r1 = {k: (a_of[k], b_of[k], m) for k, m in zip(k1, mask1)}
        r2 = {k: (a, b, m) for k, a, b, m in zip(k2, a2, b2, mask2)}
        err = bool(merge and disc) or bool(merge and k1 != k2)
        if disc:
            r1 = {k: v for k, v in r1.items() if v[2]}
            r2 = {k: v for k, v in r2.items() if v[2]}
        both = [k for k in r1 if k in r2]
        if merge is False and both:
            err = True
        res = {}
        if not err:
            for k in list(r1) + [k for k in r2 if k not in r1]:
                if k not in both:
                    res[k] = r1.get(k, r2.get(k))
                    continue
                x, y = r1[k], r2[k]
                m = x[2] or y[2]
                if over or x[:2] == y[:2]:
                    res[k] = (y[0], y[1], m)
                elif over is False or (x[2] and y[2]):
                    err = True
                elif not x[2] and not y[2]:
                    res[k] = (None, None, m)  # neither is in use: either may stay
                else:
                    res[k] = (x[0], x[1], m) if x[2] else (y[0], y[1], m)
        call = lambda: o1.__add__(o2, inplace=inp, merge=merge, overwrite=over, discard_flagged=disc)  # noqa
        if err:
            expect_raises(call, (ValueError, mm.MirMetaError), what)
            observe(o1, kind, t1, "left operand after a refused sum: " + what)
            observe_small(o2, kind, t2, what)
            ctx.step()
            continue
        new = call()
        require(not inp or new is o1, "in-place addition gave another object")
        if len(res) != 0 or True:
            got = {}
            keys = norm(new.get_header_keys(use_mask=False))
            for k, a, b, m in zip(keys, new.get_value(fld(kind, "A"), use_mask=False), new.get_value(fld(kind, "B"), use_mask=False), new.get_mask()):
                require(k not in got, f"{what}: key {k} twice")
                got[k] = (int(a), float(b), bool(m))
            require(set(got) == set(res), f"{what}: keys {sorted(got)} instead of {sorted(res)}")
            for k in res:
                if res[k][0] is not None:
                    require(got[k][0] == res[k][0] and abs(got[k][1] - res[k][1]) < 1e-6, f"{what}: record {k} is {got[k]} instead of {res[k]}")
                require(got[k][2] == res[k][2], f"{what}: mask of {k} is {got[k][2]}")
                require(int(np.asarray(new.get_value(fld(kind, "A"), header_key=[k]))[0]) == got[k][0], f"{what}: lookup of {k}")
        observe_small(o2, kind, t2, what)
        if not inp:
            observe(o1, kind, t1, "left operand after a sum: " + what)
        ctx.step()
        ctx.state(digest((kind, sorted(got.items()))))


def observe_small(obj, kind, tab, what):
    require(norm(obj.get_header_keys(use_mask=False)) == tab.keys, f"{what}: right operand's keys changed")
    same(obj.get_value(fld(kind, "A"), use_mask=False), tab.v["A"], f"{what}: right operand")
    require(np.asarray(obj.get_mask()).tolist() == tab.mask, f"{what}: right operand's mask")


def _file(ctx, kind, app, chk):
    import tempfile

    from pyuvdata.uvdata import mir_meta_data as mm

    cls = getattr(mm, FIELDS[kind][0])
    allk = (TUPS + [(5, 30), (4, 10)]) if FIELDS[kind][1] is None else (KEYS + [50, 5])
    a_of = {k: i % 3 + 1 for i, k in enumerate(allk)}
    b_of = {k: 0.5 * (i + 1) for i, k in enumerate(allk)}

    def mk(keys, edit=None):
        a = [a_of[k] for k in keys]
        if edit is not None:
            a[edit] = 8
        return build(kind, keys, a, [b_of[k] for k in keys]), {k: (x, b_of[k]) for k, x in zip(keys, a)}

    def load(d):
        o = cls(d)
        require(all(np.asarray(o.get_mask())), "a table read from a file is masked")
        return list(zip(norm(o.get_header_keys(use_mask=False)), np.asarray(o.get_value(fld(kind, "A"))).tolist(), np.asarray(o.get_value(fld(kind, "B"))).tolist()))

    for k1, k2, edit, m1, m2 in itertools.product((4, 2), ((0, 4), (4, 6), (2, 6)), (None, 0), range(2, 16, 3), range(0, 16, 3)):
        with tempfile.TemporaryDirectory() as d:
            d = os.path.join(d, "t")
            o1, _ = mk(allk[:k1])
            o2, _ = mk(allk[k2[0] : k2[1]], edit)
            bits1 = [bool(m1 >> i & 1) for i in range(k1)]
            n2 = k2[1] - k2[0]
            bits2 = [bool(m2 >> i & 1) for i in range(n2)]
            o1.set_mask(mask=np.array(bits1), use_mask=False)
            o2.set_mask(mask=np.array(bits2), use_mask=False)
            o1.write(d)
            first = [(k, a_of[k], b_of[k]) for k, m in zip(allk[:k1], bits1) if m]
            what = f"{kind}: first mask {bits1}, second {k2} mask {bits2}, edit {edit}"
            require(load(d) == first, f"{what}: file holds {load(d)} instead of {first}")
            if not app:
                expect_raises(lambda: o2.write(d), Exception, "writing over an existing file")
                require(load(d) == first, f"{what}: file changed by a refused write")
            a2 = [a_of[k] for k in allk[k2[0] : k2[1]]]
            if edit is not None:
                a2[edit] = 8
            second = [(k, a, b_of[k]) for k, a, m in zip(allk[k2[0] : k2[1]], a2, bits2) if m]
            if not app:
                o2.write(d, overwrite=True)
                require(load(d) == second, f"{what}: file holds {load(d)} instead of {second}")
            elif not chk:
                if set(k for k, _, _ in first) & set(k for k, _, _ in second):
                    continue
                o2.write(d, append_data=True)
                require(load(d) == first + second, f"{what}: file holds {load(d)} instead of {first + second}")
            else:
                have = {k: (a, b) for k, a, b in first}
                clash = any(k in have and have[k] != (a, b) for k, a, b in second)
                if clash:
                    expect_raises(lambda: o2.write(d, append_data=True, check_index=True), ValueError, "appending conflicting records")
                    want = first
                else:
                    o2.write(d, append_data=True, check_index=True)
                    want = first + [r for r in second if r[0] not in have]
                require(load(d) == want, f"{what}: file holds {load(d)} instead of {want}")
            ctx.step()
            ctx.state((kind, k1, k2, edit, m1, m2))


def _antpos(ctx):
    import tempfile

    from pyuvdata.uvdata import mir_meta_data as mm

    o = mm.MirAntposData()
    arr = np.zeros(4, dtype=o.dtype)
    arr["antenna"] = [3, 1, 8, 2]
    arr["xyz_pos"] = np.arange(12).reshape(4, 3) * 1.25 - 7
    for bits in range(1, 16):
        o = mm.MirAntposData(arr.copy())
        m = np.array([bool(bits >> i & 1) for i in range(4)])
        o.set_mask(mask=m, use_mask=False)
        with tempfile.TemporaryDirectory() as d:
            o.write(d)
            p = mm.MirAntposData(d)
            require(np.asarray(p["antenna"]).tolist() == arr["antenna"][m].tolist(), "antennas of the file")
            require(np.allclose(p["xyz_pos"], arr["xyz_pos"][m], atol=1e-9), "positions of the file")
        ctx.step()
        ctx.state(bits)


def _codes(ctx):
    import tempfile

    from pyuvdata.uvdata import mir_meta_data as mm

    o = mm.MirCodesData()
    rows = [("source", 2, "3c84", 0), ("source", 1, "mars", 0), ("pol", 1, "Unknown", 0), ("vrad", 7, "-12.5", 0)]
    arr = np.array(rows, dtype=o.dtype)
    for bits in range(1, 16):
        m = np.array([bool(bits >> i & 1) for i in range(4)])
        o = mm.MirCodesData(arr.copy())
        o.set_mask(mask=m, use_mask=False)
        with tempfile.TemporaryDirectory() as d:
            o.write(d)
            p = mm.MirCodesData(d)
            for f in arr.dtype.names:
                require(np.asarray(p.get_value(f)).tolist() == arr[f][m].tolist(), f"codes {f}: {p.get_value(f)}")
        ctx.step()
        ctx.state(bits)
    o = mm.MirCodesData(arr.copy())
    require(o.get_codes("source", return_dict=True)["3c84"] == 2 or o.get_codes("source", return_dict=True).get(2) == "3c84", "codes by name")


def _eq(ctx, kind):
    base = lambda: build(kind, keys_of(kind), *START)  # noqa
    a = base()
    for f, i in itertools.product(("A", "B"), range(4)):
        b = base()
        require(a == b and not (a != b), "equal tables differ")
        b.set_value(fld(kind, f), 44, index=[i])
        require(a != b and not (a == b), f"an edit of {f} in row {i} is not seen")
        require(a.__eq__(b, ignore_params=[fld(kind, f)]), "an ignored field is compared")
        b.reset()
        require(a == b, "undo does not restore equality")
        b.set_mask(index=[i])
        require(a != b, "a mask is not seen")
        require(a.__eq__(b, comp_mask=False), "an ignored mask is compared")
        ctx.step()
        ctx.state((kind, f, i))
    c = a.copy()
    require(a == c, "a copy differs")
    require(build(kind, keys_of(kind)[:3], START[0][:3], START[1][:3]) != a, "a shorter table is equal")
    expect_raises(lambda: a == 5, ValueError, "comparison with a number")
    # same rows in another order, with masks
    o = [2, 0, 3, 1]
    for bits1, bits2 in itertools.product(range(16), repeat=2):
        x, y = base(), build(kind, [keys_of(kind)[i] for i in o], [START[0][i] for i in o], [START[1][i] for i in o])
        m1 = [bool(bits1 >> i & 1) for i in range(4)]
        m2 = [bool(bits2 >> i & 1) for i in range(4)]
        x.set_mask(mask=np.array(m1), use_mask=False)
        y.set_mask(mask=np.array([m2[i] for i in o]), use_mask=False)
        require((x == y) == (m1 == m2), f"reordered tables with masks {m1} and {m2} (by record) compare {x == y}")
        ctx.step()


def _bad(ctx, kind):
    from pyuvdata.uvdata import mir_meta_data as mm

    a = build(kind, keys_of(kind), *START)
    t = Table(keys_of(kind), *START)
    for f in (
        lambda: a.get_value(fld(kind, "A"), index=[0], where=(fld(kind, "A"), "eq", 1)), lambda: a.get_value(fld(kind, "A"), header_key=[t.keys[0]], index=[0]),
        lambda: a.where("nosuchfield", "eq", 1), lambda: a.where(fld(kind, "A"), "nosuchop", 1), lambda: a.get_value(fld(kind, "A"), where=("nosuchfield", "eq", 1)),
        lambda: a.get_value(fld(kind, "A"), where=(fld(kind, "A"), "eq")), lambda: a.get_value("nosuchfield"), lambda: a.set_value("nosuchfield", 3),
        lambda: a.get_value(fld(kind, "A"), header_key=[(99, 99) if FIELDS[kind][1] is None else 99]), lambda: a.set_mask(where=("nosuchfield", "eq", 1)),
        lambda: a.get_value(fld(kind, "A"), index=[0], use_mask=True), lambda: a + 3, lambda: a.set_value(fld(kind, "A"), [1, 2, 3], use_mask=False),
        lambda: a.reset_values("nosuchfield"),
    ):
        expect_raises(f, Exception, "a malformed request")
        observe(a, kind, t, "a table after a refused request")
        ctx.step()
    ctx.state(kind)
