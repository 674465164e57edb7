"""C03: reordering and baseline conjugation never change what was measured."""

import itertools

import numpy as np

from mc import gen
from mc.checks.c02 import Cells
from mc.core import Violation, require
from mc.model import Frozen, UVModel, check_valid, same

ID = "C03"
BOUNDS = (
    "UVData.reorder_blts (every order x minor order x autos_first x conjugation"
    " convention x tolerance, index permutations), reorder_pols (AIPS, CASA, all index"
    " permutations), reorder_freqs (every spw order x channel order x select_spw, index"
    " arrays) and conjugate_bls (every convention, index arrays) from 9 labelled data"
    " sets; every sequence of 2 operations (thorough: 3) of the reduced alphabet;"
    " oracle: cells keyed by labels with the conjugation law, and the documented sort"
    " order."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

DS = {
    "rect": dict(ants="conj", nt=3, nf=4, eq=True, scan=True, pc="multi"),
    "shuf": dict(ants="three", nt=2, layout="shuffle", nf=4, spw="two_rev",
                 pols=(-8, -5, -7, -6), inttime="bybl", scan=True),
    "rag": dict(ants="conj", nt=3, layout="ragshuf", nf=4, spw="overlap", pc="mixed",
                pols=(-3, -4), inttime="blt"),
    "bl": dict(ants="sorted", nt=3, layout="bl", nf=5, spw="two", eq=True,
               pols=(-1, -2, -3, -4)),
    "stokes": dict(ants="cross4", nt=2, nf=3, spw="one_desc", pols=(3, 1, 4), pc="sidA"),
    "wrap": dict(ants="cross4", nt=4, nf=2, pols=(-5,), t0="wrap", layout="shuffle"),
    "par": dict(ants="conj", nt=2, nf=3, pols=(-6, -5), pc="drift"),
    "uvwgrid": dict(ants="cross", nt=64, nf=1, pols=(-5, -6)),
    "meta": dict(ants="conj", nt=2, nf=4, spw="two", meta=True, scan=True),
    "halfpol": dict(ants="conj", nt=2, nf=2, pols=(-5, -7)),
    "flex": dict(ants="conj", nt=2, nf=2, pols=(-5, -6, -7, -8), flex=True),
}
CONJP = {-5: -5, -6: -6, -7: -8, -8: -7, -1: -1, -2: -2, -3: -4, -4: -3, 1: 1, 2: 2,
         3: 3, 4: 4}
CASA = [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]
_cache = {}


def dataset(name):
    if name not in _cache:
        kw = dict(DS[name])
        flex = kw.pop("flex", False)
        uv = gen.uvd(**kw)
        if flex:
            uv.convert_to_flex_pol()
        if name == "uvwgrid":
            # every combination of large, small (within the tolerance) and zero coordinates
            g = list(itertools.product((-3.0, -0.4, 0.0, 0.4, 3.0), repeat=3))
            g.remove((0.0, 0.0, 0.0))
            require(uv.Nblts >= len(g), "case: too few rows")
            uv.uvw_array = np.array([g[i % len(g)] for i in range(uv.Nblts)])
        _cache[name] = uv
    return _cache[name].copy()


def perm_of(n, k):
    x = list(range(n))
    if k == 0:
        return x[::-1]
    if k == 1:
        return x[1:] + x[:1]
    if k == 2:
        return x[1::2] + x[0::2]
    step = next(s for s in (3, 5, 7, 2, 1) if n % s)
    return [(i * step + 1) % n for i in range(n)] if n > 1 else x


# ---------------------------------------------------------------- op alphabet
ORDERS = ["time", "baseline", "ant1", "ant2", "bda"]
MINORS = [None, "time", "baseline", "ant1", "ant2"]
CONVS = ["ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0"]


def alphabet(name, full):
    uv = dataset(name)
    ops = []
    for o in ORDERS:
        for mi in MINORS:
            if o == "bda" and mi is not None:
                continue
            if o == "baseline" and mi in ("ant1", "ant2"):
                continue
            for af in (False, True):
                for cv in [None] + (CONVS if full else CONVS[:1]):
                    ops.append(["blts", o, mi, af, cv])
    for k in range(4):
        for cv in (None, "ant1<ant2"):
            ops.append(["bltsi", k, cv])
    for cv in CONVS:
        for enu in (True, False):
            for tol in (0.0, 1.0) if full else (0.0,):
                ops.append(["conj", cv, enu, tol])
    n = uv.Nblts
    for k, idx in enumerate([[0], [n - 1, 1], list(range(0, n, 3)), list(range(n))]):
        for f in ("list", "array", "tuple") if full else ("list",):
            ops.append(["conji", idx, f])
    for o in ("AIPS", "CASA"):
        ops.append(["pols", o])
    for p in itertools.permutations(range(uv.Npols)):
        ops.append(["polsi", list(p)])
    spws = [int(x) for x in uv.spw_array]
    for so in [None, "number", "-number", "freq", "-freq", "perm0", "perm1"]:
        for co in [None, "freq", "-freq"]:
            if so is None and co is None:
                continue
            ops.append(["freqs", so, co, None])
    for s in spws:
        for co in ["freq", "-freq"]:
            ops.append(["freqs", None, co, s])
            ops.append(["freqs", None, co, [s]])
    for k in range(4):
        ops.append(["freqsi", k])
    if not full:
        ops = ops[:: max(1, len(ops) // 14)]
        ops += [
            ["conj", "ant1<ant2", True, 0.0],
            ["conji", [0, 2], "list"],
            ["blts", "time", "baseline", False, None],
            ["blts", "baseline", "time", False, None],
            ["blts", "time", "baseline", True, None],
            ["freqs", "-number", "-freq", None],
            ["pols", "CASA"],
        ]
    return ops


def cases(tier):
    out = []
    for cv, tol in itertools.product(CONVS[2:], (0.0, 0.4, 1.0)):
        out.append(["uvwgrid", [["conj", cv, False, tol]]])
    for name in DS:
        if name == "uvwgrid":
            continue
        for op in alphabet(name, True):
            out.append([name, [op]])
        R = alphabet(name, False)
        for n in (2, 3) if tier != "quick" else (2,):
            for seq in itertools.product(R, repeat=n):
                out.append([name, list(seq)])
    return out


# ------------------------------------------------------------------- oracle
def conj_law(cells, rows, flexpol):
    """Model of conjugating the given row keys: returns new Cells-like dicts."""
    newrows = {}
    for k, r in cells.rows.items():
        if k not in rows:
            newrows[k] = r
            continue
        t, a, b = k
        r2 = dict(r)
        r2["ant_1_array"], r2["ant_2_array"] = r["ant_2_array"], r["ant_1_array"]
        r2["uvw_array"] = -r["uvw_array"]
        r2["baseline_array"] = None
        nk = (t, b, a)
        require(nk not in newrows, "alphabet produced two conjugate rows")
        newrows[nk] = r2
    newdata = None
    if cells.data is not None:
        newdata = {}
        for (k, f, p), v in cells.data.items():
            if k in rows:
                k2 = (k[0], k[2], k[1])
                newdata[k2, f, CONJP[p]] = (np.conj(v[0]), v[1], v[2])
            else:
                newdata[k, f, p] = v
    return newrows, newdata


def enu_vec(uv):
    xyz = uv.telescope.antenna_positions
    from pyuvdata import utils

    enu = utils.ENU_from_ECEF(xyz + gen.LOCXYZ, center_loc=gen.LOC)
    num = list(uv.telescope.antenna_numbers)
    return np.array(
        [enu[num.index(b)] - enu[num.index(a)] for a, b in zip(uv.ant_1_array, uv.ant_2_array)]
    )


def conj_rows(uv, conv, enu, tol):
    """indices the convention asks to flip"""
    if conv == "ant1<ant2":
        return [i for i in range(uv.Nblts) if uv.ant_1_array[i] > uv.ant_2_array[i]]
    if conv == "ant2<ant1":
        return [i for i in range(uv.Nblts) if uv.ant_2_array[i] > uv.ant_1_array[i]]
    vec = enu_vec(uv) if enu else uv.uvw_array
    order = (0, 1, 2) if conv[0] == "u" else (1, 0, 2)
    want = -1 if "<" in conv else 1
    out = []
    for i in range(len(vec)):
        s = 0
        for c in order:
            x = vec[i][c]
            if abs(x) > tol:
                s = 1 if x > 0 else -1
                break
        if s != 0 and s != want:
            out.append(i)
    return out


def row_keys(uv):
    return [
        (round(float(t), 9), int(a), int(b))
        for t, a, b in zip(uv.time_array, uv.ant_1_array, uv.ant_2_array)
    ]


def col(uv, what):
    return {
        "time": uv.time_array,
        "baseline": uv.baseline_array,
        "ant1": uv.ant_1_array,
        "ant2": uv.ant_2_array,
        "bda": uv.integration_time,
    }[what]


def sorted_by(uv, idx, keys, what):
    cols = [col(uv, k) for k in keys]
    tup = [tuple(float(c[i]) for c in cols) for i in idx]
    require(tup == sorted(tup), "%s: rows are not sorted by %s", what, keys)


def full_order(o, mi):
    if mi is None or mi == o:
        mi = {"time": "baseline", "ant1": "ant2", "ant2": "ant1", "baseline": "time",
              "bda": None}[o]
    return (o,) if mi is None else (o, mi)


def blt_order_true(uv, what):
    if uv.blt_order is None:
        return
    # with autos_first the order holds among the autos and among the crosses
    auto = [bool(x) for x in uv.ant_1_array == uv.ant_2_array]
    na = sum(auto)
    o, w = list(uv.blt_order), f"{what}: blt_order {uv.blt_order}"
    try:
        sorted_by(uv, range(uv.Nblts), o, w)
    except Violation:
        require(all(auto[:na]), "%s: rows are not sorted", w)
        sorted_by(uv, range(na), o, w)
        sorted_by(uv, range(na, uv.Nblts), o, w)


def run(case, ctx):
    name, ops = case
    uv = dataset(name)
    for op in ops:
        uv = one(name, uv, op, ctx)
        if uv is None:
            return
    ctx.trace()
    ctx.outcome(len(ops))


def one(name, uv, op, ctx):
    before = Cells(uv)
    keys0 = row_keys(uv)
    fr0, po0 = list(before.fr), list(before.po)
    spw0 = list(uv.spw_array)
    flex = uv.flex_spw_polarization_array is not None
    ctx.step()
    flip = []
    kind = op[0]
    what = str(op)
    if kind == "blts" and op[4]:
        flip = conj_rows(uv, op[4], True, 0.0)
    elif kind == "bltsi" and op[2]:
        flip = conj_rows(uv, op[2], True, 0.0)
    elif kind == "conj":
        flip = conj_rows(uv, op[1], op[2], op[3])
    elif kind == "conji":
        flip = op[1]
        if max(flip) >= uv.Nblts:
            return uv
    newk = [
        (k[0], k[2], k[1]) if i in set(flip) else k for i, k in enumerate(keys0)
    ]
    if len(set(newk)) != len(newk):
        ctx.outcome("n/a: both orientations present")
        return None
    needs_conj_pol = bool(flip) and (
        flex or any(CONJP[p] not in po0 for p in po0)
    )

    def call():
        if kind == "blts":
            uv.reorder_blts(order=op[1], minor_order=op[2], autos_first=op[3],
                            conj_convention=op[4])
        elif kind == "bltsi":
            uv.reorder_blts(order=perm_of(uv.Nblts, op[1]), conj_convention=op[2])
        elif kind == "conj":
            uv.conjugate_bls(op[1], use_enu=op[2], uvw_tol=op[3])
        elif kind == "conji":
            c = {"list": list, "array": np.array, "tuple": tuple}[op[2]](op[1])
            uv.conjugate_bls(c)
        elif kind == "pols":
            uv.reorder_pols(op[1])
        elif kind == "polsi":
            uv.reorder_pols(op[1])
        elif kind == "freqs":
            so = op[1]
            if so in ("perm0", "perm1"):
                so = perm_of(uv.Nspws, int(so[-1]))
            uv.reorder_freqs(spw_order=so, channel_order=op[2], select_spw=op[3])
        elif kind == "freqsi":
            uv.reorder_freqs(channel_order=perm_of(uv.Nfreqs, op[1]))

    if needs_conj_pol:
        # conjugation would need polarizations that are not there: must be refused,
        # or (flexible polarization) done correctly
        fr = Frozen(uv)
        try:
            call()
        except (ValueError, KeyError, NotImplementedError):
            fr.check(uv, f"refused {what}")
            ctx.outcome("refused: conjugate polarization absent")
            return None
        if not flex:
            raise Violation(f"{what}: conjugated although a conjugate pol is missing")
    else:
        call()
    # ---------------- content
    rows = {keys0[i] for i in flip}
    erows, edata = conj_law(before, rows, flex) if not flex else flex_law(before, rows)
    got = Cells(uv)
    require(set(got.rows) == set(erows), "%s: baseline-times changed", what)
    require(len(got.bl) == len(set(got.bl)), "%s: rows repeated", what)
    for k, r in erows.items():
        for n in r:
            if n == "baseline_array" and r[n] is None:
                want = uv.antnums_to_baseline(k[1], k[2])
                require(got.rows[k][n] == want, "%s: baseline number of %s", what, k)
            elif not same(r[n], got.rows[k][n]):
                raise Violation(f"{what}: {n} of row {k}: {r[n]} became {got.rows[k][n]}")
    require(sorted(got.fr) == sorted(fr0), "%s: channels changed", what)
    require(sorted(got.po) == sorted(po0), "%s: polarizations changed", what)
    for k, v in before.chan.items():
        require(got.chan[k] == v, "%s: channel %s: %s -> %s", what, k, v, got.chan[k])
    if not flex or not flip:
        require(before.win == got.win, "%s: windows %s -> %s", what, before.win, got.win)
    if flex:
        gdata = flex_cells(got)
    else:
        gdata = got.data
    if edata is not None:
        for k, v in edata.items():
            g = gdata.get(k)
            if g is None or g[0] != v[0] or g[1] != v[1] or g[2] != v[2]:
                raise Violation(f"{what}: cell {k}: expected {v} got {g}")
    for nm in ("ant", "tel", "g"):
        a, b = getattr(before.m, nm), getattr(got.m, nm)
        for k in a:
            require(same(a[k], b[k]), "%s: %s changed", what, k)
    # ---------------- order
    if kind == "blts":
        o = full_order(op[1], op[2]) + (("baseline",) if op[1] == "bda" else ()) + ("time",)
        idx = list(range(uv.Nblts))
        if op[3]:
            auto = [uv.ant_1_array[i] == uv.ant_2_array[i] for i in idx]
            na = sum(auto)
            require(all(auto[:na]), "%s: autos are not first", what)
            sorted_by(uv, idx[:na], o, what)
            sorted_by(uv, idx[na:], o, what)
        else:
            sorted_by(uv, idx, o, what)
        require(got.fr == fr0 and got.po == po0, "%s: another axis was reordered", what)
    elif kind == "bltsi":
        p = perm_of(uv.Nblts, op[1])
        require(got.bl == [newk[i] for i in p], "%s: not the requested order", what)
    elif kind in ("conj", "conji"):
        require(got.bl == newk, "%s: rows moved or wrong rows conjugated", what)
    elif kind == "pols":
        ref = (lambda p: abs(p)) if op[1] == "AIPS" else (lambda p: CASA.index(p))
        if not flex:
            require(got.po == sorted(po0, key=ref), "%s: order is %s", what, got.po)
    elif kind == "polsi":
        require(got.po == [po0[i] for i in op[1]], "%s: order is %s", what, got.po)
    elif kind == "freqsi":
        p = perm_of(uv.Nfreqs, op[1])
        require(got.fr == [fr0[i] for i in p], "%s: not the requested order", what)
    elif kind == "freqs":
        _, so, co, ss = op
        win = list(dict.fromkeys(s for s, f in fr0))
        chans = {w: [z for z in fr0 if z[0] == w] for w in win}
        expw = win
        if so in ("number", "-number"):
            expw = sorted(win, reverse=so[0] == "-")
        elif so in ("freq", "-freq"):
            med = {w: float(np.median([z[1] for z in chans[w]])) for w in win}
            expw = sorted(win, key=lambda w: med[w], reverse=so[0] == "-")
            if len(set(med.values())) < len(win):
                expw = None  # tie: any order
        elif so:
            expw = [int(spw0[i]) for i in perm_of(len(spw0), int(so[-1]))]
        sel = win if ss is None else (ss if isinstance(ss, list) else [ss])
        gw = list(dict.fromkeys(s for s, f in got.fr))
        grouped_before = len([1 for a, b in zip(fr0, fr0[1:]) if a[0] != b[0]]) == len(win) - 1
        if so or grouped_before:
            require(expw is None or gw == expw, "%s: windows in order %s", what, gw)
        for w in win:
            g = [z for z in got.fr if z[0] == w]
            e = chans[w]
            if co and w in sel:
                e = sorted(e, key=lambda z: z[1], reverse=co[0] == "-")
            require(g == e, "%s: channels of window %s are %s", what, w, g)
        if so:
            nb = len([1 for a, b in zip(got.fr, got.fr[1:]) if a[0] != b[0]])
            require(nb == len(win) - 1, "%s: windows not grouped", what)
    if kind in ("pols", "polsi", "freqs", "freqsi"):
        require(got.bl == keys0, "%s: rows were reordered", what)
    if kind in ("pols", "polsi"):
        require(got.fr == fr0, "%s: channels were reordered", what)
    if kind in ("freqs", "freqsi"):
        require(got.po == po0, "%s: pols were reordered", what)
    check_valid(uv, what)
    blt_order_true(uv, what)
    c = got.m.counts()
    for k in c:
        require(getattr(uv, k) == c[k], "%s: %s is %s", what, k, getattr(uv, k))
    ctx.state(got.m.digest())
    return uv


def flex_cells(cells):
    """cells keyed by the window's polarization"""
    if cells.data is None:
        return None
    return {
        (k, f[1], cells.win[f[0]]): v for (k, f, p), v in cells.data.items()
    }


def flex_law(cells, rows):
    class T:
        pass

    t = T()
    t.rows = cells.rows
    t.data = None
    r, _ = conj_law(t, rows, True)
    d = {}
    for (k, f, p), v in flex_cells(cells).items():
        if k in rows:
            d[(k[0], k[2], k[1]), f, CONJP[p]] = (np.conj(v[0]), v[1], v[2])
        else:
            d[k, f, p] = v
    return r, d
