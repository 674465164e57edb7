"""C01: UVData selection keeps exactly the requested cells, correctly labelled."""

import itertools

import numpy as np

from mc import gen, sel
from mc.core import Violation, expect_raises, require
from mc.model import Frozen, UVModel, compare_uv

ID = "C01"
BOUNDS = (
    "UVData.select on 11 small labelled data sets (rectangular both ways, ragged, "
    "shuffled, conjugated, multi/interleaved/overlapping windows, flex-pol, several "
    "phase-centre kinds, metadata-only, LST wrap); every non-empty subset of antennas,"
    " pairs, times, channels, polarizations, phase centres and every half-step range; "
    "every pair of criteria from the reduced alphabet; every 2-step select history"
    " (thorough: triples and larger alphabets). A case is non-trivial by its distinct"
    " resulting object."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

DS = {
    "rect": dict(ants="conj", layout="time", eq=True, scan=True, pc="multi"),
    "bl": dict(ants="three", layout="bl", nt=3, spw="two", inttime="blt"),
    "ragged": dict(ants="conj", layout="ragged", pc="mixed", spw="two_rev", eq=True),
    "shuf": dict(ants="three", layout="shuffle", spw="inter", pols=(-8, -5, -7, -6)),
    "ragshuf": dict(ants="conj", layout="ragshuf", pc="multi", pols=(-6, -5), nt=4),
    "overlap": dict(ants="cross", layout="bl", spw="overlap", nf=4, pols=(-5,)),
    "wrap": dict(ants="two", nt=4, t0="wrap", pc="sidA", nf=2, pols=(-5, -6)),
    "meta": dict(ants="conj", layout="ragged", pc="multi", meta=True, eq=True),
    "circ": dict(ants="cross", nt=2, pols=(-1, -2, -3, -4), pc="drift", nf=3),
    "stokes": dict(ants="cross", nt=2, pols=(4, 1, 2), nf=5, spw="one_desc", eq=True),
    "flexpol": dict(ants="cross", nt=2, nf=3, pols=(-5, -6, -7), pc="ephem"),
    "wide": dict(ants="cross", nt=4, nf=8, layout="time", pols=(-5, -6), spw="one"),
    "flex2": dict(ants="cross", nt=2, nf=4, spw="two", pols=(-6, -5)),
}
_cache = {}


def wrap_t0():
    # a start time such that LST passes through 0 inside the data set
    key = "wrap_t0"
    if key not in _cache:
        from pyuvdata.utils import get_lst_for_time

        t = gen.JD0 + np.arange(0, 1.2, 1e-4)
        lst = get_lst_for_time(t, telescope_loc=gen.LOC)
        i = int(np.nonzero(np.diff(lst) < 0)[0][0])
        _cache[key] = float(t[i] + 0.5e-4 - 1.5 * gen.DT)
    return _cache[key]


def dataset(name):
    if name not in _cache:
        kw = dict(DS[name])
        if kw.get("t0") == "wrap":
            kw["t0"] = wrap_t0()
        uv = gen.uvd(**kw)
        if name.startswith("flex"):
            uv.convert_to_flex_pol()
        _cache[name] = uv
    return _cache[name].copy()


def alphabet(name, full=True, uv=None):
    """category -> list of atoms for this data set."""
    uv = dataset(name) if uv is None else uv
    m = UVModel(uv)
    c = m.c
    ants = sorted(set(c["ant_1_array"].tolist()) | set(c["ant_2_array"].tolist()))
    pairs = sorted(set(zip(c["ant_1_array"].tolist(), c["ant_2_array"].tolist())))
    nt, nf, nblt = uv.Ntimes, uv.Nfreqs, uv.Nblts
    pols = (
        sorted(set(np.asarray(m.fpol).tolist()))
        if m.fpol is not None
        else c["polarization_array"].tolist()
    )
    A = {}
    forms = ["list", "array", "tuple", "2d"]
    a = []
    for i, s in enumerate(sel.subsets(ants)):
        if full or len(s) in (2, len(ants) - 1):
            a.append({"k": "antenna_nums", "v": s, "f": forms[i % 4]})
            a.append({"k": "antenna_names", "v": s, "f": forms[(i + 1) % 4]})
    if full:
        a.append({"k": "antenna_nums", "v": [ants[0]], "f": "scalar"})
        a.append({"k": "antenna_names", "v": [ants[-1]], "f": "scalar"})
        a.append({"k": "antenna_nums", "v": ants[::-1], "f": "list"})
        a.append({"k": "antenna_nums", "v": [ants[0], 99], "f": "list"})
        a.append({"k": "antenna_nums", "v": [5], "f": "list"})  # no data antenna
    A["ant"] = a if full else a[:: max(1, len(a) // 5)]
    b = []
    for s in sel.subsets(range(len(pairs)), 1, 2 if full else 1):
        p = [list(pairs[i]) for i in s]
        b.append({"k": "bls", "v": p})
        b.append({"k": "bls", "v": [x[::-1] for x in p]})
        b.append({"k": "bl_nums", "v": p})
    b.append({"k": "bls", "v": [list(pairs[0])[::-1]], "f": "scalar"})
    b.append({"k": "bls", "v": [[12, 9]]})
    b.append({"k": "bls", "v": [list(x) for x in pairs]})
    if m.fpol is None and min(pols) < 0:
        for x in pairs[:4]:
            for pl in pols:
                s = sel.POLSTR[pl]
                b.append({"k": "bls", "v": [list(x) + [s]]})
                b.append({"k": "bls", "v": [list(x)[::-1] + [s]]})
        if len(pols) > 1:
            b.append(
                {
                    "k": "bls",
                    "v": [
                        list(pairs[0]) + [sel.POLSTR[pols[0]]],
                        list(pairs[-1])[::-1] + [sel.POLSTR[pols[1]]],
                    ],
                }
            )
    A["bls"] = b if full else b[:: max(1, len(b) // 6)]
    s = [
        {"k": "ant_str", "items": x}
        for x in [["all"], ["auto"], ["cross"], ["auto", "cross"]]
    ]
    for x in ants:
        s.append({"k": "ant_str", "items": [[1, x, None, None, None]]})
        s.append({"k": "ant_str", "items": [[-1, x, None, None, None]]})
    for x, y in pairs:
        s.append({"k": "ant_str", "items": [[1, x, None, y, None]]})
        s.append({"k": "ant_str", "items": [[1, y, None, x, None]]})
        s.append({"k": "ant_str", "items": [[-1, y, None, x, None]]})
        s.append({"k": "ant_str", "items": ["cross", [-1, x, None, y, None]]})
    s.append({"k": "ant_str", "items": [[1, ants[:2], None, ants[-1], None]]})
    s.append({"k": "ant_str", "items": [[1, ants[0], None, ants[1:], None]]})
    s.append({"k": "ant_str", "items": [[1, ants[0], None, None, None], [-1, ants[1], None, ants[0], None]]})
    s.append({"k": "ant_str", "items": ["all", [-1, ants[1], None, None, None]]})
    if m.fpol is None:
        x, y = pairs[0]
        for p in pols:
            st = sel.POLSTR[p]
            if st[0] != "p":
                s.append({"k": "ant_str", "items": [[1, x, st[0], y, st[1]]]})
                if st[0] == st[1]:
                    s.append({"k": "ant_str", "items": [[1, x, st[0], y, None]]})
                    s.append({"k": "ant_str", "items": [[1, x, None, y, st[0]]]})
            else:
                s.append({"k": "ant_str", "items": [st]})
    if m.fpol is not None:
        s = s[:0]
    A["str"] = s if full else s[:: max(1, len(s) // 6)]
    t = []
    for i, x in enumerate(sel.subsets(range(nt))):
        t.append({"k": "times", "ti": x, "f": forms[i % 4]})
        if full:
            t.append({"k": "lsts", "ti": x, "f": forms[(i + 2) % 4]})
    if full:
        t.append({"k": "times", "ti": [nt - 1], "f": "scalar"})
        t.append({"k": "lsts", "ti": [0], "f": "scalar"})
    for lo, hi in itertools.combinations_with_replacement(range(-1, 2 * nt), 2):
        t.append({"k": "time_range", "lo": lo, "hi": hi})
        if full or (lo + hi) % 3 == 0:
            t.append({"k": "lst_range", "lo": lo, "hi": hi, "f": forms[(lo + hi) % 3]})
    if full:
        for lo in range(0, 2 * nt):
            for hi in range(-1, lo):
                if name == "wrap":
                    continue
                t.append({"k": "lst_range", "lo": lo, "hi": hi})
    A["time"] = t if full else t[:: max(1, len(t) // 6)]
    bl = [
        {"k": "blt_inds", "v": list(range(0, nblt, 2)), "f": "array"},
        {"k": "blt_inds", "v": [nblt - 1], "f": "scalar"},
        {"k": "blt_inds", "v": [2, 1, 1], "f": "list"},
        {"k": "blt_inds", "v": list(range(nblt // 2)), "f": "2d"},
        {"k": "blt_inds", "v": [0, nblt], "f": "list"},
        {"k": "blt_inds", "v": list(range(nblt))[::-1], "f": "list"},
    ]
    bl += [{"k": "blt_inds", "v": [i]} for i in range(nblt)] if full else []
    A["blt"] = bl if full else bl[:4]
    ids = sorted(set(c["phase_center_id_array"].tolist()))
    names = sorted(v["cat_name"] for v in m.cat.values())
    pc = [{"k": "phase_center_ids", "v": x, "f": "list"} for x in sel.subsets(ids)]
    pc += [{"k": "catalog_names", "v": x, "f": "list"} for x in sel.subsets(names)]
    pc.append({"k": "phase_center_ids", "v": [ids[0]], "f": "scalar"})
    pc.append({"k": "catalog_names", "v": [names[-1]], "f": "scalar"})
    pc.append({"k": "phase_center_ids", "v": [55], "f": "list"})
    A["pc"] = pc if full else pc[:3]
    f = []
    for i, x in enumerate(sel.subsets(range(nf))):
        f.append({"k": "freq_chans", "v": x, "f": forms[i % 4]})
        f.append({"k": "frequencies", "v": x, "f": forms[(i + 1) % 4]})
        if len(x) == 2:
            f.append({"k": "freq_both", "v": x[:1], "w": x[1:], "f": "list"})
    f.append({"k": "freq_chans", "v": [nf - 1], "f": "scalar"})
    f.append({"k": "frequencies", "v": [0], "f": "scalar"})
    f.append({"k": "freq_chans", "v": list(range(nf))[::-1], "f": "list"})
    A["freq"] = f if full else f[:: max(1, len(f) // 6)]
    p = []
    for i, x in enumerate(sel.subsets(pols)):
        p.append({"k": "polarizations", "v": x, "f": forms[i % 4]})
        p.append({"k": "polarizations", "v": x, "s": "str", "f": "list"})
        if min(x) >= -8 and max(x) <= -5:
            p.append({"k": "polarizations", "v": x, "s": "ew", "f": "list"})
    p.append({"k": "polarizations", "v": pols[::-1], "f": "list"})
    p.append({"k": "polarizations", "v": [pols[0]], "f": "scalar"})
    p.append({"k": "polarizations", "v": [pols[0], -4 if -4 not in pols else -8]})
    A["pol"] = p if full else p[:: max(1, len(p) // 5)]
    return A


CONFLICT = [{"str", "ant"}, {"str", "bls"}, {"str", "pol"}]


def cases(tier):
    out = []
    for i in range(NBAD):
        for inplace in (True, False):
            out.append(["malformed", i, inplace])
    # every index pattern (runs, strides, gaps) along an axis of length 8
    n = dataset("wide").Nblts
    for i, x in enumerate(sel.subsets(range(8))):
        y = [v + n - 8 for v in x] if i % 2 else x
        out.append(["wide", [[{"k": "blt_inds", "v": y}]], bool(i % 3), True])
        out.append(["wide", [[{"k": "freq_chans", "v": x}]], not i % 3, True])
        out.append(
            ["wide", [[{"k": "blt_inds", "v": y}, {"k": "freq_chans", "v": x}]], True, True]
        )
    for name in DS:
        if name == "wide":
            continue
        A = alphabet(name, True)
        R = alphabet(name, False)
        for cat in A:
            for i, a in enumerate(A[cat]):
                # all four option combinations on a rotating schedule in quick
                opts = [(ip, ka) for ip in (True, False) for ka in (True, False)]
                if tier == "quick":
                    opts = [opts[i % 4], opts[(i + 3) % 4]]
                for ip, ka in opts:
                    out.append([name, [[a]], ip, ka])
        cats = list(R)
        k = 0
        for c1, c2 in itertools.combinations(cats, 2):
            if {c1, c2} in CONFLICT:
                continue
            for a, b in itertools.product(R[c1], R[c2]):
                if (
                    c1 == "bls" and c2 == "pol" and len(a["v"][0]) == 3
                ):
                    continue
                k += 1
                out.append([name, [[a, b]], bool(k % 2), bool(k % 3)])
        # two-step histories from the reduced alphabet
        atoms = [x for c in cats for x in R[c]]
        if tier == "quick":
            atoms = atoms[::2]
        for i, (a, b) in enumerate(itertools.product(atoms, atoms)):
            if tier == "quick" and (i + len(name)) % 6:
                continue
            out.append([name, [[a], [b]], True, bool(i % 3)])
        if tier != "quick":
            for c1, c2, c3 in itertools.combinations(cats, 3):
                for j, (a, b, d) in enumerate(itertools.product(R[c1], R[c2], R[c3])):
                    cs = {c1, c2, c3}
                    if any(x <= cs for x in CONFLICT):
                        continue
                    if {"bls", "pol"} <= cs and any(
                        len(x["v"][0]) == 3 for x in (a, b, d) if x["k"] == "bls"
                    ):
                        continue
                    if {"ant", "bls", "str"} <= cs:
                        continue
                    out.append([name, [[a, b, d]], bool(j % 2), bool(j % 3)])
    return out


NBAD = 54


def malformed(uv):
    t, l = float(uv.time_array[0]), float(uv.lst_array[0])
    return [
        dict(bls=[]), dict(antenna_nums=[]), dict(antenna_names=[]), dict(freq_chans=[]), dict(frequencies=[]), dict(spws=[]), dict(times=[]), dict(lsts=[]), dict(blt_inds=[]), dict(polarizations=[]),
        dict(phase_center_ids=[]), dict(catalog_names=[]), dict(bls=[(0, 3), 4]), dict(bls=[("a", "b")]), dict(bls=[(0, 3, -5)]), dict(bls=[(0,)]), dict(bls=[(0, 99)]), dict(bls=(0, 99)), dict(bls=[7]),
        dict(bls=[(0, 3, "xx")], polarizations=[-5]), dict(ant_str="cross", antenna_nums=[0]), dict(ant_str="cross", bls=[(0, 3)]), dict(ant_str="auto", polarizations=[-5]), dict(ant_str="wat"),
        dict(antenna_nums=[99]), dict(antenna_nums=[0, 99]), dict(antenna_names=["zzz"]), dict(antenna_nums=[0], antenna_names=[uv.telescope.antenna_names[0]]), dict(frequencies=[1.0]), dict(frequencies=[float(uv.freq_array[0]), 1.0]),
        dict(freq_chans=[99]), dict(spws=[77]), dict(times=[1.0]), dict(times=[t, 1.0]), dict(time_range=[0, 1]), dict(time_range=[0]), dict(time_range=[t + 1, t - 1]), dict(times=[t], time_range=[0, 3e6]),
        dict(lsts=[9.0]), dict(lsts=[l, 9.0]), dict(lst_range=[1]), dict(lsts=[l], lst_range=[0, 6]), dict(times=[t], lsts=[l]), dict(time_range=[0, 3e6], lst_range=[0, 6]), dict(blt_inds=[-1]), dict(blt_inds=[0, 9999]),
        dict(polarizations=[-1]), dict(polarizations=[-5, -1]), dict(polarizations=["rr"]), dict(polarizations=["zz"]), dict(phase_center_ids=[99]), dict(catalog_names=["zzz"]), dict(phase_center_ids=[0], catalog_names=["x"]),
        dict(time_range=[[0, 1, 2]]),
    ]


def run(case, ctx):
    if case[0] == "malformed":
        uv = gen.uvd(ants="three", nt=3, nf=4, pols=(-5, -6, -7, -8), pc="multi", spw="two")
        kw = malformed(uv)[case[1]]
        fr = Frozen(uv)
        expect_raises(lambda: uv.select(inplace=case[2], **kw), Exception, f"select {kw}")
        fr.check(uv, f"refused select {kw}")
        ctx.step()
        ctx.outcome("refused")
        ctx.trace()
        return
    name, steps, inplace, keep = case
    uv = dataset(name)
    m = UVModel(uv)
    for atoms in steps:
        kw = {}
        try:
            for a in atoms:
                kw.update(sel.kwargs_of(a, m))
        except IndexError:
            ctx.outcome("n/a")
            return
        if not keep:
            kw["keep_all_metadata"] = False
        try:
            exp = sel.select_model(m, atoms, keep)
            if exp.fpol is not None and len(set(np.asarray(exp.fpol).tolist())) == 1:
                exp.c["polarization_array"] = np.asarray(exp.fpol)[:1]
                exp.fpol = None
        except sel.NoMatch as e:
            fr = Frozen(uv)
            expect_raises(
                lambda: uv.select(inplace=inplace, **kw), Exception, f"select {kw}"
            )
            fr.check(uv, "rejected select")
            ctx.outcome(f"rejected {e}")
            ctx.step()
            continue
        ctx.step()
        if inplace:
            require(uv.select(**kw) is None, "inplace select returned a value")
            res = uv
        else:
            fr = Frozen(uv)
            res = uv.select(inplace=False, **kw)
            fr.check(uv, "select(inplace=False)")
        require(
            (res.data_array is None) == (exp.c["data_array"] is None), "data presence"
        )
        compare_uv(exp, res, f"select {atoms}")
        require(res.history.startswith(f"mc test object 0."), "history lost")
        uv, m = res, exp
        m = UVModel(uv)
        ctx.state(m.digest())
    ctx.trace()
    ctx.outcome(
        (name, m.counts()["Nblts"], m.counts()["Nfreqs"], m.counts()["Npols"])
    )
