"""C13: averaging in frequency, every flag pattern, against a plain model."""

import itertools

import numpy as np

from mc import gen, io
from mc.core import Violation, digest, require
from mc.model import BLT, UVModel, check_valid, describe, same

ID = "C13"
BOUNDS = (
    "Objects with 1-8 channels in one, descending, two, reversed, interleaved, overlapping, uneven and three spectral windows; every "
    "2^Nfreqs flag pattern present as rows; every averaging length 1..Nfreqs+1; windows respected or merged, ragged ends kept or "
    "dropped, flags propagated or not, sum or mean; with and without equalisation coefficients, flexible polarization windows, "
    "scan numbers; float16/32/64 sample counts, complex64/128, metadata-only; chains of two averagings."
)
ASSUMPTIONS = ["samples whose total weight is zero are not averaged", "averagings that would leave no channel at all are not claimed"]

SPW = {
    "one": lambda n: [4] * n if False else None,
    "two": lambda n: [2] * (n // 2) + [5] * (n - n // 2),
    "rev": lambda n: [7] * (n - n // 2) + [1] * (n // 2),
    "uneven": lambda n: [3] + [0] * (n - 1),
    "uneven2": lambda n: [0] * (n - 1) + [3],
    "inter": lambda n: [i % 2 + 1 for i in range(n)],
    "three": lambda n: [5] * (n // 3) + [2] * (n // 3) + [9] * (n - 2 * (n // 3)),
}
_c = {}


def build(nf, spw, opt):
    key = repr((nf, spw, sorted(opt.items())))
    if key in _c:
        return _c[key].copy()
    nrow = min(2**nf, 64)
    nt = max(1, -(-nrow // 6))
    kw = dict(ants="conj", nt=nt, nf=nf, pols=(-5, -7), seed=2, layout="time", pc="sidA")
    if opt.get("dtype"):
        kw["dtype"] = np.dtype(opt["dtype"])
    if opt.get("meta"):
        kw["meta"] = True
    if opt.get("eq"):
        kw["eq"] = True
    if opt.get("scan"):
        kw["scan"] = True
    uv = gen.uvd(**kw)
    f = 1e8 + np.arange(nf) * 1e5
    w = np.full(nf, 1e5)
    if opt.get("irr"):
        f = f + (np.arange(nf) ** 2) * 3e4
        w = w + np.arange(nf) * 1e3
    if opt.get("desc"):
        f = f[::-1]
    ids = SPW[spw](nf)
    uv.freq_array, uv.channel_width = f.copy(), w.copy()
    if ids is not None:
        ids = np.array(ids)
        uniq = list(dict.fromkeys(ids.tolist()))
        if opt.get("sorted"):
            uniq.sort()
        uv.flex_spw_id_array = ids
        uv.spw_array = np.array(uniq)
        uv.Nspws = len(uniq)
        if opt.get("overlap"):
            for s in uniq:
                m = ids == s
                uv.freq_array[m] = 1e8 + np.arange(m.sum()) * 1e5
    if not opt.get("meta"):
        n = uv.Nblts
        fl = np.zeros((n, nf, 2), bool)
        for r in range(n):
            for c in range(nf):
                fl[r, c, 0] = (r >> (c % 6)) & 1
                fl[r, c, 1] = ((r * 7 + 3) >> (c % 6)) & 1
        uv.flag_array = fl
        # every n must be a positive weight; distinct
        uv.nsample_array = uv.nsample_array.astype(opt.get("ns", "f4"))
    if opt.get("flexpol"):
        uv.convert_to_flex_pol()
    uv.check()
    _c[key] = uv
    return uv.copy()


def groups(spw_ids, spw_array, n, respect, ragged):
    """list of (spw label, [channel indices])."""
    out = []
    if respect:
        for s in spw_array:
            ch = [i for i, x in enumerate(spw_ids) if x == s]
            out += [(s, ch[i : i + n]) for i in range(0, len(ch), n)]
    else:
        ch = list(range(len(spw_ids)))
        out = [(0 if len(spw_array) > 1 else spw_array[0], ch[i : i + n]) for i in range(0, len(ch), n)]
    if not ragged:
        out = [g for g in out if len(g[1]) == n]
    return out


def model(m, a):
    """-> (groups, dict of expected columns)"""
    ids = m.c["flex_spw_id_array"]
    gr = groups(ids.tolist(), m.spw.tolist(), a["n"], a["respect"], a["ragged"])
    e = {
        "spw": [g[0] for g in gr],
        "freq": [float(np.mean([m.c["freq_array"][i] for i in g[1]])) for g in gr],
        "width": [float(sum(m.c["channel_width"][i] for i in g[1])) for g in gr],
        "eq": None,
        "d": None,
    }
    if m.c["eq_coeffs"] is not None:
        e["eq"] = [sum(m.c["eq_coeffs"][:, i] for i in g[1]) / len(g[1]) for g in gr]
    if m.c["data_array"] is not None:
        D, F, N = m.c["data_array"], m.c["flag_array"], m.c["nsample_array"].astype(float)
        e["d"], e["f"], e["n"] = [], [], []
        for _, g in gr:
            full = np.ones(F[:, 0].shape, bool)
            any_ = np.zeros(F[:, 0].shape, bool)
            for i in g:
                full &= F[:, i]
                any_ |= F[:, i]
            num = np.zeros(full.shape, complex)
            wt = np.zeros(full.shape)
            sm = np.zeros(full.shape, complex)
            for i in g:
                use = ~F[:, i] | full
                w = np.where(use, N[:, i], 0)
                num += w * D[:, i]
                wt += w
                sm += np.where(use, D[:, i], 0)
            e["d"].append(sm if a["sum"] else num / wt)
            e["f"].append(any_ if a["prop"] else full)
            e["n"].append(wt / len(g))
    return gr, e


def compare(m, a, uv, what, tol):
    gr, e = model(m, a)
    g = UVModel(uv)
    sp = g.c["flex_spw_id_array"].tolist()
    require(len(sp) == len(gr) and uv.Nfreqs == len(gr), f"{what}: {len(sp)} channels, Nfreqs {uv.Nfreqs}; expected {len(gr)}")
    # same windows, each with its channels in order
    perm = []
    for s in dict.fromkeys(e["spw"]):
        gi = [i for i, x in enumerate(sp) if x == s]
        ei = [i for i, x in enumerate(e["spw"]) if x == s]
        require(len(gi) == len(ei), f"{what}: window {s} has {len(gi)} channels, expected {len(ei)}")
        perm += list(zip(ei, gi))
    for i, j in perm:
        w = f"{what}: window {e['spw'][i]} channels {gr[i][1]}"
        require(abs(e["freq"][i] - g.c["freq_array"][j]) < 1e-3, f"{w}: frequency {g.c['freq_array'][j]} expected {e['freq'][i]}")
        require(abs(e["width"][i] - g.c["channel_width"][j]) < 1e-6, f"{w}: channel width")
        if e["eq"] is not None:
            require(np.allclose(e["eq"][i], g.c["eq_coeffs"][:, j], rtol=1e-9), f"{w}: eq_coeffs")
        if e["d"] is None:
            require(g.c["data_array"] is None, f"{w}: data appeared")
            continue
        if not np.array_equal(e["f"][i], g.c["flag_array"][:, j]):
            raise Violation(f"{w}: flags: {describe(e['f'][i], g.c['flag_array'][:, j])}")
        if not np.allclose(e["n"][i], g.c["nsample_array"][:, j], rtol=tol[1], atol=0):
            raise Violation(f"{w}: nsamples: {describe(e['n'][i], g.c['nsample_array'][:, j])}")
        if not np.allclose(e["d"][i], g.c["data_array"][:, j], rtol=tol[0], atol=0):
            raise Violation(f"{w}: data: {describe(e['d'][i], g.c['data_array'][:, j])}")
    want = [s for s in m.spw.tolist() if s in set(e["spw"])] if (a["respect"] or len(m.spw) == 1) else [0]
    require(sorted(g.spw.tolist()) == sorted(want), f"{what}: spw_array {g.spw.tolist()}, expected {want}")
    require(uv.Nspws == len(want), f"{what}: Nspws {uv.Nspws}")
    if m.fpol is not None:
        fp = dict(zip(m.spw.tolist(), np.asarray(m.fpol).tolist()))
        got = dict(zip(g.spw.tolist(), np.asarray(g.fpol).tolist()))
        require(got == {s: fp[s] for s in want}, f"{what}: polarization of windows {got}")
    else:
        require(g.fpol is None, f"{what}: flex_spw_polarization_array appeared")
    for n in BLT + ["polarization_array"]:
        require(same(m.c[n], g.c[n]), f"{what}: {n} changed")
    if e["d"] is not None:
        for n in ("data_array", "flag_array", "nsample_array"):
            require(m.c[n].dtype == g.c[n].dtype, f"{what}: {n} dtype {g.c[n].dtype}")
    for n, v in g.counts().items():
        require(getattr(uv, n) == v, f"{what}: {n} is {getattr(uv, n)}")
    check_valid(uv, what)


ARGS = [
    dict(zip(("respect", "ragged", "prop", "sum"), v)) for v in itertools.product((True, False), repeat=4)
]
OPTS = [
    {},
    {"irr": 1},
    {"eq": 1, "irr": 1},
    {"desc": 1, "dtype": "c8"},
    {"ns": "f2"},
    {"ns": "f8", "sorted": 1},
    {"meta": 1, "eq": 1, "irr": 1},
    {"overlap": 1, "scan": 1},
]


def cases(tier):
    out = []
    full = tier == "thorough"
    i = 0
    for spw in SPW:
        for nf in range(1, 9):
            if spw != "one" and nf < 2 or (spw == "three" and nf < 3):
                continue
            for n in range(1, nf + 2):
                for a in ARGS:
                    i += 1
                    opts = OPTS if full else [OPTS[(i * 3) % 8], OPTS[(i * 5 + 1) % 8]]
                    for o in opts:
                        if o.get("overlap") and not a["respect"] and False:
                            continue
                        out.append([nf, spw, o, [dict(a, n=n)]])
    for nf in (2, 3, 4):
        for n in range(1, 4):
            for a in ARGS:
                out.append([nf, "one", {"flexpol": 1}, [dict(a, n=n)]])
                out.append([nf, "two", {"flexpol": 1, "irr": 1}, [dict(a, n=n)]])
    for spw in ("one", "two", "inter", "uneven"):
        for nf in (5, 6, 8):
            for a, b in itertools.product(ARGS, ARGS) if full else zip(ARGS, ARGS[3:] + ARGS[:3]):
                for n, k in ((2, 2), (3, 2), (2, 3)):
                    out.append([nf, spw, {"eq": 1}, [dict(a, n=n), dict(b, n=k)]])
    return out


def run(case, ctx):
    nf, spw, opt, seq = case
    uv = build(nf, spw, opt)
    tol = (1e-5, 1e-3 if opt.get("ns") == "f2" else 2e-6)
    for k, a in enumerate(seq):
        what = f"{k}:{a}"
        m = UVModel(uv)
        gr, _ = model(m, a)
        if not gr:
            ctx.outcome("nothing left")
            return
        refuse = m.fpol is not None and not a["respect"] and len(set(np.asarray(m.fpol).tolist())) > 1
        try:
            uv.frequency_average(
                a["n"], summing_correlator_mode=a["sum"], propagate_flags=a["prop"], respect_spws=a["respect"], keep_ragged=a["ragged"]
            )
            err = None
        except ValueError as e:
            err = e
        ctx.step()
        if refuse:
            require(err is not None, f"{what}: merged windows of different polarizations")
            ctx.trace()
            ctx.outcome("refused")
            return
        if err is not None and spw == "inter" and len(m.spw) > 1 and a["respect"]:
            # channels of different windows interspersed: may be refused, never mixed up
            for n in m.c:
                require(same(m.c[n], UVModel(uv).c[n]), f"{what}: refused, but {n} changed")
            ctx.trace()
            ctx.outcome("interspersed refused")
            return
        if err is not None:
            raise Violation(f"{what}: {type(err).__name__} {err}")
        compare(m, a, uv, what, tol)
        if k == 0 and len(seq) > 1 and uv.flag_array is not None and not uv.flag_array.any():
            ctx.outcome("no flags left")
        ctx.state(digest(UVModel(uv).digest()))
    ctx.trace()
    ctx.outcome("ok")
