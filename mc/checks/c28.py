"""C28: a flexible-polarization object holds the same samples as the object with a polarization axis."""

import itertools

import numpy as np

from mc import gen
from mc.core import Violation, digest, require
from mc.model import Frozen, UVModel, check_valid

ID = "C28"
BOUNDS = (
    "convert_to_flex_pol on objects with 1-3 spectral windows (one, descending, two of different lengths, unsorted numbers, "
    "overlapping) x 7 polarization sets and orders x 3 row layouts, with and without data, equalisation coefficients and several "
    "phase centers; then every history of up to two steps over {select of each window, of window halves, of one polarization, of rows, of "
    "channels; reorder windows, channels (one window only as well), concatenate back} and remove_flex_pol with and without "
    "combining. Oracle: the bag of labelled (window frequencies, widths, polarization) -> samples."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

SPW = ["one", "one_desc", "two", "two_rev", "two_eqw", "overlap"]
POLS = [(-5, -6), (-5, -6, -7, -8), (-8, -5, -7), (-6,), (1, 2, 3, 4), (-1, -2), (3, 1)]
OPS = ["none", "spw0", "spwlast", "spwhalf", "spwodd", "pol0", "pollast", "rows", "rev", "freqrev", "onerev", "chan", "interleave"]


def cases(tier):
    out = []
    i = 0
    for spw, p in itertools.product(SPW, POLS):
        for lay in ("time", "ragged", "shuffle"):
            for o in [dict(), dict(meta=1), dict(eq=1), dict(eq=1, meta=1)]:
                if tier != "thorough" and (i % 2) and o:
                    i += 1
                    continue
                kw = dict(spw=spw, pols=p, layout=lay, nf=5 if spw in ("two", "overlap") else 4, nt=2, pc=("sidA", "multi", "unproj")[i % 3], seed=i % 4,
                          dtype=("complex128", "complex64")[i % 2])
                for op in OPS:
                    for comb in (True, False):
                        out.append(["flex", kw, o, [op], comb])
                i += 1
    for spw, p in itertools.product(SPW, POLS[:3] + POLS[4:5]):
        kw = dict(spw=spw, pols=p, layout="time", nf=5 if spw in ("two", "overlap") else 4, nt=2, pc="sidA")
        for a, b in itertools.permutations(OPS[1:], 2):
            out.append(["flex", kw, {}, [a, b], True])
            if tier == "thorough":
                out.append(["flex", kw, {"eq": 1}, [a, b], True])
                out.append(["flex", kw, {}, [a, b], False])
    return out


_cache = {}


def build(kw, o):
    k = repr((sorted(kw.items()), sorted(o.items())))
    if k not in _cache:
        if len(_cache) > 60:
            _cache.clear()
        kw = dict(kw)
        kw["dtype"] = np.dtype(kw.get("dtype", "complex128"))
        kw["pols"] = tuple(kw["pols"])
        uv = gen.uvd(**kw)
        if o.get("eq"):
            n = uv.telescope.Nants
            uv.eq_coeffs = 1.0 + np.arange(n * uv.Nfreqs).reshape(n, uv.Nfreqs) / 16.0
            uv.eq_coeffs_convention = "divide"
        else:
            uv.eq_coeffs = None
            uv.eq_coeffs_convention = None
        if o.get("meta"):
            uv = uv.copy(metadata_only=True)
        uv.check()
        _cache[k] = uv
    return _cache[k].copy()


def windows(uv):
    out = []
    fl = uv.flex_spw_polarization_array
    for i, s in enumerate(uv.spw_array.tolist()):
        idx = np.nonzero(uv.flex_spw_id_array == s)[0]
        # channels of a window are labelled by their frequency
        idx = idx[np.argsort(uv.freq_array[idx], kind="stable")]
        fr, w = tuple(uv.freq_array[idx].tolist()), tuple(uv.channel_width[idx].tolist())
        eq = None if uv.eq_coeffs is None else uv.eq_coeffs[:, idx].tobytes()
        for m, p in enumerate(uv.polarization_array.tolist() if fl is None else [int(fl[i])]):
            dat = None
            if uv.data_array is not None:
                dat = digest(uv.data_array[:, idx, m], uv.flag_array[:, idx, m], uv.nsample_array[:, idx, m])
            out.append((s, fr, w, p, eq, dat))
    return out


def bag(ws, number=False):
    return sorted((repr(w if number else w[1:]) for w in ws))


ROWS = ("time_array", "lst_array", "ant_1_array", "ant_2_array", "uvw_array", "integration_time", "baseline_array",
        "phase_center_id_array", "phase_center_app_ra", "phase_center_frame_pa")


def rest(uv):
    m = UVModel(uv)
    return digest([getattr(uv, n) for n in ROWS], m.cat, m.ant, uv.history, uv.extra_keywords, uv.telescope.name, uv.vis_units, uv.Nblts, uv.Ntimes)


def valid(uv, what):
    try:
        uv.check(run_check_acceptability=False)
    except ValueError as e:
        raise Violation(f"{what}: check() fails: {e}") from e
    require(uv.Nfreqs == len(uv.freq_array) == len(uv.channel_width) == len(uv.flex_spw_id_array), "%s: Nfreqs", what)
    require(uv.Nspws == len(uv.spw_array) == len(set(uv.spw_array.tolist())), "%s: windows %s", what, uv.spw_array)
    require(set(uv.spw_array.tolist()) == set(uv.flex_spw_id_array.tolist()), "%s: window numbers", what)
    require(uv.Npols == len(uv.polarization_array), "%s: Npols", what)
    if uv.eq_coeffs is not None:
        require(uv.eq_coeffs.shape == (uv.telescope.Nants, uv.Nfreqs), "%s: equalisation coefficients have shape %s for %s channels", what, uv.eq_coeffs.shape, uv.Nfreqs)
    if uv.data_array is not None:
        for n in ("data_array", "flag_array", "nsample_array"):
            require(getattr(uv, n).shape == (uv.Nblts, uv.Nfreqs, uv.Npols), "%s: shape of %s", what, n)


def keep_spws(uv, spws):
    uv.select(freq_chans=np.nonzero(np.isin(uv.flex_spw_id_array, spws))[0])


def apply(op, uv):
    s = uv.spw_array
    if uv.flex_spw_polarization_array is None:
        return
    if op == "spw0" and len(s) > 1:
        keep_spws(uv, [int(s[0])])
    elif op == "spwlast" and len(s) > 1:
        keep_spws(uv, [int(s[-1])])
    elif op == "spwhalf" and len(s) > 1:
        keep_spws(uv, s[: (len(s) + 1) // 2].tolist())
    elif op == "spwodd" and len(s) > 1:
        keep_spws(uv, s[::2].tolist())
    elif op == "pol0":
        uv.select(polarizations=[int(uv.flex_spw_polarization_array[0])])
    elif op == "pollast":
        uv.select(polarizations=[int(uv.flex_spw_polarization_array[-1])])
    elif op == "rows":
        uv.select(blt_inds=list(range(0, uv.Nblts, 2)))
    elif op == "rev":
        uv.reorder_freqs(spw_order="-number")
    elif op == "freqrev":
        uv.reorder_freqs(channel_order="-freq")
    elif op == "onerev":
        uv.reorder_freqs(select_spw=int(s[0]), channel_order="-freq")
    elif op == "chan" and uv.Nfreqs > 1:
        first = np.nonzero(uv.flex_spw_id_array == s[0])[0]
        if len(first) > 1:
            uv.select(freq_chans=[k for k in range(uv.Nfreqs) if k != int(first[0])])
    elif op == "interleave" and len(s) > 2:
        uv.reorder_freqs(spw_order=np.array(list(range(0, len(s), 2)) + list(range(1, len(s), 2))))


def run(case, ctx):
    _, kw, o, ops, comb = case
    uv = build(kw, o)
    w0, r0 = windows(uv), rest(uv)
    require(uv.convert_to_flex_pol() is None, "convert_to_flex_pol returned something")
    ctx.step()
    what = "convert_to_flex_pol"
    valid(uv, what)
    require(uv.Npols == 1 and uv.polarization_array.tolist() == [0], "%s: polarization axis %s", what, uv.polarization_array)
    require(rest(uv) == r0, "%s: something off the frequency and polarization axes changed", what)
    require(bag(windows(uv)) == bag(w0), "%s: windows %s, expected %s", what, [w[:4] for w in windows(uv)], [w[:4] for w in w0])
    fro = Frozen(uv)
    try:
        uv.convert_to_flex_pol()
    except ValueError:
        fro.check(uv, "refused conversion")
    else:
        raise Violation("converting twice was not refused")
    for op in ops:
        apply(op, uv)  # C02 and C11 decide these steps
        ctx.step()
    ws, r1 = windows(uv), rest(uv)
    if uv.flex_spw_polarization_array is None:
        fro = Frozen(uv)
        uv.remove_flex_pol(combine_spws=comb)
        fro.check(uv, "remove_flex_pol without flexible polarization")
        ctx.outcome("nothing to do")
        return
    pols = sorted({w[3] for w in ws})
    groups = {}
    for w in ws:
        groups.setdefault(w[1:3], []).append(w)
    dup = any(len({x[3] for x in g}) < len(g) for g in groups.values())
    full = all({x[3] for x in g} == set(pols) for g in groups.values())
    what = f"remove_flex_pol(combine_spws={comb})"
    fro = Frozen(uv)
    try:
        uv.remove_flex_pol(combine_spws=comb)
    except ValueError as e:
        require(comb and dup, "%s refused: %s", what, e)
        fro.check(uv, "refused " + what)
        ctx.outcome("refused")
        ctx.trace()
        return
    ctx.step()
    valid(uv, what)
    require(uv.flex_spw_polarization_array is None, "%s: still flexible", what)
    require(rest(uv) == r1, "%s: something off the frequency and polarization axes changed", what)
    require(sorted(uv.polarization_array.tolist()) == pols, "%s: polarizations %s, expected %s", what, uv.polarization_array, pols)
    got = windows(uv)
    ctx.state(digest(bag(got), r1, uv.spw_array, uv.polarization_array))
    ctx.trace()
    if comb and full and len(pols) > 1:
        require(uv.Nspws == len(groups), "%s: %s windows, expected %s", what, uv.Nspws, len(groups))
        require(bag(got) == bag(ws), "%s: windows %s, expected %s", what, [w[:4] for w in got], [w[:4] for w in ws])
        ctx.outcome("combined")
        return
    require(sorted(uv.spw_array.tolist()) == sorted(w[0] for w in ws), "%s: windows changed", what)
    own = {w[0]: w[3] for w in ws}
    require(bag([w for w in got if w[3] == own[w[0]]], True) == bag(ws, True), "%s: samples of the windows changed", what)
    if uv.data_array is not None:
        for i, p in enumerate(uv.polarization_array.tolist()):
            for s in uv.spw_array.tolist():
                if own[s] != p:
                    idx = uv.flex_spw_id_array == s
                    require(bool(np.all(uv.flag_array[:, idx, i])) and not uv.nsample_array[:, idx, i].any(),
                            "%s: added samples of window %s pol %s are not flagged and empty", what, s, p)
    ctx.outcome("inflated")
