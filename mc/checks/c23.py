"""C23: UVFlag conversions between types and modes, collapses, construction from data and
calibration objects, and application of flags to data.

Every sequence of conversion operations up to the bound is executed on the real object and on
an image whose transformations are written from the documentation (loops over labelled cells).
"""

import itertools

import numpy as np
from pyuvdata import UVFlag
from pyuvdata.utils import apply_uvflag, collapse
from pyuvdata.uvflag import and_rows_cols, flags2waterfall

from mc import flag
from mc.core import Violation, require
from mc.flag import FlagImg, compare, structure
from mc.model import Frozen

ID = "C23"
BOUNDS = (
    "UVFlag objects of every type and mode (baseline, antenna, waterfall from either; time-major, baseline-major, shuffled "
    "and ragged rows; one, two, reversed and overlapping windows; unsorted times and antennas; coded flags, metrics and weights "
    "with zeros), every sequence of up to 2 (quick) or 3 (thorough) operations from {collapse_pol, to_waterfall (5 methods, with "
    "and without polarization), to_baseline (same rows, other row order, subset of times), to_antenna, to_flag (4 "
    "thresholds), to_metric (with and without weight conversion)}; from_uvdata and from_uvcal in every mode; flags2waterfall; "
    "apply_uvflag with every type, option, row order, polarization order, missing pairs; collapse functions on every array of a "
    "small alphabet."
)
ASSUMPTIONS = ["combinations the library documents as unsupported (metric antenna to baseline, OR of metrics) must be refused"]

BASES = ("bt", "bs", "br", "bb")
METHODS = ("quadmean", "absmean", "mean", "or", "and")


def ops_alphabet():
    out = []
    for m in METHODS:
        out.append(["pol", m])
        for kp in (True, False):
            out.append(["wf", m, kp, False])
    out.append(["wf", "mean", True, True])
    for ref in ("same", "rev", "sub"):
        for fp in (False, True):
            out.append(["bl", ref, fp])
    for fp in (False, True):
        out.append(["ant", fp])
    for th in (0.0, 3.0, 12.5, "inf"):
        out.append(["flag", th])
    for cw in (False, True):
        out.append(["metric", cw])
    return out


def cases(tier):
    out = []
    al = ops_alphabet()
    n = 2 if tier == "quick" else 3
    kinds = [b + v for b in BASES for v in ("", ".w", ".a", ".v")]
    for k in kinds:
        for mode in ("flag", "metric"):
            for d in range(1, n + 1):
                for seq in itertools.product(al, repeat=d):
                    if d == 3 and (k not in ("bs", "bs.a", "br.v") or seq[0][0] in ("flag", "metric") and seq[1][0] in ("flag", "metric")):
                        continue
                    out.append(["seq", k, mode, list(seq)])
    # merge sequences with a common first step into one case to save work
    groups = {}
    for c in out:
        groups.setdefault((c[1], c[2], repr(c[3][0])), []).append(c[3])
    out = [["tree", k, m, v] for (k, m, _), v in groups.items()]
    for k in ("bt", "bs", "br", "bb", "at", "as", "ao"):
        for mode in ("flag", "metric"):
            for cf in (False, True):
                for wf in (False, True):
                    out.append(["from", k, mode, cf, wf])
        for kp in (False, True):
            for own in (False, True):
                out.append(["f2w", k, kp, own])
    for b in BASES:
        for kind in ("same", "rowperm", "timerev", "polrev", "onepol", "onetime", "missing", "waterfall", "antenna", "waterfall1", "wfcal"):
            for uf in (False, True):
                for fm in (False, True):
                    for inpl in (False, True):
                        out.append(["apply", b, kind, uf, fm, inpl])
        for kind in ("metric", "times+", "times-", "ntimes", "freq+", "freq-", "nfreq", "pols", "npols"):
            out.append(["applybad", b, kind])
    vals = (0.0, 1.0, -2.0, "inf", 3.5)
    ws = (0.0, 1.0, 2.5)
    for v in itertools.product(vals, repeat=3):
        out.append(["coll", list(v)])
    for n1 in (1, 2, 3):
        for n2 in (1, 2, 3):
            out.append(["arc", n1, n2])
    return out


# ------------------------------------------------------------------- model
def m_collapse(vals, ws, method):
    """Collapse 1d lists of values and weights -> value, weight."""
    if method == "or":
        return any(vals), 1.0
    if method == "and":
        return all(vals), 1.0
    num = den = 0.0
    for v, w in zip(vals, ws):
        if np.isinf(v):
            continue
        if method == "mean":
            x = v
        elif method == "absmean":
            x = abs(v)
        else:
            x = abs(v) ** 2
        num += w * x
        den += w
    if den <= 1e-10:
        return np.inf, den
    r = num / den
    return (np.sqrt(r) if method == "quadmean" else r), den


def m_along(arr, w, axis, method):
    """Model collapse of one axis of an array."""
    a = np.moveaxis(arr, axis, -1)
    ww = np.ones(a.shape) if w is None else np.moveaxis(w, axis, -1)
    out = np.empty(a.shape[:-1], dtype=bool if method in ("or", "and") else float)
    wo = np.empty(a.shape[:-1])
    for i in np.ndindex(*a.shape[:-1]):
        out[i], wo[i] = m_collapse([x for x in a[i]], [float(x) for x in ww[i]], method)
    return out, wo


class Refuse(Exception):
    pass


def m_pol(im, method):
    if len(im.pol) == 1:
        return im
    if im.mode == "metric" and method in ("or", "and"):
        raise Refuse
    pos = 3 if im.type == "antenna" else 2
    src = im.flag if im.mode == "flag" else im.metric
    w = None if im.mode == "flag" else im.w
    d, wo = m_along(src.astype(float) if method not in ("or", "and") else src, w, pos, method)
    d, wo = np.expand_dims(d, -1), np.expand_dims(wo, -1)
    if im.mode == "flag" and method in ("or", "and"):
        im.flag = d
    else:
        im.w = wo if im.mode == "metric" else np.ones(d.shape)
        im.metric, im.flag, im.mode = d, None, "metric"
    im.pol = [",".join(map(str, im.pol))]
    im.ws = None
    return im


def m_wf(im, method, keep_pol, wsq):
    if im.type == "waterfall" and (keep_pol or len(im.pol) == 1):
        return im
    if im.mode == "metric" and method in ("or", "and"):
        raise Refuse
    if not keep_pol:
        im = m_pol(im, method)
    if im.mode == "metric" and method in ("or", "and"):
        raise Refuse
    src = im.flag if im.mode == "flag" else im.metric
    w = None if im.mode == "flag" else im.w
    if method not in ("or", "and"):
        src = src.astype(float)
    if im.type == "antenna":
        d, wo = m_along(src, w, 0, method)
        d, wo = np.swapaxes(d, 0, 1), np.swapaxes(wo, 0, 1)
    elif im.type == "baseline":
        ts = sorted(set(im.time.tolist()))
        d, wo, ws = [], [], []
        for t in ts:
            sel = [i for i, x in enumerate(im.time) if x == t]
            a, b = m_along(src[sel], None if w is None else w[sel], 0, method)
            d.append(a)
            wo.append(b)
            q = np.ones(src[sel].shape) if w is None else w[sel] * ~np.isinf(src[sel])
            ws.append((q**2).sum(axis=0))
        d, wo = np.array(d), np.array(wo)
        first = [im.time.tolist().index(t) for t in ts]
        im.lst = im.lst[first]
        im.time = np.array(ts)
        if wsq and im.mode == "metric":
            im.ws = np.array(ws)
    else:
        d, wo = src, w
    if im.mode == "flag" and method in ("or", "and"):
        im.flag = d.astype(bool)
    else:
        im.w = wo if im.mode == "metric" else np.ones(d.shape)
        im.metric, im.flag, im.mode = d, None, "metric"
    im.type = "waterfall"
    im.a1 = im.a2 = im.bl = im.ant = None
    return im


def m_bl(im, uv, force_pol):
    if im.type == "baseline":
        return im
    up = [int(p) for p in uv.polarization_array]
    if force_pol and len(im.pol) == 1:
        for n, v in im.data().items():
            im.setdata(n, np.repeat(v, len(up), axis=-1))
        im.pol = list(up)
    if im.pol != up:
        raise Refuse
    nb, nf, npol = uv.Nblts, len(im.freq), len(im.pol)
    if im.type == "antenna":
        if im.mode == "metric":
            raise Refuse
        new = np.ones((nb, nf, npol), dtype=bool)
        ants = im.ant.tolist()
        for b in range(nb):
            hit = [i for i, t in enumerate(im.time) if abs(t - uv.time_array[b]) < 1e-6]
            a1, a2 = int(uv.ant_1_array[b]), int(uv.ant_2_array[b])
            if not hit or a1 not in ants or a2 not in ants:
                continue
            i1, i2 = ants.index(a1), ants.index(a2)
            new[b] = im.flag[i1, :, hit[0], :] | im.flag[i2, :, hit[0], :]
        im.flag = new
    else:
        out = {}
        for n, v in im.data().items():
            if n == "weights_square_array":
                continue
            x = np.zeros((nb, nf, npol), dtype=v.dtype)
            for b in range(nb):
                for i, t in enumerate(im.time):
                    if abs(t - uv.time_array[b]) < 1e-6:
                        x[b] = v[i]
            out[n] = x
        for n, x in out.items():
            im.setdata(n, x)
    im.ws = None
    im.type = "baseline"
    im.ant = None
    im.time, im.lst = np.array(uv.time_array), np.array(uv.lst_array)
    im.a1, im.a2, im.bl = np.array(uv.ant_1_array), np.array(uv.ant_2_array), np.array(uv.baseline_array)
    return im


def m_ant(im, uvc, force_pol):
    if im.type == "antenna":
        return im
    if im.type != "waterfall":
        raise Refuse
    up = [int(p) for p in uvc.jones_array]
    if force_pol and len(im.pol) == 1:
        for n, v in im.data().items():
            im.setdata(n, np.repeat(v, len(up), axis=-1))
        im.pol = list(up)
    if im.pol != up:
        raise Refuse
    im.ant = np.array(uvc.ant_array)
    for n, v in im.data().items():
        x = np.empty((len(im.ant), len(im.freq), len(im.time), len(im.pol)), dtype=v.dtype)
        for i in range(len(im.ant)):
            for j in range(len(im.freq)):
                x[i, j] = v[:, j, :]
        im.setdata(n, x)
    im.ws = None
    im.type = "antenna"
    return im


def m_flag(im, thr):
    if im.mode == "flag":
        return im
    out = np.zeros(im.metric.shape, dtype=bool)
    for i in np.ndindex(*out.shape):
        out[i] = im.metric[i] >= thr
    im.flag, im.metric, im.w, im.ws, im.mode = out, None, None, None, "flag"
    return im


def m_arc(wf):
    """Pixels in fully flagged rows or columns."""
    out = np.zeros(wf.shape, dtype=bool)
    for i in range(wf.shape[0]):
        for j in range(wf.shape[1]):
            out[i, j] = all(wf[i, :]) or all(wf[:, j])
    return out


def m_metric(im, cw):
    if im.mode == "metric":
        return im
    im.metric = im.flag.astype(float)
    im.w = np.ones(im.metric.shape)
    if cw:
        for p in range(len(im.pol)):
            if im.type == "waterfall":
                im.w[:, :, p] = ~m_arc(im.flag[:, :, p])
            elif im.type == "antenna":
                for a in range(len(im.ant)):
                    im.w[a, :, :, p] = ~m_arc(im.flag[a, :, :, p])
            else:
                for pair in set(zip(im.a1.tolist(), im.a2.tolist())):
                    sel = [i for i in range(len(im.a1)) if (im.a1[i], im.a2[i]) == pair]
                    im.w[sel, :, p] = ~m_arc(im.flag[sel, :, p])
    im.flag, im.mode = None, "metric"
    return im


# ------------------------------------------------------------------ refs
_refs = {}


def refuv(d, ref):
    k = (d, ref)
    if k not in _refs:
        uv = flag.uvdata(d)
        if ref == "rev":
            uv.reorder_blts(order=np.arange(uv.Nblts)[::-1])
        elif ref == "sub":
            uv.select(times=np.unique(uv.time_array)[1:])
        _refs[k] = uv
    return _refs[k]


def refcal(d):
    k = (d, "cal")
    if k not in _refs:
        _refs[k] = flag.uvcal(d)
    return _refs[k]


def apply_op(f, op, d):
    if op[0] == "pol":
        f.collapse_pol(method=op[1])
    elif op[0] == "wf":
        f.to_waterfall(method=op[1], keep_pol=op[2], return_weights_square=op[3])
    elif op[0] == "bl":
        f.to_baseline(refuv(d, op[1]), force_pol=op[2])
    elif op[0] == "ant":
        f.to_antenna(refcal(d), force_pol=op[1])
    elif op[0] == "flag":
        f.to_flag(threshold=np.inf if op[1] == "inf" else op[1])
    else:
        f.to_metric(convert_wgts=op[1])


def model_op(im, op, d):
    if op[0] == "pol":
        return m_pol(im, op[1])
    if op[0] == "wf":
        return m_wf(im, op[1], op[2], op[3])
    if op[0] == "bl":
        return m_bl(im, refuv(d, op[1]), op[2])
    if op[0] == "ant":
        return m_ant(im, refcal(d), op[1])
    if op[0] == "flag":
        return m_flag(im, np.inf if op[1] == "inf" else op[1])
    return m_metric(im, op[1])


def step(f, im, op, d, ctx, what):
    """One operation on both sides; returns the new image or None when refused."""
    ref = None
    if op[0] == "bl":
        ref = refuv(d, op[1])
    elif op[0] == "ant":
        ref = refcal(d)
    fr = Frozen(ref) if ref is not None else None
    im = im.copy()
    try:
        exp = model_op(im, op, d)
    except Refuse:
        exp = None
    try:
        apply_op(f, op, d)
        done = True
    except (ValueError, NotImplementedError):
        done = False
        if exp is not None:
            raise
    ctx.step()
    if fr is not None:
        fr.check(ref, what)
    if exp is None:
        require(not done, "%s: expected a refusal", what)
        ctx.outcome("refused")
        return None
    got = structure(f, what)
    compare(exp, got, what, ws=op[0] == "wf")
    return exp


def run_tree(case, ctx):
    _, kind, mode, seqs = case
    d = kind.split(".")[0]
    first = seqs[0][0]
    f0 = flag.make(kind, mode)
    im0 = FlagImg(f0)
    what = f"{kind} {mode} {first}"
    im1 = step(f0, im0, first, d, ctx, what)
    ctx.trace()
    if im1 is None:
        return
    ctx.state(im1.key())
    store = {}

    def go(prefix, f, im, rest):
        for op in rest:
            k = repr(prefix + [op])
            if k in store:
                continue
            g = f.copy()
            im2 = step(g, im, op, d, ctx, f"{kind} {mode} {prefix + [op]}")
            store[k] = (g, im2)
            ctx.trace()
            if im2 is not None:
                ctx.state(im2.key())

    for s in seqs:
        if len(s) == 2:
            go([first], f0, im1, [s[1]])
    for s in seqs:
        if len(s) == 3:
            g, im2 = store.get(repr([first, s[1]]), (None, None))
            if im2 is None:
                continue
            go([first, s[1]], g, im2, [s[2]])


# --------------------------------------------------------------- from_*
def run_from(case, ctx):
    _, k, mode, cf, wf = case
    src = flag.uvdata(k) if k in flag.UVD else flag.uvcal(k)
    fr = Frozen(src)
    if cf and wf:
        try:
            UVFlag(src, mode=mode, copy_flags=True, waterfall=True)
        except NotImplementedError:
            ctx.trace()
            return
        raise Violation("copying flags into a waterfall: expected a refusal")
    f = UVFlag(src, mode=mode, copy_flags=cf, waterfall=wf, history="xyz", label="L")
    fr.check(src, "source object")
    ctx.step()
    got = structure(f, "from")
    require(got.mode == ("flag" if cf else mode), "from: mode %s", got.mode)
    require(got.type == ("waterfall" if wf else "baseline" if k in flag.UVD else "antenna"), "from: type")
    pol = src.polarization_array if k in flag.UVD else src.jones_array
    require(got.pol == [int(x) for x in pol], "from: polarizations")
    for n, v in (("freq", src.freq_array), ("width", src.channel_width), ("spwid", src.flex_spw_id_array)):
        require(np.array_equal(getattr(got, n), v), "from: %s", n)
    times = src.time_array
    lst = src.lst_array
    if k in flag.UVD and wf:
        times, i = np.unique(times, return_index=True)
        lst = lst[i]
    require(np.array_equal(got.time, times) and np.array_equal(got.lst, lst), "from: times or LSTs")
    if got.type == "baseline":
        require(np.array_equal(got.a1, src.ant_1_array) and np.array_equal(got.a2, src.ant_2_array) and np.array_equal(got.bl, src.baseline_array), "from: baselines")
    elif got.type == "antenna":
        require(np.array_equal(got.ant, src.ant_array), "from: antennas")
    if cf:
        require(np.array_equal(got.flag, src.flag_array), "from: flags differ from the source's")
        f.flag_array[:] = ~f.flag_array
        fr.check(src, "source after changing the new object's flags")
    elif mode == "flag":
        require(not got.flag.any(), "from: new flags are set")
    else:
        require((got.metric == 0).all() and (got.w == 1).all(), "from: metric or weights")
    t = FlagImg(f).tel
    require(t["nums"] == tuple(sorted(src.telescope.antenna_numbers.tolist())), "from: antennas of the telescope")
    require("xyz" in f.history and f.label == "L", "from: history or label")
    ctx.state(got.key())
    ctx.trace()


def run_f2w(case, ctx):
    _, k, kp, own = case
    isuv = k in flag.UVD
    src = flag.uvdata(k) if isuv else flag.uvcal(k)
    fl = flag.fcoded(src.flag_array.shape, 3) if own else src.flag_array
    fr = Frozen(src)
    got = flags2waterfall(src, flag_array=fl if own else None, keep_pol=kp)
    fr.check(src, "flags2waterfall")
    ctx.step()
    if isuv:
        ts = sorted(set(src.time_array.tolist()))
        exp = np.array([[[np.mean([fl[r, f, p] for r in range(src.Nblts) if src.time_array[r] == t]) for p in range(src.Npols)] for f in range(src.Nfreqs)] for t in ts])
    else:
        exp = np.array([[[np.mean(fl[:, f, t, p]) for p in range(src.Njones)] for f in range(src.Nfreqs)] for t in range(src.Ntimes)])
    if not kp:
        exp = exp.mean(axis=2)
    require(got.shape == exp.shape and np.allclose(got, exp, atol=1e-12, rtol=0), "flags2waterfall: %s", got.shape)
    ctx.trace()


# ------------------------------------------------------------ apply_uvflag
def flagobj(b, kind, seed=1):
    """UVFlag (flag mode) to apply and its own row table."""
    if kind == "waterfall":
        return flag.make(b + ".w", "flag", seed)
    if kind == "waterfall1":
        f = flag.make(b + ".w", "flag", seed)
        f.select(polarizations=[f.polarization_array[0]])
        return f
    if kind == "wfcal":
        return flag.make(b + ".v", "flag", seed)
    if kind == "antenna":
        return flag.make(b + ".a", "flag", seed)
    f = flag.make(b, "flag", seed)
    n = f.Nblts
    if kind == "rowperm":
        permute(f, [(i * 7 + 3) % n for i in range(n)] if n % 7 else list(range(n))[::-1])
    elif kind == "timerev":
        permute(f, list(np.argsort(-f.time_array, kind="stable")))
    elif kind == "polrev":
        f.polarization_array = f.polarization_array[::-1].copy()
        f.flag_array = f.flag_array[:, :, ::-1].copy()
    elif kind == "onepol":
        f.select(polarizations=[f.polarization_array[-1]])
    elif kind == "onetime":
        f.select(times=[np.unique(f.time_array)[1]])
    elif kind == "missing":
        bl = f.baseline_array[2]
        f.select(blt_inds=[i for i in range(n) if f.baseline_array[i] != bl])
    return f


def permute(f, p):
    for n in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "flag_array"):
        setattr(f, n, getattr(f, n)[p].copy())


def run_apply(case, ctx):
    _, b, kind, uf, fm, inpl = case
    uv = flag.uvdata(b)
    f = flagobj(b, kind)
    f.check()
    fim = FlagImg(f)
    old = uv.flag_array.copy()
    times = np.array(uv.time_array)
    pairs = list(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    up = uv.polarization_array.tolist()
    exp = np.zeros_like(old) if uf else old.copy()
    if kind in ("waterfall", "waterfall1", "wfcal", "antenna"):
        bim = m_bl(fim.copy(), uv, True)
        exp = exp | bim.flag
    else:
        table = {}
        fp = list(zip(fim.a1.tolist(), fim.a2.tolist()))
        for i, pr in enumerate(fp):
            table[(pr, fim.time[i])] = i
        have = set(fp)
        for r in range(uv.Nblts):
            if pairs[r] not in have:
                if fm:
                    exp[r] = True
                continue
            if kind == "onetime":
                i = [table[k] for k in table if k[0] == pairs[r]][0]
            else:
                i = table[(pairs[r], times[r])]
            for q, p in enumerate(up):
                j = 0 if len(fim.pol) == 1 else fim.pol.index(p)
                exp[r, :, q] |= fim.flag[i, :, j]
    fr, fu = Frozen(f), Frozen(uv)
    out = apply_uvflag(uv, f, inplace=inpl, unflag_first=uf, flag_missing=fm)
    ctx.step()
    fr.check(f, "apply_uvflag: the UVFlag")
    if inpl:
        out = uv
    else:
        fu.check(uv, "apply_uvflag(inplace=False)")
    bad = np.argwhere(out.flag_array != exp)
    if len(bad):
        r, c, p = bad[0]
        raise Violation(f"apply_uvflag {kind}: flag of {pairs[r]} t={times[r]} channel {c} pol {up[p]} is {out.flag_array[r, c, p]}")
    ref = flag.uvdata(b)
    require(np.array_equal(out.data_array, ref.data_array) and np.array_equal(out.nsample_array, ref.nsample_array), "apply_uvflag changed data")
    out.check()
    ctx.trace()


def run_applybad(case, ctx):
    _, b, kind = case
    uv = flag.uvdata(b)
    f = flagobj(b, "same")
    if kind == "metric":
        f = flag.make(b, "metric")
    elif kind in ("times+", "times-"):
        f.time_array = f.time_array + (0.01 if kind[-1] == "+" else -0.01)
        f.set_lsts_from_time_array()
    elif kind == "ntimes":
        f.select(times=np.unique(f.time_array)[:2])
    elif kind in ("freq+", "freq-"):
        f.freq_array = f.freq_array + (1e6 if kind[-1] == "+" else -1e6)
    elif kind == "nfreq":
        f.select(freq_chans=[0, 1])
        if f.Nfreqs == uv.Nfreqs:
            return
    elif kind == "pols":
        f.polarization_array = np.array([-1, -2, -3, -4][: f.Npols])
        if f.Npols == 1:
            return
    elif kind == "npols":
        if f.Npols < 3:
            return
        f.select(polarizations=f.polarization_array[:2])
    f.check()
    fr, fu = Frozen(f), Frozen(uv)
    for uf in (False, True):
        try:
            apply_uvflag(uv, f, unflag_first=uf)
        except ValueError:
            fr.check(f, "refused apply_uvflag")
            fu.check(uv, "refused apply_uvflag")
            continue
        raise Violation(f"apply_uvflag with mismatched {kind}: expected a refusal")
    ctx.step(2)
    ctx.trace()


# --------------------------------------------------------------- collapse
def run_coll(case, ctx):
    v = np.array([np.inf if x == "inf" else x for x in case[1]])
    ws = (0.0, 1.0, 2.5)
    for w in [None] + [np.array(x) for x in itertools.product(ws, repeat=3)]:
        for m in ("mean", "absmean", "quadmean"):
            e, ew = m_collapse(v.tolist(), [1.0] * 3 if w is None else w.tolist(), m)
            q = [(1.0 if w is None else w[i]) * (not np.isinf(v[i])) for i in range(3)]
            es = sum(x * x for x in q)
            v0, w0 = v.copy(), None if w is None else w.copy()
            a, aw, aws = collapse(v, m, weights=w, return_weights=True, return_weights_square=True)
            b = collapse(v, m, weights=w)
            c, cw = collapse(v, m, weights=w, return_weights=True)
            g, gs = collapse(v, m, weights=w, return_weights_square=True)
            require(np.array_equal(v, v0) and (w is None or np.array_equal(w, w0)), "collapse changed its input")
            for x in (a, b, c, g):
                require((np.isinf(e) and np.isinf(x)) or abs(x - e) < 1e-12, "collapse %s of %s weights %s is %s, expected %s", m, v, w, x, e)
            for x in (aw, cw):
                require(abs(x - ew) < 1e-12, "collapse %s of %s weights %s: weight %s, expected %s", m, v, w, x, ew)
            for x in (aws, gs):
                require(abs(x - es) < 1e-12, "collapse %s of %s weights %s: squared weight %s, expected %s", m, v, w, x, es)
            # as columns of a 2d array, both axes
            arr = np.stack([v, v[::-1], v], axis=1)
            wa = None if w is None else np.stack([w, w[::-1], w], axis=1)
            r, rw = collapse(arr, m, weights=wa, axis=0, return_weights=True)
            r2, rw2 = collapse(arr.T, m, weights=None if wa is None else wa.T, axis=1, return_weights=True)
            for k in range(3):
                require((np.isinf(e) and np.isinf(r[k]) and np.isinf(r2[k])) or (abs(r[k] - e) < 1e-12 and abs(r2[k] - e) < 1e-12), "collapse along an axis: %s", r)
                require(abs(rw[k] - ew) < 1e-12 and abs(rw2[k] - ew) < 1e-12, "collapse weights along an axis")
            ctx.step(6)
            ctx.trace(6)
    b = np.array([x not in (0.0, "inf") for x in case[1]])
    require(bool(collapse(b, "or")) == bool(b[0] or b[1] or b[2]), "or")
    require(bool(collapse(b, "and")) == bool(b[0] and b[1] and b[2]), "and")
    ctx.state(tuple(map(str, case[1])).__repr__().encode())


def run_arc(case, ctx):
    _, n1, n2 = case
    for bits in range(2 ** (n1 * n2)):
        wf = np.array([(bits >> i) & 1 for i in range(n1 * n2)], dtype=bool).reshape(n1, n2)
        w0 = wf.copy()
        require(np.array_equal(and_rows_cols(wf), m_arc(wf)), "and_rows_cols of %s", wf.tolist())
        require(np.array_equal(wf, w0), "and_rows_cols changed its input")
        ctx.step()
    ctx.trace()


def run(case, ctx):
    {"tree": run_tree, "from": run_from, "f2w": run_f2w, "apply": run_apply, "applybad": run_applybad, "coll": run_coll, "arc": run_arc}[
        case[0]
    ](case, ctx)
