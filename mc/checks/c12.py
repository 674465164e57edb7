"""C12: averaging and splitting in time, every flag pattern, against a plain model."""

import itertools
import warnings

import numpy as np
from astropy.time import Time
from pyuvdata import UVData
from pyuvdata.utils import get_lst_for_time

from mc import gen
from mc.core import Violation, digest, require
from mc.model import Frozen, UVModel, check_valid, describe, pc_canon, same

ID = "C12"
BOUNDS = (
    "Three baselines (one reversed, one with a single integration) whose integration times run over every sequence of up to four "
    "values from {5, 10, 20} s, with all 2^n flag patterns of each baseline present as channels; downsample_in_time for seven "
    "minimum times (one within tolerance) and for 1-5 samples, upsample_in_time for seven maximum times, resample_in_time for six "
    "targets; ragged ends kept and dropped, summing and averaging; eleven phase-centre set-ups (one, several, changing in time, "
    "unprojected and driftscan with and without phasing first), scan numbers, three input and four output row orders, float16/32/64 "
    "sample counts, complex64/128 data, metadata-only objects, and chains of two calls."
)
ASSUMPTIONS = [
    "samples whose total weight is zero are not averaged",
    "rephasing itself (C03/C04) is used as the reference for the phase-first path",
]

DAY = 86400.0
PAIRS = [(3, 0), (0, 7), (12, 3)]
SECOND = (10.0, 10.0, 10.0)
THIRD = (10.0,)
TOL = 1e-3


_cache = {}


def build(its, opt):
    key = repr((its, sorted((k, v) for k, v in opt.items() if k not in ("out", "drift"))))
    if key not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        _cache[key] = _build(its, opt)
    return _cache[key].copy()


def _build(its, opt):
    """opt: pc, order, dtype, ns, scan, meta, gap, near."""
    rows = []
    for b, seq in enumerate((its, opt.get("second", SECOND), THIRD)):
        t = 0.0
        for k, dt in enumerate(seq):
            rows.append([t + dt / 2, b, dt, k])
            t += dt
            if opt.get("gap") and k == 0 and b == 0:
                t += 60.0
    if opt.get("near"):
        # a row whose length is within tolerance of a target, on its own baseline
        rows[-1][2] = 10.0004
    order = opt.get("order", "bl")
    if order == "time":
        rows.sort(key=lambda r: (r[0], r[1]))
    elif order == "rev":
        rows = rows[::-1]
    n = len(rows)
    t = np.array([gen.JD0 + r[0] / DAY for r in rows])
    b = np.array([r[1] for r in rows])
    k = np.array([r[3] for r in rows])
    it = np.array([r[2] for r in rows])
    nmax = max(len(its), 3)
    nf = 2**nmax
    pc = opt.get("pc", "sidA")
    cat, ids = pcs(pc, b, k)
    dtype = np.dtype(opt.get("dtype", "c16"))
    uv = UVData.new(
        freq_array=1e8 + np.arange(nf) * 1e5,
        channel_width=np.full(nf, 1e5),
        polarization_array=np.array([-5, -7]),
        times=t,
        antpairs=np.array(PAIRS)[b],
        do_blt_outer=False,
        integration_time=it,
        telescope=gen.telescope(5, "east", True),
        phase_center_catalog=cat,
        phase_center_id_array=ids,
        vis_units="Jy",
    )
    uv.history = "mc."
    if not opt.get("meta"):
        d, _, ns = gen.cell_data(n, nf, 2, seed=3, dtype=dtype)
        f = np.zeros((n, nf, 2), bool)
        for r in range(n):
            for c in range(nf):
                f[r, c, 0] = (c >> k[r]) & 1
                f[r, c, 1] = ((nf - 1 - (c * 5 + b[r])) >> k[r]) & 1
        uv.data_array, uv.flag_array = d, f
        uv.nsample_array = ns.astype(opt.get("ns", "f4"))
    if opt.get("scan"):
        uv.scan_number_array = b + 4
    if opt.get("eq"):
        uv.eq_coeffs = np.arange(5 * nf, dtype=float).reshape(5, nf) + 1.0
        uv.eq_coeffs_convention = "divide"
    uv.set_rectangularity(force=True)
    return uv


PCS = ["sidA", "sidC", "ephem", "unproj", "drift", "perbl", "tail", "unpr+sid", "drift+sid", "drift+unp", "two-drift", "unused-drift"]


def pcs(pc, b, k):
    e = gen.pc_entry
    if pc in ("sidA", "sidC", "ephem", "drift", "unproj"):
        return {2: e(pc)}, np.full(len(b), 2)
    if pc == "perbl":
        return {4: e("sidA"), 1: e("sidB"), 0: e("ephem")}, np.array([4, 1, 0])[b]
    if pc == "tail":
        # changes in time on the first baseline
        return {4: e("sidA"), 1: e("sidB")}, np.where((b == 0) & (k >= 2), 1, 4)
    if pc == "unpr+sid":
        return {0: e("unproj"), 3: e("sidA")}, np.array([0, 3, 0])[b]
    if pc == "drift+sid":
        return {5: e("drift"), 3: e("sidA")}, np.array([5, 3, 5])[b]
    if pc == "drift+unp":
        return {5: e("drift"), 3: e("unproj"), 1: e("sidB")}, np.array([5, 3, 1])[b]
    if pc == "two-drift":
        d2 = e("drift")
        d2.update(cat_name="drift2", cat_lon=2.0, cat_lat=1.1)
        return {5: e("drift"), 3: d2}, np.array([5, 3, 3])[b]
    if pc == "unused-drift":
        d2 = e("drift")
        d2.update(cat_name="drift2", cat_lon=2.0, cat_lat=1.1)
        return {5: e("drift"), 3: d2, 0: e("unproj")}, np.array([5, 0, 5])[b]
    raise ValueError(pc)


# ------------------------------------------------------------------ the model
def close(a, b):
    return abs(a - b) <= TOL  # integration_time tolerances are (0, 1e-3)


def rows_of(uv):
    """Plain rows of an object: one dict per baseline-time."""
    out = []
    for i in range(uv.Nblts):
        out.append(
            {
                "bl": (int(uv.ant_1_array[i]), int(uv.ant_2_array[i])),
                "t": float(uv.time_array[i]),
                "it": float(uv.integration_time[i]),
                "pc": int(uv.phase_center_id_array[i]),
                "scan": None if uv.scan_number_array is None else int(uv.scan_number_array[i]),
                "d": None if uv.data_array is None else np.array(uv.data_array[i]),
                "f": None if uv.data_array is None else np.array(uv.flag_array[i]),
                "n": None if uv.data_array is None else np.array(uv.nsample_array[i], float),
            }
        )
    return out


def merge(grp, summing):
    tot = sum(r["it"] for r in grp)
    out = {
        "bl": grp[0]["bl"],
        "t": grp[0]["t"] + sum((r["t"] - grp[0]["t"]) * r["it"] for r in grp) / tot,
        "it": tot,
        "pc": grp[0]["pc"],
        "scan": grp[0]["scan"],
        "d": None,
        "f": None,
        "n": None,
    }
    if grp[0]["d"] is None:
        return out
    f = np.ones_like(grp[0]["f"])
    for r in grp:
        f &= r["f"]
    num = np.zeros(f.shape, complex)
    wt = np.zeros(f.shape)
    sm = np.zeros(f.shape, complex)
    for r in grp:
        use = ~r["f"] | f
        w = np.where(use, r["n"] * r["it"], 0.0)
        num += w * r["d"]
        wt += w
        sm += np.where(use, r["d"], 0)
    out["f"] = f
    out["d"] = sm if summing else num / wt
    out["n"] = wt / tot
    return out


def down(rows, mit=None, nav=None, ragged=True, summing=False):
    """-> rows, or the string 'refuse', or None for nothing to do."""
    bls = sorted({r["bl"] for r in rows})
    out = []
    todo = []
    for bl in bls:
        mine = sorted((r for r in rows if r["bl"] == bl), key=lambda r: r["t"])
        if mit is not None and not any(r["it"] < mit and not close(r["it"], mit) for r in mine):
            out += mine
            continue
        todo.append(bl)
        grp, run = [], 0.0
        for i, r in enumerate(mine):
            grp.append(r)
            run += r["it"]
            full = (run > mit or close(run, mit)) if mit is not None else len(grp) >= nav
            if full or (i == len(mine) - 1 and ragged):
                if len({x["pc"] for x in grp}) > 1:
                    return "refuse"
                out.append(merge(grp, summing))
                grp, run = [], 0.0
    if not todo:
        return None
    return out


def up(rows, mit, summing=False):
    out, any_ = [], False
    for r in rows:
        if r["it"] > mit and not close(r["it"], mit):
            any_ = True
            n = int(np.ceil(r["it"] / mit - 1e-5))
            dt = r["it"] / n
            for j in range(n):
                q = dict(r)
                q["t"] = r["t"] + (j - (n - 1) / 2) * dt / DAY
                q["it"] = dt
                if q["d"] is not None and summing:
                    q["d"] = r["d"] / n
                out.append(q)
        else:
            out.append(r)
    return out if any_ else None


def resample(rows, target, od, ou, ragged, summing):
    lo, hi = min(r["it"] for r in rows), max(r["it"] for r in rows)
    d = int(np.floor(target / lo)) >= 2 and not ou
    u = int(np.floor(hi / target)) >= 2 and not od
    if not d and not u:
        return None
    if d:
        x = down(rows, mit=target, ragged=ragged, summing=summing)
        if x == "refuse":
            return x
        rows = rows if x is None else x
    if u:
        x = up(rows, target, summing)
        rows = rows if x is None else x
    return rows


def compare(rows, uv, before, cat, what, dtol, order=None, data=True):
    key = lambda r: (r["bl"], round((r["t"] - gen.JD0) * DAY, 3))  # noqa: E731
    got = rows_of(uv)
    e = {key(r): r for r in rows}
    g = {}
    for r in got:
        k = key(r)
        require(k not in g, f"{what}: two rows for {k}")
        g[k] = r
    if set(e) != set(g):
        miss, extra = sorted(set(e) - set(g)), sorted(set(g) - set(e))
        raise Violation(f"{what}: rows missing {miss[:3]} unexpected {extra[:3]}")
    after = uv.phase_center_catalog
    for k in e:
        a, b = e[k], g[k]
        require(abs(a["t"] - b["t"]) * DAY < 1e-4, f"{what}: time of {k}")
        require(abs(a["it"] - b["it"]) < 1e-6, f"{what}: integration time of {k}: {b['it']}, expected {a['it']}")
        require(a["scan"] == b["scan"], f"{what}: scan number of {k}: {b['scan']} expected {a['scan']}")
        pa, pb = pcc(cat[a["pc"]]), pcc(after[b["pc"]])
        require(pa == pb, f"{what}: phase centre of {k}: {pb} expected {pa}")
        if not data:
            continue
        require((a["d"] is None) == (b["d"] is None), f"{what}: data presence")
        if a["d"] is None:
            continue
        if not np.array_equal(a["f"], b["f"]):
            raise Violation(f"{what}: flags of {k}: {describe(a['f'], b['f'])}")
        if not np.allclose(a["n"], b["n"], rtol=dtol[1], atol=0):
            raise Violation(f"{what}: nsamples of {k}: {describe(a['n'], b['n'])}")
        if not np.allclose(a["d"], b["d"], rtol=dtol[0], atol=0):
            raise Violation(f"{what}: data of {k}: {describe(a['d'], b['d'])}")
    # the rest of the object
    for n in ("freq_array", "channel_width", "flex_spw_id_array", "polarization_array", "eq_coeffs"):
        require(same(before.c[n], UVModel(uv).c[n]), f"{what}: {n} changed")
    if before.c["data_array"] is not None:
        for n in ("data_array", "nsample_array"):
            require(before.c[n].dtype == getattr(uv, n).dtype, f"{what}: {n} dtype")
    counts(uv, what)
    lst = get_lst_for_time(uv.time_array, telescope_loc=uv.telescope.location)
    require(np.allclose(np.exp(1j * lst), np.exp(1j * uv.lst_array), rtol=0, atol=1e-8), f"{what}: LSTs")
    x = uv.copy(metadata_only=True)
    x._set_app_coords_helper()
    for n in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
        require(np.allclose(getattr(x, n), getattr(uv, n), rtol=0, atol=1e-8), f"{what}: {n}")
    x.set_uvws_from_antenna_positions(update_vis=False)
    require(np.allclose(x.uvw_array, uv.uvw_array, rtol=0, atol=1e-5), f"{what}: uvw_array")
    check_valid(uv, what)
    if order is not None:
        y = uv.copy(metadata_only=True)
        y.reorder_blts(order=order[0], minor_order=order[1])
        require(
            np.array_equal(y.time_array, uv.time_array) and np.array_equal(y.baseline_array, uv.baseline_array),
            f"{what}: rows are not in {order} order",
        )
        if order == ("time", "baseline"):
            keys = list(zip(uv.time_array.tolist(), uv.baseline_array.tolist()))
            require(keys == sorted(keys), f"{what}: rows not sorted by time, baseline")


def pcc(entry):
    """an epoch means nothing in the altaz frame"""
    return pc_canon({k: v for k, v in entry.items() if k != "cat_epoch" or entry["cat_frame"] != "altaz"})


def counts(uv, what):
    m = UVModel(uv)
    for k, v in m.counts().items():
        require(getattr(uv, k) == v, f"{what}: {k} is {getattr(uv, k)}, should be {v}")


# ------------------------------------------------------------------ cases
MITS = [7.0, 10.0, 10.0004, 15.0, 20.0, 30.0, 45.0]
UPS = [20.0, 10.0, 9.9996, 5.0, 3.0, 2.5, 4.0]
TARGETS = [2.5, 5.0, 10.0, 20.0, 40.0, 12.0]
ORDERS = [("time", "baseline"), ("baseline", "time"), ("ant1", "ant2"), ("time", "ant1")]


def seqs(n):
    return [list(s) for s in itertools.product((5.0, 10.0, 20.0), repeat=n)]


def cases(tier):
    out = []
    full = tier == "thorough"
    S = [s for n in (1, 2, 3) for s in seqs(n)]
    S4 = seqs(4) if full else [list(s) for s in itertools.product((5.0, 10.0), repeat=4)]
    S = S + S4
    calls = []
    for m in MITS:
        for rg in (True, False):
            for sm in (False, True):
                calls.append(["down", {"mit": m, "ragged": rg, "summing": sm}])
    for n in (1, 2, 3, 4, 5):
        for rg in (True, False):
            for sm in (False, True):
                calls.append(["down", {"nav": n, "ragged": rg, "summing": sm}])
    for m in UPS:
        for sm in (False, True):
            calls.append(["up", {"mit": m, "summing": sm}])
    for t in TARGETS:
        for od, ou in ((False, False), (True, False), (False, True)):
            for rg in (True, False):
                for sm in (False, True):
                    calls.append(["res", {"target": t, "od": od, "ou": ou, "ragged": rg, "summing": sm}])
    i = 0
    for s in S:
        for c in calls:
            i += 1
            if not full and len(s) == 4 and i % 3:
                continue
            if not full and len(s) == 3 and i % 2:
                continue
            if not full and len(s) > 2 and c[0] == "res" and (c[1]["od"] or c[1]["ou"]):
                continue
            opt = {
                "order": ("bl", "time", "rev")[i % 3],
                "out": i % 4,
            }
            out.append([s, opt, [c]])
    # other knobs, on a smaller set of sequences and calls
    S2 = [[10.0, 10.0, 20.0], [5.0, 5.0, 5.0, 5.0], [20.0, 5.0], [10.0]]
    C2 = [c for c in calls if c[1].get("mit") in (20.0, 10.0, 5.0) or c[1].get("nav") in (2, 3) or c[1].get("target") in (5.0, 20.0)]
    knobs = [{"ns": "f2"}, {"ns": "f8"}, {"dtype": "c8"}, {"meta": 1}, {"gap": 1}, {"scan": 1}, {"eq": 1}, {"near": 1}, {"near": 1, "meta": 1}, {"scan": 1, "order": "rev"}]
    for p in PCS:
        for dr in (0, 1):
            knobs.append({"pc": p, "drift": dr})
            knobs.append({"pc": p, "drift": dr, "order": "time", "second": [5.0, 10.0]})
    for s in S2:
        for kn in knobs:
            for j, c in enumerate(C2):
                if not full and "pc" in kn and (j % 2 != ("second" in kn)) and c[1].get("summing") is not None and c[0] != "up":
                    continue
                if c[0] == "res" and (c[1]["od"] or c[1]["ou"]):
                    continue
                out.append([s, {"order": "time", "out": j % 4, **kn}, [c]])
    # chains
    pool = [
        ["down", {"nav": 2, "ragged": True, "summing": False}],
        ["down", {"mit": 20.0, "ragged": False, "summing": False}],
        ["up", {"mit": 5.0, "summing": False}],
        ["up", {"mit": 4.0, "summing": True}],
        ["res", {"target": 10.0, "od": False, "ou": False, "ragged": True, "summing": False}],
    ]
    for s in S2:
        for a, b in itertools.product(pool, pool):
            out.append([s, {"order": "rev", "out": 0}, [a, b]])
            if full:
                for c in pool:
                    out.append([s, {"order": "bl", "out": 1}, [a, b, c]])
    return out


def call(uv, c, order, drift):
    kw = {"blt_order": order[0], "minor_order": order[1], "allow_drift": bool(drift)}
    a = c[1]
    if c[0] == "down":
        uv.downsample_in_time(
            min_int_time=a.get("mit"), n_times_to_avg=a.get("nav"), keep_ragged=a["ragged"], summing_correlator_mode=a["summing"], **kw
        )
    elif c[0] == "up":
        uv.upsample_in_time(a["mit"], summing_correlator_mode=a["summing"], **kw)
    else:
        uv.resample_in_time(
            a["target"], only_downsample=a["od"], only_upsample=a["ou"], keep_ragged=a["ragged"], summing_correlator_mode=a["summing"], **kw
        )


def apply(rows, c):
    a = c[1]
    if c[0] == "down":
        return down(rows, a.get("mit"), a.get("nav"), a["ragged"], a["summing"])
    if c[0] == "up":
        return up(rows, a["mit"], a["summing"])
    return resample(rows, a["target"], a["od"], a["ou"], a["ragged"], a["summing"])


def moving(uv):
    return np.array([uv.phase_center_catalog[i]["cat_type"] in ("unprojected", "driftscan") for i in uv.phase_center_id_array])


def run(case, ctx):
    its, opt, seq = case
    order = ORDERS[opt["out"]]
    drift = opt.get("drift", 1)
    uv = build(its, opt)
    for i, c in enumerate(seq):
        what = f"{i}:{c[0]} {c[1]}"
        cat = {k: dict(v) for k, v in uv.phase_center_catalog.items()}
        before = UVModel(uv)
        frz = Frozen(uv)
        rows = rows_of(uv)
        mv = moving(uv)
        phased = bool(mv.any()) and not drift
        exp = apply(rows, c)
        ref = None
        if phased and exp is not None and exp != "refuse" and len(exp):
            ref = reference(uv, c, mv, before)
        if c[0] == "down" and uv.Ntimes == 1:
            exp = "refuse"
        try:
            call(uv, c, order, drift)
            err = None
        except (ValueError, TypeError) as e:
            err = e
        except Exception:
            # dropping every sample leaves no object; not claimed
            if exp is None or exp == "refuse" or len(exp):
                raise
            ctx.outcome("nothing left")
            return
        ctx.step()
        if exp == "refuse":
            require(err is not None, f"{what}: averaged over several phase centres (or one time) instead of refusing")
            ctx.outcome("refused")
            ctx.trace()
            return
        if exp is not None and not len(exp):
            ctx.outcome("nothing left")
            return
        if err is not None:
            raise Violation(f"{what}: {type(err).__name__}: {err}")
        if exp is None:
            frz.check(uv, what + " (nothing to do)")
            ctx.outcome("nothing to do")
            continue
        dt = (1e-6, 1e-3) if opt.get("ns") == "f2" else (1e-6, 2e-6)
        if opt.get("dtype") == "c8":
            dt = (1e-5, 2e-6)
        if phased:
            compare(exp, uv, before, cat, what, dt, order, data=False)
            if ref is not None:
                compare_ref(ref, uv, what)
        else:
            compare(exp, uv, before, cat, what, dt, order)
        require(uv.history.startswith("mc."), f"{what}: history lost")
        ctx.state(digest(UVModel(uv).digest()))
    ctx.trace()
    ctx.outcome("ok")


def reference(uv, c, mv, before):
    """Phase the moving rows to the zenith of one time, resample, undo; by hand."""
    x = uv.copy()
    # downsampling sorts the rows first, then takes the first time
    if c[0] == "down" or (c[0] == "res" and _downs(x, c)):
        o = x.copy(metadata_only=True)
        o.reorder_blts()
        t0 = o.time_array[0]
    else:
        t0 = x.time_array[0]
    if x.data_array is None:
        return None
    if c[0] == "res":
        return None
    x.phase_to_time(Time(t0, format="jd"), select_mask=mv)
    rows = rows_of(x)
    new = apply(rows, c)
    if new in (None, "refuse"):
        return None
    # undo: phase of each new row about its own w
    return x, new, {r["bl"]: r["pc"] for r in rows_of(uv)}, {k: dict(v) for k, v in uv.phase_center_catalog.items()}


def _downs(uv, c):
    return int(np.floor(c[1]["target"] / uv.integration_time.min())) >= 2


def compare_ref(ref, uv, what):
    x, new, home, cat = ref
    # an object holding the model's rows in the intermediate phase centre
    n = len(new)
    y = UVData.new(
        freq_array=x.freq_array,
        channel_width=x.channel_width,
        polarization_array=x.polarization_array,
        times=np.array([r["t"] for r in new]),
        antpairs=np.array([r["bl"] for r in new]),
        do_blt_outer=False,
        integration_time=np.array([r["it"] for r in new]),
        telescope=x.telescope.copy(),
        phase_center_catalog={k: dict(v) for k, v in x.phase_center_catalog.items()},
        phase_center_id_array=np.array([r["pc"] for r in new]),
    )
    y.set_uvws_from_antenna_positions(update_vis=False)
    y.data_array = np.stack([r["d"] for r in new]).astype(complex)
    y.flag_array = np.stack([r["f"] for r in new])
    y.nsample_array = np.stack([r["n"] for r in new])
    ids = np.array([home[r["bl"]] for r in new])
    for cid in sorted(set(ids.tolist())):
        m = ids == cid
        e = cat[cid]
        if e["cat_type"] == "unprojected":
            y.unproject_phase(select_mask=m)
        elif e["cat_type"] == "driftscan":
            y.phase(
                lon=e["cat_lon"], lat=e["cat_lat"], cat_name=e["cat_name"], cat_type="driftscan", phase_frame=e["cat_frame"],
                epoch=e.get("cat_epoch"), select_mask=m,
            )
    key = lambda o, i: (int(o.ant_1_array[i]), int(o.ant_2_array[i]), round((o.time_array[i] - gen.JD0) * DAY, 3))  # noqa: E731
    g = {key(uv, i): i for i in range(uv.Nblts)}
    for i in range(n):
        j = g[key(y, i)]
        for name in ("data_array", "flag_array", "nsample_array"):
            a, b = getattr(y, name)[i], getattr(uv, name)[j]
            if not np.allclose(a, b, rtol=2e-4, atol=1e-3):
                raise Violation(f"{what}: {name} of {key(y, i)} after phasing, resampling and undoing: {describe(a, b)}")
