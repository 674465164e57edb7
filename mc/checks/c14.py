"""C14: redundant baselines: grouping, compression and inflation."""

import itertools

import numpy as np
from pyuvdata import Telescope, UVData, utils
from pyuvdata.utils import redundancy as red

from mc import gen
from mc.core import Violation, digest, require
from mc.model import BLT, Frozen, UVModel, check_valid, describe, same

ID = "C14"
BOUNDS = (
    "Three layouts (hexagonal, north-south with sub-tolerance east offsets, scattered with none redundant; antennas jittered by a tenth "
    "of the tolerance) of five antennas: every orientation (2^5) of five baselines, with and without autos, four row layouts, both "
    "algorithms: get_redundancies from data and from antenna positions, compress_by_redundancy (select and average, in place or not) "
    "with every flag pattern of a group of three present as channels, inflate_by_redundancy of every choice of at most one "
    "baseline per group in either orientation with four output orders (also with every row twice, towards two phase centres), compress then inflate; all pol sets incl. cross-hands; "
    "and find_clusters on every arrangement of four points on a grid of six positions (tie distances included)."
)
ASSUMPTIONS = [
    "groups are separated by much more than the tolerance and spread by much less (otherwise only the clustering algorithm's refusal is claimed)"
]

NUM = [3, 0, 12, 7, 5]
LAYOUT = {
    "hex": [(0, 0, 0), (14.6, 0, 0), (29.2, 0, 0), (7.3, 12.6, 0), (21.9, 12.6, 0)],
    "ns": [(0, 0, 0), (0.05, 14.6, 0), (-0.03, 29.2, 0), (14.6, 0.02, 0), (14.62, 14.6, 0)],
    "none": [(0, 0, 0), (31.0, 5.0, 0), (-11.0, 47.0, 0), (80.0, 3.0, 0), (7.0, -95.0, 0)],
}
JIT = np.array([[0.03, -0.02, 0.01], [-0.04, 0.05, 0.0], [0.02, 0.04, -0.03], [0.0, -0.05, 0.02], [0.05, 0.01, 0.04]]) / 2
TOL = 1.0
PAIRS = [(0, 1), (1, 2), (3, 4), (0, 2), (0, 3)]
_c = {}


def tel(lay):
    if lay not in _c:
        enu = np.array(LAYOUT[lay], float) + JIT
        pos = utils.ECEF_from_ENU(enu, center_loc=gen.LOC) - gen.LOCXYZ
        _c[lay] = Telescope.new(
            name="red", location=gen.LOC, antenna_positions=pos, antenna_numbers=NUM, antenna_names=[f"a{n}" for n in NUM],
            instrument="red", x_orientation="east", antenna_diameters=np.full(5, 12.0),
        )
    return _c[lay].copy()


def vec(lay, pair):
    enu = np.array(LAYOUT[lay], float) + JIT
    return enu[NUM.index(pair[1])] - enu[NUM.index(pair[0])]


def build(lay, pairs, rows="time", pols=(-5, -6, -7, -8), pc="unproj", nt=2, nf=8, meta=False, seed=0, opt=()):
    """pairs: list of antenna-number pairs."""
    nb = len(pairs)
    blts = [(t, b) for t in range(nt) for b in range(nb)]
    if rows == "bl":
        blts = [(t, b) for b in range(nb) for t in range(nt)]
    elif rows == "ragged":
        blts = [x for i, x in enumerate(blts) if i % 4 != 1]
        blts = blts[::-1]
    elif rows == "rev":
        blts = blts[::-1]
    elif rows == "dup":
        # every row twice, towards two phase centres
        blts = blts + blts[::-1]
    t = np.array([x[0] for x in blts])
    b = np.array([x[1] for x in blts])
    cat, ids = gen.pc_setup(pc, t, b)
    if rows == "dup":
        k = sorted(cat)[0]
        cat = {**cat, k + 3: dict(cat[k], cat_name="second")}
        ids = np.where(np.arange(len(t)) < len(t) // 2, ids, k + 3)
    uv = UVData.new(
        freq_array=1e8 + np.arange(nf) * 1e5,
        channel_width=np.full(nf, 1e5),
        polarization_array=np.array(pols),
        times=gen.JD0 + t * gen.DT,
        antpairs=np.array(pairs)[b],
        do_blt_outer=False,
        integration_time=np.full(len(t), 10.0),
        telescope=tel(lay),
        phase_center_catalog=cat,
        phase_center_id_array=ids,
    )
    uv.history = "mc."
    if not meta:
        ap = np.array(pairs)[b]
        autos = ap[:, 0] == ap[:, 1]
        d, _, ns = gen.cell_data(len(t), nf, len(pols), seed=seed, autos=autos, pols=list(pols))
        f = np.zeros(d.shape, bool)
        for r in range(len(t)):
            for c in range(nf):
                for p in range(len(pols)):
                    f[r, c, p] = ((c * (1, 3, 5, 7)[p % 4] + t[r]) % 8 >> (b[r] % 3)) & 1
        if "allflag" in opt:
            f[t == 0] = True
        uv.data_array, uv.flag_array, uv.nsample_array = d, f, ns
    if "scan" in opt:
        uv.scan_number_array = t + 3
    uv.set_rectangularity(force=True)
    return uv


def canon(v):
    """orientation sign of a vector: u > 0, then v > 0, then w > 0, with tolerance."""
    for x in v:
        if x > TOL:
            return 1
        if x < -TOL:
            return -1
    return 1


def classes(lay, pairs, conj):
    """partition of the pairs into redundant classes -> list of lists of (pair, sign)."""
    out = []
    for p in pairs:
        v = vec(lay, p)
        s = canon(v) if conj else 1
        for g in out:
            q, sq = g[0]
            if np.linalg.norm(v * s - vec(lay, q) * sq) < TOL:
                g.append((p, s))
                break
        else:
            out.append([(p, s)])
    return out


def conj_swap(pols):
    c = {-5: -5, -6: -6, -7: -8, -8: -7, 1: 1, 2: 2, 3: 3, 4: 4, -1: -1, -2: -2, -3: -4, -4: -3}
    if not all(c[p] in pols for p in pols):
        return None
    return [list(pols).index(c[p]) for p in pols]


def upairs(uv):
    return list(dict.fromkeys(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))


def orient(m, r, sign, swap):
    d, f, n = (m.c[k][r] for k in ("data_array", "flag_array", "nsample_array"))
    if sign == 1:
        return d, f, n
    return np.conj(d[:, swap]), f[:, swap], n[:, swap]


def averaged(m, rows, signs, swap):
    F = []
    full = None
    for r, s in zip(rows, signs):
        x = orient(m, r, s, swap)
        F.append(x)
        full = x[1].copy() if full is None else full & x[1]
    num = np.zeros(full.shape, complex)
    wt = np.zeros(full.shape)
    for d, f, n in F:
        use = ~f | full
        w = np.where(use, n, 0.0)
        num += w * d
        wt += w
    return num / wt, full, wt


# ------------------------------------------------------------------ cases
POLS = [[-5, -6], [-5, -6, -7, -8], [-8, -5, -7], [-5, -7], [1, 2, 3, 4], [-2, -4, -3]]
ORD = [("time", None), ("baseline", "time"), ("ant1", "ant2"), ("time", "baseline")]


def orientations(n):
    return list(itertools.product((0, 1), repeat=n))


def pairset(ori, autos):
    out = []
    for (i, j), o in zip(PAIRS, ori):
        a, b = NUM[i], NUM[j]
        out.append((b, a) if o else (a, b))
    if autos:
        out += [(NUM[0], NUM[0]), (NUM[3], NUM[3])]
    return out


def cases(tier):
    full = tier == "thorough"
    out = []
    i = 0
    for lay in LAYOUT:
        for ori in orientations(5):
            for au in (0, 1):
                pr = pairset(ori, au)
                for alg in (0, 1):
                    for rows in ("time", "bl", "ragged", "rev"):
                        i += 1
                        pc = ("unproj", "sidA", "unproj")[i % 3]
                        if not full and (i * 7) % 3 == 0:
                            continue
                        out.append(["get", lay, pr, rows, pc, alg])
                        for meth in ("select", "average"):
                            ps = POLS if full else [POLS[(i + (meth == "select")) % 6]]
                            for pols in ps:
                                out.append(["comp", lay, pr, rows, pc, alg, meth, pols, i % 2, ["", "scan", "allflag"][i % 3]])
    # at most one baseline per group
    for lay in ("hex", "ns"):
        pool = [(0, 1), (3, 0), (0, 2), (4, 0), (3, 2), (1, 3)]
        for k in range(1, 5):
            for sub in itertools.combinations(pool, k):
                for ori in orientations(k):
                    pr = [(NUM[b], NUM[a]) if o else (NUM[a], NUM[b]) for (a, b), o in zip(sub, ori)]
                    if any(len(g) > 1 for g in classes(lay, pr, True)):
                        continue
                    i += 1
                    if not full and k == 4 and i % 2:
                        continue
                    if i % 5 == 0:
                        pr = pr + [(NUM[2], NUM[2])]
                    for alg in (0, 1):
                        out.append(["infl", lay, pr, ("time", "bl", "ragged", "rev", "dup")[i % 5], ("unproj", "sidA")[(i // 2) % 2], alg, (i + alg) % 4, POLS[i % 2], ["", "scan", "meta"][i % 3]])
    for lay in ("hex", "ns"):
        for ori in orientations(5):
            for alg in (0, 1):
                out.append(["rt", lay, pairset(ori, 0), alg])
    for lay in LAYOUT:
        for alg in (0, 1):
            for au in (0, 1):
                out.append(["ant", lay, alg, au])
    vals = [0.0, 0.5, 0.9, 1.4, 2.3, 5.0]
    for pts in itertools.product(range(6), repeat=4):
        out.append(["clus", [vals[k] for k in pts]])
    return out


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)
    ctx.trace()


def bl2pair(uv, bl):
    a, b = uv.baseline_to_antnums(bl)
    return int(a), int(b)


def run_get(case, ctx):
    _, lay, pr, rows, pc, alg = case
    pr = [tuple(p) for p in pr]
    uv = build(lay, pr, rows, pc=pc, meta=True)
    here = upairs(uv)
    for conj in (False, True):
        m = UVModel(uv)
        res = uv.get_redundancies(tol=TOL, include_conjugates=conj, use_grid_alg=bool(alg))
        ctx.step()
        for n in BLT:
            require(same(m.c[n], getattr(uv, n)), f"get_redundancies changed {n}")
        check_groups(uv, lay, here, conj, res, phased=pc != "unproj")
    ctx.state(digest(lay, here, alg, rows))


def check_groups(uv, lay, here, conj, res, phased=False):
    gps = [[bl2pair(uv, b) for b in g] for g in res[0]]
    want = classes(lay, here, conj)
    if phased:
        # uvws of a phased array: the sign convention and centres are in the projected frame
        w2 = {frozenset(p for p, _ in g) for g in classes_undirected(lay, here, conj)}
    else:
        w2 = {frozenset(p for p, _ in g) for g in want}
    g2 = [frozenset(g) for g in gps]
    if len(g2) != len(set(g2)) or set(g2) != w2:
        raise Violation(f"groups (conjugates {conj}): {sorted(map(sorted, g2))} expected {sorted(map(sorted, w2))}")
    if phased:
        return
    sign = {p: s for g in want for p, s in g}
    for g, c, ln in zip(gps, res[1], res[2]):
        e = np.mean([vec(lay, p) * sign[p] for p in g], axis=0)
        require(np.allclose(e, c, atol=1e-3), f"centre of {g}: {c} expected {e}")
        require(abs(np.linalg.norm(e) - ln) < 1e-3, f"length of {g}")
    if conj:
        got = {bl2pair(uv, b) for b in res[3]}
        require(got == {p for p, s in sign.items() if s < 0}, f"conjugates {got}")


def classes_undirected(lay, pairs, conj):
    out = []
    for p in pairs:
        v = vec(lay, p)
        for g in out:
            q = vec(lay, g[0][0])
            if np.linalg.norm(v - q) < TOL or (conj and np.linalg.norm(v + q) < TOL):
                g.append((p, 1))
                break
        else:
            out.append([(p, 1)])
    return out


def run_comp(case, ctx):
    _, lay, pr, rows, pc, alg, meth, pols, inplace, opt = case
    pr = [tuple(p) for p in pr]
    uv = build(lay, pr, rows, pols=pols, pc=pc, opt=(opt,))
    m = UVModel(uv)
    here = upairs(uv)
    cl = classes_undirected(lay, here, True)
    swap = conj_swap(pols)
    what = f"compress {meth}"
    refuse = False
    if meth == "average" and swap is None:
        for g in cl:
            v0 = vec(lay, g[0][0])
            if any(np.dot(vec(lay, p), v0) < 0 for p, _ in g):
                refuse = True
    frz = Frozen(uv)
    try:
        out = uv.compress_by_redundancy(method=meth, tol=TOL, inplace=bool(inplace), keep_all_metadata=True, use_grid_alg=bool(alg))
        err = None
    except ValueError as e:
        err = e
    ctx.step()
    if refuse:
        require(err is not None, f"{what}: averaged baselines of opposite orientation without the conjugate polarization")
        ctx.outcome("refused")
        return
    if err is not None:
        raise Violation(f"{what}: {err}")
    if not inplace:
        u2 = uv
        fz = Frozen(u2)
        for k in ("_blts_are_rectangular", "_time_axis_faster_than_bls"):
            frz.img.pop(k, None)
        frz.check(u2, what)
        del fz
    else:
        require(out is None, f"{what}: returned something in place")
        out = uv
    got = upairs(out)
    for g in cl:
        n = [p for p, _ in g if p in got]
        require(len(n) == 1, f"{what}: {len(n)} baselines left of group {g}")
    require(len(got) == len(cl), f"{what}: {got}")
    g = UVModel(out)
    src = {}
    for i in range(len(m.c["time_array"])):
        src.setdefault((int(m.c["ant_1_array"][i]), int(m.c["ant_2_array"][i])), []).append(i)
    # rows kept: exactly the rows of the representatives, in their original order
    keep = [i for i in range(len(m.c["time_array"])) if (int(m.c["ant_1_array"][i]), int(m.c["ant_2_array"][i])) in got]
    for n in BLT:
        if n == "scan_number_array" and opt != "scan":
            continue
        a = m.c[n][keep]
        require(same(a, g.c[n]), f"{what}: {n}: {describe(a, g.c[n])}")
    for j, i in enumerate(keep):
        p = (int(m.c["ant_1_array"][i]), int(m.c["ant_2_array"][i]))
        if meth == "select":
            e = tuple(m.c[k][i] for k in ("data_array", "flag_array", "nsample_array"))
        else:
            grp = next(g for g in cl if p in [q for q, _ in g])
            rws, sg = [], []
            for q, _ in grp:
                for r in src[q]:
                    if m.c["time_array"][r] == m.c["time_array"][i]:
                        rws.append(r)
                        sg.append(1 if np.dot(vec(lay, q), vec(lay, p)) >= 0 else -1)
            if p[0] == p[1]:
                sg = [1] * len(sg)
            e = averaged(m, rws, sg, swap)
        for k, x in zip(("data_array", "flag_array", "nsample_array"), e):
            y = g.c[k][j]
            if k == "flag_array":
                ok = np.array_equal(x, y)
            else:
                ok = np.allclose(x, y, rtol=2e-6, atol=0)
            if not ok:
                raise Violation(f"{what}: {k} of {p} time {j}: {describe(x, y)}")
    require(same(m.ant["antenna_numbers"], g.ant["antenna_numbers"]), f"{what}: antennas")
    for k, v in g.counts().items():
        require(getattr(out, k) == v, f"{what}: {k}")
    check_valid(out, what)
    ctx.state(digest(g.digest()))
    ctx.outcome("ok")


def inflate_model(lay, m):
    """{pair: source pair} over all telescope baselines, u>0 orientation."""
    src = list(dict.fromkeys(zip(m.c["ant_1_array"].tolist(), m.c["ant_2_array"].tolist())))
    out = {}
    for i, j in itertools.combinations_with_replacement(range(5), 2):
        p = (NUM[i], NUM[j])
        v = vec(lay, p)
        if canon(v) < 0:
            p, v = p[::-1], -v
        for q in src:
            w = vec(lay, q)
            if np.linalg.norm(w - v) < TOL:
                out[p] = (q, 1)
            elif np.linalg.norm(w + v) < TOL:
                out[p] = (q, -1)
    return out


def run_infl(case, ctx):
    _, lay, pr, rows, pc, alg, o, pols, opt = case
    pr = [tuple(p) for p in pr]
    uv = build(lay, pr, rows, pols=pols, pc=pc, opt=(opt,), meta=opt == "meta")
    m = UVModel(uv)
    uv.inflate_by_redundancy(tol=TOL, blt_order=ORD[o][0], blt_minor_order=ORD[o][1], use_grid_alg=bool(alg))
    ctx.step()
    check_inflated(lay, m, uv, pols, ORD[o])
    ctx.state(digest(UVModel(uv).digest()))


def check_inflated(lay, m, uv, pols, order):
    what = "inflate"
    swap = conj_swap(pols)
    mp = inflate_model(lay, m)
    got = upairs(uv)
    fix = {}
    for p in got:
        # autocorrelations and sub-tolerance vectors have no preferred orientation
        fix[p] = p if p in mp else p[::-1]
        require(fix[p] in mp, f"{what}: baseline {p} has no source")
        require(p in mp, f"{what}: baseline {p} is not in the u>0 orientation")
    require(len(got) == len(mp), f"{what}: baselines {sorted(got)}, expected {sorted(mp)}")
    g = UVModel(uv)
    rows = {}
    for i in range(uv.Nblts):
        k = (int(g.c["ant_1_array"][i]), int(g.c["ant_2_array"][i]), float(g.c["time_array"][i]), g.cat[g.c["phase_center_id_array"][i]]["cat_name"])
        require(k not in rows, f"{what}: two rows for {k}")
        rows[k] = i
    n = 0
    for p, (q, s) in mp.items():
        for r in range(len(m.c["time_array"])):
            if (int(m.c["ant_1_array"][r]), int(m.c["ant_2_array"][r])) != q:
                continue
            n += 1
            k = (*p, float(m.c["time_array"][r]), m.cat[m.c["phase_center_id_array"][r]]["cat_name"])
            require(k in rows, f"{what}: row {k} missing")
            j = rows[k]
            for c in ("lst_array", "integration_time", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa", "scan_number_array"):
                if m.c[c] is None:
                    require(g.c[c] is None, f"{what}: {c} appeared")
                    continue
                require(np.allclose(m.c[c][r], g.c[c][j], rtol=0, atol=1e-9), f"{what}: {c} of {k}")
            require(np.allclose(m.c["uvw_array"][r] * s, g.c["uvw_array"][j], atol=TOL), f"{what}: uvw of {k}")
            a = m.cat[m.c["phase_center_id_array"][r]]["cat_name"]
            require(a == g.cat[g.c["phase_center_id_array"][j]]["cat_name"], f"{what}: phase centre of {k}")
            if m.c["data_array"] is None:
                require(g.c["data_array"] is None, f"{what}: data appeared")
                continue
            for c, x in zip(("data_array", "flag_array", "nsample_array"), orient(m, r, s, swap)):
                y = g.c[c][j]
                require(np.array_equal(x, y), f"{what}: {c} of {k} from {q}: {describe(x, y)}")
    require(n == uv.Nblts, f"{what}: {uv.Nblts} rows, expected {n}")
    for k, v in g.counts().items():
        require(getattr(uv, k) == v, f"{what}: {k} is {getattr(uv, k)} not {v}")
    check_valid(uv, what)
    y = uv.copy(metadata_only=True)
    y.reorder_blts(order=order[0], minor_order=order[1])
    require(np.array_equal(y.baseline_array, uv.baseline_array) and np.array_equal(y.time_array, uv.time_array), f"{what}: not in {order} order")


def run_rt(case, ctx):
    """compress (select or average) then inflate."""
    _, lay, pr, alg = case
    pr = [tuple(p) for p in pr]
    for meth in ("select", "average"):
        uv = build(lay, pr, "time", pols=[-5, -6, -7, -8])
        uv.compress_by_redundancy(method=meth, tol=TOL, use_grid_alg=bool(alg))
        m = UVModel(uv)
        uv.inflate_by_redundancy(tol=TOL, use_grid_alg=bool(alg))
        ctx.step(2)
        check_inflated(lay, m, uv, [-5, -6, -7, -8], ORD[0])
        ctx.state(digest(UVModel(uv).digest()))


def run_ant(case, ctx):
    _, lay, alg, au = case
    uv = build(lay, pairset((0, 1, 0, 1, 0), 1), "time", pols=[-5, -6, -7, -8])
    frz = Frozen(uv)
    res = uv.get_redundancies(tol=TOL, use_antpos=True, include_autos=bool(au), use_grid_alg=bool(alg))
    ctx.step()
    frz.check(uv, "get_redundancies(use_antpos)")
    pairs = list(itertools.combinations(NUM, 2))
    if au:
        pairs += [(n, n) for n in NUM]
    pairs = [p if canon(vec(lay, p)) > 0 else p[::-1] for p in pairs]
    want = {frozenset(p for p, _ in g) for g in classes(lay, pairs, False)}
    gps = [[bl2pair(uv, b) for b in g] for g in res[0]]
    got = {frozenset(g) for g in gps}
    require(got == want and len(gps) == len(want), f"antenna groups {sorted(map(sorted, got ^ want))}")
    for g, c, ln in zip(gps, res[1], res[2]):
        e = np.mean([vec(lay, p) for p in g], axis=0)
        require(np.allclose(e, c, atol=1e-3) and abs(ln - np.linalg.norm(e)) < 1e-3, f"centre of {g}")
    # asked to conjugate: the data now have the orientation of the groups
    uv.get_redundancies(tol=TOL, use_antpos=True, conjugate_bls=True, use_grid_alg=bool(alg))
    for p in upairs(uv):
        require(p[0] == p[1] or any(p in g for g in gps), f"baseline {p} not oriented like its group")
    ctx.step()
    ctx.state(digest(lay, alg, au))


def run_clus(case, ctx):
    x = case[1]
    tol = 0.9
    n = len(x)
    adj = [frozenset(j for j in range(n) if j == i or abs(x[i] - x[j]) < tol) for i in range(n)]
    cliques = all(adj[i] == adj[j] for i in range(n) for j in adj[i])
    v = np.zeros((n, 3))
    v[:, 0] = x
    ids = np.array([11, 7, 40, 23])
    for strict in (True, False):
        try:
            g = red.find_clusters(location_ids=ids, location_vectors=v, tol=tol, strict=strict)
        except ValueError:
            g = None
        ctx.step()
        if strict:
            require((g is None) == (not cliques), f"strict clustering of {x}: {g}")
        else:
            require(g is not None, "non-strict clustering refused")
        if g is not None and cliques:
            want = {frozenset(ids[list(a)].tolist()) for a in adj}
            require({frozenset(q) for q in g} == want and len(g) == len(want), f"clusters of {x}: {g}")
    try:
        r = red.get_baseline_redundancies(ids, v, tol=tol, use_grid_alg=False)
        require(cliques, f"ambiguous groups accepted for {x}")
        require(sorted(sum(r[0], [])) == sorted(ids.tolist()), "not a partition")
    except ValueError:
        require(not cliques, f"unambiguous groups refused for {x}")
    r = red.get_baseline_redundancies(ids, v, tol=tol, use_grid_alg=True)
    require(sorted(sum(r[0], [])) == sorted(ids.tolist()), f"grid algorithm: not a partition {r[0]}")
    pos = dict(zip(ids.tolist(), x))
    for g in r[0]:
        require(max(pos[b] for b in g) - min(pos[b] for b in g) <= tol, f"grid algorithm: group wider than the tolerance {x} {r[0]}")
    ctx.step(2)
    ctx.state(digest(x))
    ctx.outcome("ok")
