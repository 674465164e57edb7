"""Selection alphabet: JSON atoms -> (library kwargs, reference predicate)."""

import itertools

import numpy as np

POLSTR = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr",
          1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
POLEW = {-5: "ee", -6: "nn", -7: "en", -8: "ne"}  # x_orientation east
CONJ = {-5: -5, -6: -6, -7: -8, -8: -7, -1: -1, -2: -2, -3: -4, -4: -3}


def subsets(xs, lo=1, hi=None):
    xs = list(xs)
    for r in range(lo, (hi or len(xs)) + 1):
        yield from (list(c) for c in itertools.combinations(xs, r))


def form(vals, f, dtype=None):
    if f == "list":
        return list(vals)
    if f == "tuple":
        return tuple(vals)
    if f == "array":
        return np.array(vals)
    if f == "2d":
        return np.array(vals)[np.newaxis, :]
    if f == "scalar":
        assert len(vals) == 1
        return vals[0]
    raise ValueError(f)


def halfstep(utimes, h):
    """position h in half steps along the sorted unique values: -1 before all."""
    n = len(utimes)
    if h <= -1:
        return utimes[0] - 0.3 * (utimes[-1] - utimes[0] + 1e-4)
    if h >= 2 * n - 1:
        return utimes[-1] + 0.3 * (utimes[-1] - utimes[0] + 1e-4)
    if h % 2 == 0:
        return utimes[h // 2]
    return 0.5 * (utimes[h // 2] + utimes[h // 2 + 1])


def kwargs_of(atom, m):
    """Library keyword arguments for an atom, values taken from model m's labels."""
    k, f = atom["k"], atom.get("f", "list")
    c = m.c
    if k == "antenna_nums":
        return {k: form(atom["v"], f)}
    if k == "antenna_names":
        num = list(m.ant["antenna_numbers"])
        return {k: form([m.ant["antenna_names"][num.index(a)] for a in atom["v"]], f)}
    if k == "bls":
        v = [tuple(x) for x in atom["v"]]
        return {k: v[0] if f == "scalar" else v}
    if k == "bl_nums":
        nums = []
        for a, b in atom["v"]:
            i = np.nonzero((c["ant_1_array"] == a) & (c["ant_2_array"] == b))[0]
            nums.append(int(c["baseline_array"][i[0]]) if len(i) else 10**7)
        return {"bls": nums}
    if k == "ant_str":
        return {k: ant_str_of(atom["items"])}
    ut = atom.get("ut")
    if k in ("times", "lsts"):
        col = c["time_array" if k == "times" else "lst_array"]
        base = np.array(ut) if ut is not None else _utimes(c, k)
        return {k: form([base[i] for i in atom["ti"]], f)}
    if k == "time_range":
        u = _utimes(c, "times")
        return {k: form([halfstep(u, atom["lo"]), halfstep(u, atom["hi"])], f)}
    if k == "lst_range":
        u = _utimes(c, "lsts")
        lo, hi = halfstep(u, atom["lo"]), halfstep(u, atom["hi"])
        return {k: form([lo % (2 * np.pi), hi % (2 * np.pi)], f)}
    if k == "blt_inds":
        return {k: form(atom["v"], f)}
    if k == "phase_center_ids":
        return {k: form(atom["v"], f)}
    if k == "catalog_names":
        return {k: form(atom["v"], f)}
    if k == "freq_chans":
        return {k: form(atom["v"], f)}
    if k == "frequencies":
        return {k: form([c["freq_array"][i] for i in atom["v"]], f)}
    if k == "freq_both":
        return {
            "freq_chans": form(atom["v"], f),
            "frequencies": form([c["freq_array"][i] for i in atom["w"]], f),
        }
    if k == "polarizations":
        s = atom.get("s", "num")
        v = atom["v"]
        if s == "str":
            v = [POLSTR[p] for p in v]
        elif s == "ew":
            v = [POLEW[p] for p in v]
        return {k: form(v, f)}
    raise ValueError(k)


def _utimes(c, which):
    if which == "times":
        return np.unique(c["time_array"])
    # LSTs in time order (they may wrap through zero)
    t, i = np.unique(c["time_array"], return_index=True)
    return c["lst_array"][i]


def ant_str_of(items):
    out = []
    for it in items:
        if isinstance(it, str):
            out.append(it)
            continue
        sign, i, pi, j, pj = it
        s = "-" if sign < 0 else ""
        ii = "(" + ",".join(f"{x}" for x in i) + ")" if isinstance(i, list) else f"{i}"
        s += ii + (pi or "")
        if j is not None:
            jj = (
                "(" + ",".join(f"{x}" for x in j) + ")" if isinstance(j, list) else f"{j}"
            )
            s += "_" + jj + (pj or "")
        out.append(s)
    return ",".join(out)


class NoMatch(Exception):
    """The reference model says: nothing selected / invalid argument -> error."""


def blt_mask(atom, m):
    """Boolean mask over blts, or None when the atom does not constrain blts."""
    k = atom["k"]
    c = m.c
    a1, a2 = c["ant_1_array"], c["ant_2_array"]
    n = len(a1)
    present = set(a1.tolist()) | set(a2.tolist())
    if k in ("antenna_nums", "antenna_names"):
        want = set(atom["v"])
        if not want <= present:
            raise NoMatch("antenna")
        return np.array([(x in want) and (y in want) for x, y in zip(a1, a2)])
    if k in ("bls", "bl_nums"):
        out = np.zeros(n, bool)
        for b in atom["v"]:
            w = np.array([(x, y) == (b[0], b[1]) for x, y in zip(a1, a2)])
            if k == "bls" and not w.any():
                w = np.array([(x, y) == (b[1], b[0]) for x, y in zip(a1, a2)])
            if not w.any():
                raise NoMatch("bl")
            out |= w
        return out
    if k == "ant_str":
        pairs = ant_str_pairs(atom["items"], m)
        if pairs is None:
            return None
        if len(pairs) == 0:
            # documented by the library's own tests: an ant_str that matches nothing
            # is a no-op with a warning except for a bare auto/cross
            if atom["items"] in (["auto"], ["cross"]):
                raise NoMatch("ant_str")
            return None
        return np.array([(x, y) in pairs for x, y in zip(a1, a2)])
    if k in ("times", "lsts"):
        kw = kwargs_of(atom, m)[k]
        col = c["time_array" if k == "times" else "lst_array"]
        out = np.zeros(n, bool)
        for v in np.atleast_1d(np.asarray(kw, float)).ravel():
            w = np.abs(col - v) <= 1e-9
            if not w.any():
                raise NoMatch(k)
            out |= w
        return out
    if k == "time_range":
        lo, hi = np.asarray(kwargs_of(atom, m)[k], float).ravel()
        out = (c["time_array"] >= lo) & (c["time_array"] <= hi)
        if not out.any():
            raise NoMatch(k)
        return out
    if k == "lst_range":
        lo, hi = np.asarray(kwargs_of(atom, m)[k], float).ravel()
        lst = c["lst_array"]
        if lo <= hi:
            out = (lst >= lo) & (lst <= hi)
        else:
            out = (lst >= lo) | (lst <= hi)
        if not out.any():
            raise NoMatch(k)
        return out
    if k == "blt_inds":
        if max(atom["v"]) >= n or min(atom["v"]) < 0:
            raise NoMatch(k)
        return np.array([i in atom["v"] for i in range(n)])
    if k == "phase_center_ids":
        return np.array([i in atom["v"] for i in c["phase_center_id_array"]])
    if k == "catalog_names":
        return np.array(
            [m.cat[i]["cat_name"] in atom["v"] for i in c["phase_center_id_array"]]
        )
    return None


def ant_str_pairs(items, m):
    c = m.c
    pairs_data = set(zip(c["ant_1_array"].tolist(), c["ant_2_array"].tolist()))
    ants = {x for p in pairs_data for x in p}
    if items == ["all"]:
        return None
    cur = set()
    if not isinstance(items[0], str) and items[0][0] < 0:
        cur = set(pairs_data)
    touched = False
    for it in items:
        if it == "all":
            cur |= pairs_data
            touched = True
        elif it == "auto":
            cur |= {p for p in pairs_data if p[0] == p[1]}
            touched = True
        elif it == "cross":
            cur |= {p for p in pairs_data if p[0] != p[1]}
            touched = True
        elif isinstance(it, str):  # pI ...
            pass
        else:
            sign, i, _, j, _ = it
            ii = i if isinstance(i, list) else [i]
            jj = sorted(ants) if j is None else (j if isinstance(j, list) else [j])
            for x in ii:
                for y in jj:
                    for p in ((x, y), (y, x)):
                        if p in pairs_data:
                            if sign > 0:
                                cur.add(p)
                            else:
                                cur.discard(p)
                            break
            touched = True
    if not touched:
        return None
    return cur


def freq_inds(atom, m):
    k = atom["k"]
    if k in ("freq_chans", "frequencies", "freq_both"):
        f = m.c["freq_array"]
        n = len(f)
        keep = set()
        if k in ("freq_chans", "freq_both"):
            if max(atom["v"]) >= n:
                raise NoMatch(k)
            keep |= {v % n for v in atom["v"]}
        if k == "frequencies":
            keep |= {i for i in range(n) if f[i] in [f[j] for j in atom["v"]]}
        if k == "freq_both":
            keep |= {i for i in range(n) if f[i] in [f[j] for j in atom["w"]]}
        return keep
    return None


def pol_set(atom, m):
    """Set of polarization numbers asked for, or None."""
    k = atom["k"]
    if k == "polarizations":
        return set(atom["v"])
    if k == "bls" and len(atom["v"][0]) == 3:
        num = {v: kk for kk, v in POLSTR.items()}
        c = m.c
        out = set()
        for a, b, p in atom["v"]:
            w = ((c["ant_1_array"] == a) & (c["ant_2_array"] == b)).any()
            out.add(num[p] if w else CONJ[num[p]])
        return out
    if k == "ant_str":
        num = {v: kk for kk, v in POLSTR.items()}
        have = set(m.c["polarization_array"].tolist())
        c = m.c
        pairs_data = set(zip(c["ant_1_array"].tolist(), c["ant_2_array"].tolist()))
        out = set()
        for it in atom["items"]:
            if isinstance(it, str):
                if it.startswith("p"):
                    out.add(num[it])
                continue
            sign, i, pi, j, pj = it
            if pi is None and pj is None:
                continue
            ii = i if isinstance(i, list) else [i]
            jj = j if isinstance(j, list) else [j]
            if j is not None and not any(
                (x, y) in pairs_data or (y, x) in pairs_data for x in ii for y in jj
            ):
                continue
            fam = "xy" if (pi or pj) in "xy" else "lr"
            for x in [pi] if pi else list(fam):
                for y in [pj] if pj else list(fam):
                    if num[x + y] in have:
                        out.add(num[x + y])
        return out or None
    return None


def select_model(m, atoms, keep_all=True):
    """The reference selection: (new model) or NoMatch."""
    n = len(m.c["time_array"])
    mask = np.ones(n, bool)
    con = False
    fkeep = None
    pkeep = None
    for a in atoms:
        b = blt_mask(a, m)
        if b is not None:
            mask &= b
            con = True
        f = freq_inds(a, m)
        if f is not None:
            fkeep = f if fkeep is None else fkeep & f
        p = pol_set(a, m)
        if p is not None:
            pkeep = p
    if con and not mask.any():
        raise NoMatch("empty")
    out = m
    nf = len(m.c["freq_array"])
    if pkeep is not None:
        pols = m.c["polarization_array"].tolist()
        if m.fpol is not None:
            fp = dict(zip(m.spw.tolist(), np.asarray(m.fpol).tolist()))
            if not pkeep <= set(fp.values()):
                raise NoMatch("pol")
            pf = {
                i for i in range(nf) if fp[m.c["flex_spw_id_array"][i]] in pkeep
            }
            fkeep = pf if fkeep is None else fkeep & pf
            if not fkeep:
                raise NoMatch("freq")
        else:
            if not pkeep <= set(pols):
                raise NoMatch("pol")
            out = out.take_pol([i for i, p in enumerate(pols) if p in pkeep])
    if fkeep is not None:
        out = out.take_freq(sorted(fkeep))
    if con:
        out = out.take_blt(np.nonzero(mask)[0])
        if not keep_all:
            used = set(out.c["ant_1_array"].tolist()) | set(
                out.c["ant_2_array"].tolist()
            )
            out = out.take_ant(
                [i for i, a in enumerate(out.ant["antenna_numbers"]) if a in used]
            )
    return out
