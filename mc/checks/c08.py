"""C08: measurement sets hold the object: writing and reading back changes nothing."""

import itertools
import os
import shutil

import numpy as np
from astropy.time import Time
from pyuvdata import UVData

from mc import io
from mc.checks import c07
from mc.core import Violation, expect_raises, require
from mc.model import Frozen, UVModel, compare_uv

ID = "C08"
BOUNDS = (
    "write_ms then read of every object in the product of 5 blt layouts x 7 spectral "
    "window layouts (including interleaved, overlapping and reversed ids) x sidereal, "
    "moving and unused phase centers, with antenna numberings, polarization sets and "
    "orders, precisions, scan numbers and flexible polarization; model and corrected "
    "columns, flipped conjugation, forced phasing, clobber; two generations; refused "
    "objects; alternative file forms alone and in pairs (no SOURCE table, no source ids, "
    "no weight spectrum, rows shuffled, windows missing on some rows, permuted "
    "correlations, other time scale). A state is a distinct object read back."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
SPW = ["one", "one_desc", "two", "two_eqw", "two_rev", "overlap", "inter"]
PCS = ["sidA", "multi", "unused", "ephem", "sidpm", "mixeph"]
ANTS = ["three", "conj", "cross", "autos", "sorted"]
POLS = [(-5, -6, -7, -8), (-8, -5, -7, -6), (-5,), (-7, -8), (-1, -3, -4, -2), (-6, -5), (-1, -2),
        (-8,), (-1, -2, -3, -4)]
FORMS = ["nosource", "nosid", "nowtspec", "shufrows", "missing", "permcorr", "tai", "stations"]


def cases(tier):
    out = []
    i = 0
    for lay, spw, pc in itertools.product(LAY, SPW, PCS):
        for r in range(2 if tier == "quick" else 20):
            kw = dict(
                layout=lay,
                spw=spw,
                pc=pc,
                ants=ANTS[(i + r) % 5],
                pols=POLS[(i * 4 + r) % 9],
                dtype=("complex128", "complex64")[(i + r // 2) % 2],
                nf=4 if spw != "one" else (4, 1)[(i // 7) % 2],
                nt=(3, 1, 2)[(i + r) % 3],
                diam=bool((i // 2 + r) % 2),
                x_orient=("east", None, "north")[(i + r) % 3],
                inttime=("const", "bybl", "blt")[(i // 3 + r) % 3],
                extras=bool((i + r) % 3),
                vis_units=("Jy", "uncalib", "K str")[(i // 2 + r) % 3],
                scan=bool((i + r) % 2),
                seed=i % 5,
            )
            off = (0, 1, 260)[(i // 2 + r) % 3]
            if off:
                kw["_antoff"] = off
            w = {}
            if (i + r) % 5 == 2:
                w["flip_conj"] = True
            if (i // 2 + r) % 5 == 3:
                w["model"] = True
            if (i // 3 + r) % 5 == 1:
                w["corr"] = True
            if (i // 3 + r) % 7 == 3:
                w["clobber"] = True
            out.append(["rt", kw, w])
            i += 1
    base = dict(layout="ragged", pc="multi", ants="conj", pols=(-5, -6))
    for ex in [{}, {"A": "text"}, {"LONGKEYNAME": 4}, {"f": 2.5, "I": -3}]:
        out.append(["rt", dict(base, extras=False, _set={"extra_keywords": ex}), {}])
    for pcv in ("sum", "avg"):
        out.append(["rt", dict(base, _set={"pol_convention": pcv}), {}])
    for spw in ("one", "two"):
        for po in ("AIPS", "CASA", None):
            for pols in POLS[:2] + POLS[5:6]:
                out.append(["pol", dict(base, spw=spw, pols=pols), po])
    for lay in ("time", "ragged", "bl"):
        for pols in ((-5, -6), (-8, -5, -7), (-6, -5, -8, -7)):
            for spw in ("one", "two_eqw"):
                out.append(["flexpol", dict(layout=lay, ants="cross", pols=pols, spw=spw, nf=4, pc="sidA", eq=False)])
    for pc in ("unproj", "mixed2"):
        for lay in LAY:
            out.append(["force", dict(base, pc=pc, layout=lay, _geo=True)])
    for bad in ("unproj", "drift", "exists"):
        out.append(["bad", bad])
    for n in (0, 1, 2):
        for ks in itertools.combinations(FORMS, n):
            for x in (0, 1, 2, 3):
                out.append(["form", list(ks), x])
    return out


def build(kw):
    kw = dict(kw)
    pc = kw.get("pc")
    if pc in ("sidpm", "mixeph", "mixed2"):
        kw["pc"] = {"sidpm": "multi", "mixeph": "multi", "mixed2": "multi"}[pc]
    uv = io.build(kw)
    if pc == "sidpm":
        e = uv.phase_center_catalog[3]
        e.update(cat_pm_ra=12.5, cat_pm_dec=-250.0)
        uv._set_app_coords_helper()
    if pc == "mixeph":
        from mc.gen import pc_entry

        uv.phase_center_catalog[1] = pc_entry("ephem")
        uv._set_app_coords_helper()
        uv.set_uvws_from_antenna_positions(update_vis=False)
    if pc == "mixed2":
        from mc.gen import pc_entry

        uv.phase_center_catalog[1] = pc_entry("unproj")
        uv._set_app_coords_helper()
        uv.set_uvws_from_antenna_positions(update_vis=False)
    if kw.get("vis_units") and uv.dut1 is not None:
        pass
    return uv


def expected(uv, missing=False):
    m = UVModel(uv)
    p = m.c["polarization_array"]
    if m.fpol is None:
        m = m.take_pol(np.argsort(np.abs(p), kind="stable"))
    if len(m.spw) > 1:
        key = list(zip(m.c["time_array"], m.c["ant_1_array"], m.c["ant_2_array"]))
        m = m.take_blt(sorted(range(len(key)), key=lambda i: key[i]))
        ids = m.c["flex_spw_id_array"]
        m = m.take_freq(sorted(range(len(ids)), key=lambda i: (ids[i], i)))
        o = np.argsort(m.spw)
        m.spw = m.spw[o]
        if m.fpol is not None:
            m.fpol = np.asarray(m.fpol)[o]
    m.c["eq_coeffs"] = None
    m.g["eq_coeffs_convention"] = None
    m.c["baseline_array"] = None
    # the antenna table is indexed by antenna number
    m = m.take_ant(np.argsort(m.ant["antenna_numbers"]))
    m.tel["instrument"] = m.tel["name"]
    for k in ("dut1", "earth_omega", "gst0", "rdate", "timesys"):
        m.g[k] = None
    return m


TOL = {
    "uvw_array": (0, 1e-9),
    "time_array": (0, 2e-9),
    "lst_array": (0, 2e-8),
    "phase_center_app_ra": (0, 1e-7),
    "phase_center_app_dec": (0, 1e-7),
    "phase_center_frame_pa": (0, 1e-6),
    "integration_time": (1e-12, 0),
    "freq_array": (1e-14, 0),
    "channel_width": (1e-14, 0),
    "antenna_positions": (0, 1e-7),
    "antenna_diameters": (1e-12, 0),
    "nsample_array": (1e-6, 0),
}


def cmp_cat(m, r, what, sid=True):
    if sid:
        require(
            list(m.cat) == list(r.phase_center_catalog)
            and np.array_equal(m.c["phase_center_id_array"], r.phase_center_id_array),
            f"{what}: phase center ids {list(m.cat)} became {list(r.phase_center_catalog)}",
        )
    a = [m.cat[i] for i in m.c["phase_center_id_array"]]
    b = [r.phase_center_catalog[i] for i in r.phase_center_id_array]
    pairs = {(id(x), id(y)): (x, y) for x, y in zip(a, b)}
    if sid:
        for i in m.cat:
            pairs[i] = (m.cat[i], r.phase_center_catalog[i])
    for x, y in pairs.values():
        for k in ("cat_name", "cat_type", "cat_frame", "cat_epoch", "cat_lon", "cat_lat", "cat_times", "cat_pm_ra", "cat_pm_dec"):
            if not sid and k in ("cat_pm_ra", "cat_pm_dec"):
                continue
            u, v = x.get(k), y.get(k)
            require(
                not isinstance(v, np.ndarray) or v.ndim,
                f"{what}: {k} of phase center {x['cat_name']} is a 0-d array {v!r}",
            )
            if isinstance(u, str) or u is None or v is None or isinstance(v, str):
                ok = u == v
            else:
                ok = np.shape(u) == np.shape(v) and np.allclose(u, v, rtol=0, atol=1e-8)
            require(ok, f"{what}: {k} of phase center {x['cat_name']}: {u} became {v}")


def compare(m, r, what, sid=True, data_col="DATA", skip=(), scan=True):
    cmp_cat(m, r, what, sid)
    ex = dict(r.extra_keywords)
    require(ex.pop("DATA_COL", None) == data_col, f"{what}: DATA_COL")
    ex.pop("observer", None)
    want = {k: v for k, v in m.g["extra_keywords"].items() if k not in ("DATA_COL", "observer")}
    require(ex == want, f"{what}: extra keywords {want} became {ex}")
    m.g["extra_keywords"] = dict(r.extra_keywords)
    if m.c["scan_number_array"] is None or not scan:
        # made up on writing: consecutive rows on one phase center
        m.c["scan_number_array"] = r.scan_number_array
        for s in set(r.scan_number_array.tolist()):
            ids = r.phase_center_id_array[r.scan_number_array == s]
            require(len(set(ids.tolist())) == 1, f"{what}: scan {s} has several phase centers")
    compare_uv(
        m, r, what, tol=TOL, cat=None,
        skip=("baseline_array", "phase_center_frame_pa", "phase_center_id_array") + tuple(skip), counts=False,
    )
    d = m.c["phase_center_frame_pa"] - r.phase_center_frame_pa
    require(np.all(np.abs(np.angle(np.exp(1j * d))) < 1e-5), f"{what}: frame pa differs")
    require(np.array_equal(r.baseline_array, c07.blnum(r)), f"{what}: baseline numbers")
    for k, v in (
        ("Nblts", len(m.c["time_array"])),
        ("Ntimes", len(set(m.c["time_array"].tolist()))),
        ("Nbls", len({*zip(m.c["ant_1_array"].tolist(), m.c["ant_2_array"].tolist())})),
        ("Nfreqs", len(m.c["freq_array"])),
        ("Npols", len(m.c["polarization_array"])),
        ("Nspws", len(m.spw)),
        ("Nphase", len(r.phase_center_catalog)),
    ):
        require(getattr(r, k) == v, f"{what}: {k} is {getattr(r, k)} not {v}")


def run(case, ctx):
    p = io.path(".ms")
    globals()["run_" + case[0]](case, ctx, p)
    ctx.trace()
    # (not after a failure: a table left open aborts the process when its files vanish)
    io.rm(p)


def run_rt(case, ctx, p):
    _, kw, w = case
    uv = build(kw)
    w = dict(w)
    wk = {}
    if w.get("model"):
        wk["model_data"] = uv.data_array * 2 + 1
    if w.get("corr"):
        wk["corrected_data"] = uv.data_array * 4 - 2
    if w.get("clobber"):
        other = build(dict(kw, seed=(kw["seed"] + 1) % 5, layout="ragged", ants="sorted", nt=3))
        other.write_ms(p)
        wk["clobber"] = True
    if w.get("flip_conj"):
        wk["flip_conj"] = True
    if uv.scan_number_array is None:
        uv._set_scan_numbers()  # writing records scan numbers on the object
    fr = Frozen(uv)
    keep = {k: v.copy() for k, v in wk.items() if isinstance(v, np.ndarray)}
    uv.write_ms(p, **wk)
    fr.check(uv, "write_ms")
    for k, v in keep.items():
        require(np.array_equal(wk[k], v), f"write_ms changed {k}")
    # the reader recognizes the opposite convention from the antenna positions
    flip = w.get("flip_conj") and not np.any(np.abs(uv.uvw_array) > 1)
    r = UVData()
    r.read(p, ignore_single_chan=False)
    ctx.step(2)
    m = expected(uv)
    if flip:
        m.c["uvw_array"] = -m.c["uvw_array"]
        m.c["data_array"] = np.conj(m.c["data_array"])
    compare(m.copy(), r, "ms")
    require(r.filename == [os.path.basename(p)], f"filename {r.filename}")
    h = "".join(uv.history.split())
    require(h in "".join(r.history.split()), "history lost")
    for col, key, f in (("MODEL_DATA", "model", lambda d: d * 2 + 1), ("CORRECTED_DATA", "corr", lambda d: d * 4 - 2)):
        if w.get(key):
            m2 = expected(uv)
            base = UVModel(uv)
            base.c["data_array"] = f(uv.data_array)
            for n in base.c:
                setattr(uv, n, base.c[n])
            m2 = expected(uv)
            if flip:
                m2.c["uvw_array"] = -m2.c["uvw_array"]
                m2.c["data_array"] = np.conj(m2.c["data_array"])
            r2 = UVData()
            # autos that are not real are made real on read by default
            r2.read_ms(p, data_column=col, ignore_single_chan=False, fix_autos=False, check_autos=False)
            m2.g["vis_units"] = r2.vis_units
            compare(m2, r2, col, data_col=col)
            uv.data_array = (uv.data_array - (1 if key == "model" else -2)) / (2 if key == "model" else 4)
            ctx.step()
    if not flip:
        # again from the object read
        io.rm(p)
        r.write_ms(p)
        r3 = UVData.from_file(p, ignore_single_chan=False)
        compare(expected(r), r3, "second generation")
        require(np.array_equal(r3.scan_number_array, r.scan_number_array), "scan numbers, second generation")
        ctx.step(2)
    ctx.state(UVModel(r).digest())


def run_pol(case, ctx, p):
    _, kw, po = case
    uv = build(kw)
    uv.write_ms(p)
    r = UVData.from_file(p, pol_order=po)
    ctx.step(2)
    m = expected(uv)
    got = r.polarization_array.tolist()
    require(sorted(got) == sorted(uv.polarization_array.tolist()), f"pols {got}")
    casa = {-5: 9, -7: 10, -8: 11, -6: 12, -1: 5, -3: 6, -4: 7, -2: 8, 1: 1, 2: 2, 3: 3, 4: 4}
    want = sorted(got, key=abs) if po == "AIPS" else sorted(got, key=lambda x: casa[x])
    require(got == want, f"order {po}: {got}")
    ref = m.c["polarization_array"].tolist()
    m = m.take_pol([ref.index(x) for x in got])
    compare(m, r, f"pol_order {po}")
    ctx.state(UVModel(r).digest())


def run_flexpol(case, ctx, p):
    uv = build(case[1])
    uv.convert_to_flex_pol()
    uv._set_scan_numbers()
    fr = Frozen(uv)
    uv.write_ms(p)
    fr.check(uv, "write_ms")
    r = UVData.from_file(p, allow_flex_pol=True, ignore_single_chan=False)
    ctx.step(2)
    m = expected(uv)
    compare(m, r, "flex-pol ms")
    r2 = UVData.from_file(p, ignore_single_chan=False, allow_flex_pol=False)
    for a in range(uv.Nspws):
        s = uv.spw_array[a]
        pol = uv.flex_spw_polarization_array[a]
        ch = np.nonzero(r2.flex_spw_id_array == s)[0]
        ch0 = np.nonzero(uv.flex_spw_id_array == s)[0]
        ip = r2.polarization_array.tolist().index(pol)
        order = sorted(range(uv.Nblts), key=lambda i: (uv.time_array[i], uv.ant_1_array[i], uv.ant_2_array[i]))
        for n in ("data_array", "flag_array", "nsample_array"):
            x = getattr(r2, n)[:, ch, ip]
            y = getattr(uv, n)[order][:, ch0, 0]
            require(np.allclose(x, y), f"flex-pol read without flex-pol: {n} of window {s}")
        others = [q for q in range(r2.Npols) if q != ip]
        require(r2.flag_array[:, ch][:, :, others].all(), "cells not in the file are not flagged")
        require(not r2.data_array[:, ch][:, :, others].any(), "cells not in the file are not zero")
    ctx.state(UVModel(r).digest())


def run_force(case, ctx, p):
    uv = build(case[1])
    ref = uv.copy()
    mask = ref._check_for_cat_type("unprojected")
    ref.phase_to_time(Time(uv.time_array[0], format="jd"), select_mask=mask)
    uv.write_ms(p, force_phase=True)
    r = UVData.from_file(p)
    ctx.step(2)
    m = expected(ref)
    # stored in single precision
    m.c["data_array"] = m.c["data_array"].astype(np.complex64)
    if uv.Nspws > 1:
        m.c["data_array"] = m.c["data_array"].astype(complex)
    compare(m, r, "forced phasing")
    ctx.state(UVModel(r).digest())


def run_bad(case, ctx, p):
    bad = case[1]
    uv = io.build(dict(layout="time", pc=bad if bad != "exists" else "sidA", ants="two"))
    uv._set_scan_numbers()
    fr = Frozen(uv)
    if bad == "exists":
        uv.write_ms(p)
        before = UVData.from_file(p)
        uv.data_array = uv.data_array * 2
        fr = Frozen(uv)
    expect_raises(lambda: uv.write_ms(p), Exception, bad)
    fr.check(uv, bad)
    if bad == "exists":
        after = UVData.from_file(p)
        require(np.array_equal(before.data_array, after.data_array), "existing file changed")
    ctx.outcome(bad)


def run_form(case, ctx, p):
    from casacore import tables

    _, ks, x = case
    kw = [
        dict(layout="time", ants="cross", spw="two", nf=4, pc="multi", pols=(-5, -6, -7, -8), scan=True),
        dict(layout="ragged", ants="conj", spw="one", nf=3, pc="multi", pols=(-5, -6, -7, -8), scan=True),
        dict(layout="bl", ants="three", spw="two_rev", nf=5, pc="sidA", pols=(-8, -6), nt=2),
        dict(layout="shuffle", ants="sorted", spw="overlap", nf=4, pc="multi", pols=(-1, -2, -4, -3)),
    ][x]
    uv = io.build(kw)
    uv.write_ms(p)
    m = UVModel(uv)
    if "nowtspec" in ks:
        pass
    if "nosource" in ks:
        t = tables.table(p, readonly=False, ack=False)
        t.removekeyword("SOURCE")
        t.close()
        io.rm(os.path.join(p, "SOURCE"))
    if "nosid" in ks:
        t = tables.table(p + "/FIELD", readonly=False, ack=False)
        t.putcol("SOURCE_ID", np.full(t.nrows(), -1))
        t.close()
    multi = uv.Nspws > 1
    t = tables.table(p, readonly=False, ack=False)
    multi = uv.Nspws > 1
    gone, drop = None, set()
    if "missing" in ks and multi:
        # the second window has no records for every other baseline-time
        dd = t.getcol("DATA_DESC_ID")
        rows = np.nonzero(dd == 1)[0][::2]
        gone = [(t.getcell("TIME", int(i)), t.getcell("ANTENNA1", int(i)), t.getcell("ANTENNA2", int(i))) for i in rows]
        drop = set(rows.tolist())
    if "tai" in ks:
        info = t.getcolkeyword("TIME", "MEASINFO")
        info["Ref"] = "TAI"
        t.putcolkeyword("TIME", "MEASINFO", info)
        t.putcol("TIME", t.getcol("TIME") + 37.0)
    if "permcorr" in ks:
        tp = tables.table(p + "/POLARIZATION", readonly=False, ack=False)
        ct = tp.getcell("CORR_TYPE", 0)
        perm = list(range(len(ct)))[::-1] if not multi else list(range(len(ct)))
        tp.putcell("CORR_TYPE", 0, ct[perm])
        tp.putcell("CORR_PRODUCT", 0, tp.getcell("CORR_PRODUCT", 0)[perm])
        tp.close()
        for col in ("DATA", "FLAG", "WEIGHT_SPECTRUM"):
            for i in range(t.nrows()):
                t.putcell(col, i, t.getcell(col, i)[:, perm])
        for i in range(t.nrows()):
            t.putcell("WEIGHT", i, t.getcell("WEIGHT", i)[perm])
    wt = None
    if "nowtspec" in ks:
        t.removecols("WEIGHT_SPECTRUM")
        wt = True
    t.close()
    if "stations" in ks:
        ta = tables.table(p + "/ANTENNA", readonly=False, ack=False)
        ta.putcol("STATION", ["PAD" for _ in range(ta.nrows())])
        ta.close()
    order = None
    if "shufrows" in ks or drop:
        t = tables.table(p, ack=False)
        n = t.nrows()
        order = list(range(n))
        if "shufrows" in ks:
            order = [(i * 5 + 2) % n for i in range(n)] if n % 5 else [(i * 7 + 2) % n for i in range(n)]
        order = [i for i in order if i not in drop]
        q = p + "_s"
        t.selectrows(order).copy(q, deep=True).close()
        t.close()
        io.rm(p)
        os.rename(q, p)
    r = UVData.from_file(p, raise_error=True)
    ctx.step(3)
    if wt:
        # one weight per row, window and polarization: the median over channels
        ns = m.c["nsample_array"].copy()
        for s in m.spw:
            ch = np.nonzero(m.c["flex_spw_id_array"] == s)[0]
            ns[:, ch] = np.median(ns[:, ch], axis=1, keepdims=True)
        m.c["nsample_array"] = ns
    if gone is not None:
        s = m.spw[1]
        ch = np.nonzero(m.c["flex_spw_id_array"] == s)[0]
        hit = {(round(a * 10), b, c) for a, b, c in gone}
        tt = Time(m.c["time_array"], format="jd").mjd * 86400.0
        for i in range(len(tt)):
            if (round(tt[i] * 10), m.c["ant_1_array"][i], m.c["ant_2_array"][i]) in hit:
                m.c["data_array"][i, ch] = 0
                m.c["flag_array"][i, ch] = True
                m.c["nsample_array"][i, ch] = r.nsample_array[0, 0, 0] * 0 - 1  # filled below
    for n in m.c:
        setattr(uv, n, m.c[n])
    e = expected(uv)
    if gone is not None:
        bad = e.c["nsample_array"] == -1
        require(r.nsample_array.shape == bad.shape, "shape")
        e.c["nsample_array"][bad] = r.nsample_array[bad]
    if order is not None and not multi:
        e = e.take_blt(order)
    if "nosid" in ks:
        names = [v["cat_name"] for v in r.phase_center_catalog.values()]
        require(names == [v["cat_name"] for v in e.cat.values()], f"fields {names}")
    compare(e, r, f"form {ks}", sid=not ({"nosid", "nosource"} & set(ks)))
    ctx.state(UVModel(r).digest())
