"""C07: UVFITS files hold the object: writing and reading back changes nothing."""

import itertools
import os

import numpy as np
from astropy.coordinates import SkyCoord
from astropy.io import fits
from astropy.time import Time
from pyuvdata import UVData

from mc import io
from mc.core import Violation, expect_raises, require
from mc.model import Frozen, UVModel, compare_uv

ID = "C07"
BOUNDS = (
    "write_uvfits then read of every object in the product of 5 blt layouts x 6 spectral "
    "window layouts x sidereal phase-center sets (one, several, mixed frames, unused "
    "entries), with antenna numberings (small, >255, miriad convention), polarization "
    "sets and orders, both precisions, LSTs stored or not, optional attributes; two "
    "generations; forced phasing; every refused object; every alternative file form the "
    "reader accepts, alone and in pairs (baseline-only, no IF axis, no source table, "
    "no LST, no integration time, SIN/NCP baseline names, absolute antenna positions, "
    "frame keywords). A state is a distinct object read back."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]
C = 299792458.0

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
SPW = ["one", "one_desc", "two", "two_eqw", "two_rev", "overlap"]
PCS = ["sidA", "sidC", "multi", "unused", "epochs"]
ANTS = ["three", "conj", "cross", "autos", "sorted"]
POLS = [(-5, -6, -7, -8), (-8, -5, -7, -6), (-5,), (-7, -8), (1, 2, 3, 4), (3, 1, 2), (-1, -2),
        (-8,), (-5, -7)]
OPT = {
    "dut1": -0.25,
    "earth_omega": 360.5,
    "gst0": 12.5,
    "rdate": "2019-10-01",
    "timesys": "UTC",
    "pol_convention": "sum",
}
FORMS = [
    "bl_only",
    "no_if",
    "no_source",
    "no_lst",
    "no_inttim",
    "sin",
    "ncp",
    "xyz0",
    "noframe",
    "unkframe",
    "timsys",
    "nodiam",
    "phsframe",
    "UNCALIB",
    "noname",
    "radesysa",
    "noradesys",
]


def cases(tier):
    out = []
    i = 0
    for lay, spw, pc in itertools.product(LAY, SPW, PCS):
        for r in range(6 if tier == "quick" else 40):
            kw = dict(
                layout=lay,
                spw=spw,
                pc=pc,
                ants=ANTS[(i + r) % 5],
                pols=POLS[(i * 4 + r) % 9],
                dtype=("complex128", "complex64")[(i + r // 2) % 2],
                nf=4 if spw != "one" else (4, 1)[(i // 7) % 2],
                nt=(3, 1, 2)[(i + r) % 3],
                diam=bool((i // 2 + r) % 2),
                x_orient=("east", None, "north")[(i + r) % 3],
                inttime=("const", "bybl", "blt")[(i // 3 + r) % 3],
                extras=bool((i + r) % 3),
                vis_units=("Jy", "uncalib", "K str")[(i // 2 + r) % 3],
                seed=i % 5,
            )
            off = (0, 1, 260, 2000)[(i // 2 + r) % 4]
            if off:
                kw["_antoff"] = off
            if (i + r) % 4 == 1:
                kw["_order"] = [
                    ["time", "baseline"],
                    ["baseline", "time"],
                    ["ant1", "time"],
                    ["bda", None],
                ][(i // 4) % 4]
            w = {"write_lst": bool((i + r) % 3)}
            if (i // 3 + r) % 3 == 0:
                w["use_miriad_convention"] = True
            out.append(["rt", kw, w])
            i += 1
    base = dict(layout="ragged", pc="multi", ants="conj", pols=(-5, -6))
    for n in (0, 1, 2):
        for ks in itertools.combinations(OPT, n):
            out.append(["rt", dict(base, extras=False, _set={k: OPT[k] for k in ks}), {}])
    for ex in [{}, {"A": "text"}, {"LONGKEYNAME": 4}, {"f": 2.5, "I": -3, "B": True},
               {"COMMENT": "one line"}, {"lower": "x"}]:
        out.append(["rt", dict(base, _set={"extra_keywords": ex}), {}])
    for pc in ("unproj", "drift", "ephem", "mixed"):
        for lay in LAY:
            out.append(["force", dict(base, pc=pc, layout=lay, _geo=True)])
    for bad in ("uneven", "gap", "sizes", "pols", "timesys", "inter", "unproj", "kwlist", "kwdict"):
        out.append(["bad", bad])
    for n in (0, 1, 2):
        for ks in itertools.combinations(FORMS, n):
            if {"sin", "ncp"} <= set(ks) or {"noframe", "unkframe"} <= set(ks):
                continue
            if len({"phsframe", "radesysa", "noradesys"} & set(ks)) > 1:
                continue
            for x in (0, 1, 2, 3):
                out.append(["form", list(ks), x])
    return out


def spw_relabel(m):
    """UVFITS numbers windows 0.. along the axis; no flexible polarization."""
    ids = m.c["flex_spw_id_array"]
    order = list(dict.fromkeys(ids.tolist()))
    m.c["flex_spw_id_array"] = np.array([order.index(s) for s in ids])
    m.spw = np.arange(len(order))
    return m


def sky(e):
    kw = {}
    if e["cat_frame"] in ("fk5", "fk4"):
        kw["equinox"] = Time(e["cat_epoch"], format="byear" if e["cat_frame"] == "fk4" else "jyear")
    return SkyCoord(e["cat_lon"], e["cat_lat"], unit="rad", frame=e["cat_frame"], **kw).icrs


def cmp_pcs(m, r, what):
    """Each row points at the same named sky position."""
    a = [m.cat[i] for i in m.c["phase_center_id_array"]]
    b = [r.phase_center_catalog[i] for i in r.phase_center_id_array]
    cache = {}
    for k, (x, y) in enumerate(zip(a, b)):
        if x["cat_name"][:20] != y["cat_name"]:
            raise Violation(f"{what}: source of row {k} {x['cat_name']} != {y['cat_name']}")
        key = (x["cat_name"], id(y))
        if key not in cache:
            require(y["cat_type"] == "sidereal", f"{what}: cat_type {y}")
            d = sky(x).separation(sky(y)).rad
            require(d < 1e-9, f"{what}: sky position of {x} moved by {d}: {y}")
            cache[key] = 1
    na = {e["cat_name"] for e in m.cat.values()}
    nb = {e["cat_name"] for e in r.phase_center_catalog.values()}
    return na, nb


def expected(uv, w):
    m = UVModel(uv)
    if w.get("use_miriad_convention") and min(m.ant["antenna_numbers"]) == 0:
        m.ant["antenna_numbers"] = np.asarray(m.ant["antenna_numbers"]) + 1
        m.c["ant_1_array"] = m.c["ant_1_array"] + 1
        m.c["ant_2_array"] = m.c["ant_2_array"] + 1
    p = m.c["polarization_array"]
    m = m.take_pol(np.argsort(np.abs(p), kind="stable"))
    m = spw_relabel(m)
    m.c["scan_number_array"] = None
    m.c["eq_coeffs"] = None
    m.g["eq_coeffs_convention"] = None
    ex = {}
    for k, v in m.g["extra_keywords"].items():
        ex[k[:8].upper()] = v
    m.g["extra_keywords"] = ex
    # baseline numbers depend only on the antenna numbers: derived independently
    m.c["baseline_array"] = None
    return m


def blnum(r):
    a1, a2 = r.ant_1_array.astype(np.int64), r.ant_2_array.astype(np.int64)
    if max(a1.max(), a2.max()) >= 2048:
        return 2147483648 * a1 + a2 + 2**16 + 2**22
    return 2048 * a1 + a2 + 2**16


def tols(uv):
    single = uv.data_array.dtype == np.complex64
    return {
        "uvw_array": (0, 1e-5 if single else 1e-8),
        "time_array": (0, 2e-9 if single else 1e-9),
        "lst_array": (0, 2e-8 if single else 1e-9),
        "phase_center_app_ra": (0, 1e-7),
        "phase_center_app_dec": (0, 1e-7),
        "phase_center_frame_pa": (0, 1e-6),
        "integration_time": (2e-7, 0),
        "freq_array": (1e-12, 0.05),
        "channel_width": (1e-7, 0),
        "antenna_positions": (0, 1e-6),
        "antenna_diameters": (1e-7, 0),
        "nsample_array": (1e-6, 0),
    }


def compare(m, r, uv, what, skip=()):
    cmp_pcs(m, r, what)
    for k in ("dut1", "earth_omega", "gst0", "rdate", "timesys"):
        if m.g[k] is None:
            m.g[k] = getattr(r, k)
            if k == "rdate":
                d = Time(uv.time_array[0], format="jd").iso[:10]
                require(r.rdate == d, f"{what}: rdate {r.rdate} is not {d}")
            elif k == "timesys":
                require(r.timesys == "UTC", "timesys")
            elif k == "earth_omega":
                require(abs(r.earth_omega - 360.98565) < 1e-4, "earth_omega")
            elif k == "dut1":
                require(abs(r.dut1) < 1, "dut1")
            else:
                t = Time(Time(uv.time_array[0], format="jd").iso[:10])
                g = t.sidereal_time("apparent", "greenwich").deg
                require(abs(g - r.gst0) < 1e-3, f"{what}: gst0 {r.gst0} vs {g}")
    compare_uv(m, r, what, tol=tols(uv), cat=None, skip=("baseline_array", "phase_center_frame_pa") + tuple(skip), counts=False)
    # the position angle is an angle: compare on the circle
    d = m.c["phase_center_frame_pa"] - r.phase_center_frame_pa
    if "phase_center_frame_pa" not in skip:
        require(
            np.all(np.abs(np.angle(np.exp(1j * d))) < 1e-5), f"{what}: frame pa differs"
        )
    require(np.array_equal(r.baseline_array, blnum(r)), f"{what}: baseline numbers")
    c = m.counts
    for k, v in (
        ("Nblts", len(m.c["time_array"])),
        ("Ntimes", len(set(m.c["time_array"].tolist()))),
        ("Nbls", len({*zip(m.c["ant_1_array"].tolist(), m.c["ant_2_array"].tolist())})),
        ("Nfreqs", len(m.c["freq_array"])),
        ("Npols", len(m.c["polarization_array"])),
        ("Nspws", len(m.spw)),
    ):
        require(getattr(r, k) == v, f"{what}: {k} is {getattr(r, k)} not {v}")
    require(
        r.data_array.dtype == uv.data_array.dtype,
        f"{what}: precision changed to {r.data_array.dtype}",
    )
    require(r.flag_array.dtype == bool, "flag dtype")
    bo = getattr(uv, "blt_order")
    require(r.blt_order == bo, f"{what}: blt_order {bo} became {r.blt_order}")
    h = "".join(uv.history.split())
    require("".join(r.history.split()).startswith(h), f"{what}: history lost")


def run(case, ctx):
    kind = case[0]
    p = io.path(".uvfits")
    try:
        globals()["run_" + kind](case, ctx, p)
        ctx.trace()
    finally:
        io.rm(p)


def run_rt(case, ctx, p):
    _, kw, w = case
    uv = io.build(kw)
    fr = Frozen(uv)
    uv.write_uvfits(p, **w)
    fr.check(uv, "write_uvfits")
    m = expected(uv, w)
    r = UVData()
    r.read(p)
    ctx.step(2)
    compare(m.copy(), r, uv, "uvfits")
    require(r.filename == [os.path.basename(p)], f"filename {r.filename}")
    na = {e["cat_name"] for e in uv.phase_center_catalog.values()}
    nb = {e["cat_name"] for e in r.phase_center_catalog.values()}
    require(na == nb, f"catalog {na} became {nb}")
    meta = UVData()
    meta.read_uvfits(p, read_data=False)
    require(meta.data_array is None, "read_data=False read data")
    io.meta_equal(
        meta, r, "read_data=False", ("_data_array", "_flag_array", "_nsample_array")
    )
    io.rm(p)
    r.write_uvfits(p)
    r2 = UVData.from_file(p)
    ctx.step(2)
    m2 = m.copy()
    m2.c["integration_time"] = m2.c["integration_time"]
    compare(m2, r2, r, "second generation")
    ctx.state(UVModel(r).digest())


def run_force(case, ctx, p):
    _, kw = case
    uv = io.build(kw)
    ref = uv.copy()
    ref.phase_to_time(Time(uv.time_array[0], format="jd"))
    uv.write_uvfits(p, force_phase=True)
    r = UVData.from_file(p)
    ctx.step(2)
    m = expected(ref, {})
    compare(m, r, ref, "forced phasing")
    ctx.state(UVModel(r).digest())


def run_bad(case, ctx, p):
    bad = case[1]
    kw = dict(layout="time", pc="sidA", ants="two", pols=(-5, -6, -7))
    if bad == "sizes":
        kw["spw"], kw["nf"] = "two", 5
    if bad == "inter":
        kw["spw"] = "inter"
    if bad == "unproj":
        kw["pc"] = "unproj"
    uv = io.build(kw)
    if bad == "uneven":
        uv.freq_array[-1] += 3e4
    if bad == "gap":
        uv.channel_width = uv.channel_width / 2
    if bad == "pols":
        uv.select(polarizations=[-5, -6])
        uv.polarization_array = np.array([-5, -8])
        uv2 = io.build(dict(kw, pols=(-5, -6, -8)))
        uv = uv2
    if bad == "timesys":
        uv.timesys = "IAT"
    if bad == "kwlist":
        uv.extra_keywords = {"A": [1, 2]}
    if bad == "kwdict":
        uv.extra_keywords = {"A": {"b": 1}}
    fr = Frozen(uv)
    try:
        uv.write_uvfits(p)
    except Exception as e:
        ctx.outcome((bad, type(e).__name__))
    else:
        raise Violation(f"write of an object the format cannot hold succeeded: {bad}")
    ctx.step()
    fr.check(uv, f"refused write ({bad})")
    require(not os.path.exists(p), "refused write left a file")
    ctx.state(bad)


def rewrite(p, ks, uv):
    """Independent re-encoding of a file into another form."""
    with fits.open(p) as h:
        prim = h[0]
        hd = prim.header.copy()
        raw = prim.data
        names = list(raw.parnames)
        ncol = [raw.field(i) for i in range(len(names))]  # unscaled + zero? see below
        data = raw.data.copy()
        others = {x.name: x.copy() for x in h[1:]}
        cols = []
        for i, n in enumerate(names):
            z = hd.get(f"PZERO{i + 1}", 0.0)
            cols.append(np.asarray(ncol[i], float) - 0.0)
            del z
    an, su = others["AIPS AN"], others["AIPS SU"]
    par = []  # (name, values, pzero)
    zero = np.floor(uv.time_array[0] - 0.5) + 0.5
    for i, n in enumerate(names):
        par.append([n, cols[i], 0.0])
    one = [q for q in par if q[0] == "DATE"]
    tt = uv.time_array - zero
    first = True
    for q in list(par):
        if q[0] == "DATE":
            if first:
                q[1], q[2] = tt, zero
                first = False
            else:
                par.remove(q)
    firstl = True
    for q in list(par):
        if q[0] == "LST":
            if firstl:
                q[1] = np.rad2deg(uv.lst_array)
                firstl = False
            else:
                par.remove(q)
    drop = set()
    if "bl_only" in ks:
        drop |= {"ANTENNA1", "ANTENNA2"}
    if "no_source" in ks:
        drop |= {"SOURCE"}
        others.pop("AIPS SU")
    if "no_lst" in ks:
        drop |= {"LST"}
    if "no_inttim" in ks:
        drop |= {"INTTIM"}
    par = [q for q in par if q[0] not in drop]
    if "sin" in ks or "ncp" in ks:
        sfx = "---SIN" if "sin" in ks else "---NCP"
        for q in par:
            if q[0] in ("UU", "VV", "WW"):
                q[0] = q[0] + sfx
        if "ncp" in ks:
            dec = uv.phase_center_app_dec
            v, w = [next(q for q in par if q[0] == n + sfx) for n in ("VV", "WW")]
            # v = sin(d) v' + cos(d) w';  w = -cos(d) v' + sin(d) w'  (inverse here)
            vv, ww = v[1].copy(), w[1].copy()
            v[1] = np.sin(dec) * vv - np.cos(dec) * ww
            w[1] = np.cos(dec) * vv + np.sin(dec) * ww
    if "no_if" in ks and data.ndim == 7:
        data = data[:, :, :, 0]
    gd = fits.GroupData(
        data,
        parnames=[q[0] for q in par],
        pardata=[q[1] for q in par],
        bitpix=-64,
    )
    hdu = fits.GroupsHDU(gd)
    for i, q in enumerate(par):
        hdu.header[f"PSCAL{i + 1}"] = 1.0
        hdu.header[f"PZERO{i + 1}"] = q[2]
    skipk = ("SIMPLE", "BITPIX", "NAXIS", "GROUPS", "PCOUNT", "GCOUNT", "PTYPE", "PSCAL", "PZERO", "EXTEND")
    for card in hd.cards:
        if card.keyword.startswith(skipk):
            continue
        if card.keyword == "HISTORY":
            hdu.header.add_history(card.value)
            continue
        k = card.keyword
        if "no_if" in ks and k[-1:].isdigit() and k[:-1] in ("CTYPE", "CRVAL", "CRPIX", "CDELT"):
            n = int(k[-1])
            if n == 5:
                continue
            if n > 5:
                k = k[:-1] + str(n - 1)
        hdu.header[k] = card.value
    if "phsframe" in ks:
        hdu.header["PHSFRAME"] = hdu.header.pop("RADESYS")
    if "radesysa" in ks:
        hdu.header["RADESYSA"] = hdu.header.pop("RADESYS")
    if "noradesys" in ks:
        hdu.header.pop("RADESYS")
    if "UNCALIB" in ks:
        hdu.header["BUNIT"] = "UNCALIB"
    if "noname" in ks:
        hdu.header.pop("TELESCOP")
    if "xyz0" in ks:
        xyz = uv.telescope.antenna_positions + uv.telescope._location.xyz()
        an.data["STABXYZ"][:] = xyz
        for k in "XYZ":
            an.header["ARRAY" + k] = 0.0
    if "noframe" in ks:
        del an.header["FRAME"]
    if "unkframe" in ks:
        an.header["FRAME"] = "????"
    if "timsys" in ks:
        v = an.header.pop("TIMESYS")
        an.header["TIMSYS"] = v
    if "nodiam" in ks and "DIAMETER" in an.columns.names:
        cols = fits.ColDefs([c for c in an.columns if c.name != "DIAMETER"])
        h0 = an.header
        new = fits.BinTableHDU.from_columns(cols)
        for k in h0:
            if k not in new.header and not k.startswith(("TTYPE", "TFORM", "TUNIT")):
                new.header[k] = h0[k]
        others["AIPS AN"] = new
        new.header["EXTNAME"] = "AIPS AN"
    os.remove(p)
    fits.HDUList([hdu] + list(others.values())).writeto(p)


def run_form(case, ctx, p):
    _, ks, x = case
    single_src = "no_source" in ks
    kw = dict(
        layout=("time", "ragged", "bl", "shuffle")[x],
        ants=("conj", "cross", "sorted", "three")[x],
        pc=("sidA" if x % 2 else "sidB") if single_src or "noradesys" in ks else "multi",
        spw="two" if x in (1, 2) and "no_if" not in ks else "one_desc" if x == 3 else "one",
        pols=((-5, -6), (-5, -6, -7, -8), (-1, -2), (-6,))[x],
        inttime="const" if "no_inttim" in ks else "blt",
        nt=3,
        _geo=True,
        seed=x,
        vis_units="uncalib" if "UNCALIB" in ks else "Jy",
        dtype="complex128",
    )
    if "noradesys" in ks:
        kw["pc"] = "sidB"  # only fk5 can be guessed from the epoch
    if "bl_only" not in ks and x == 1:
        kw["_antoff"] = 300
    uv = io.build(kw)
    uv.write_uvfits(p)
    rewrite(p, ks, uv)
    r = UVData()
    r.read_uvfits(p, background_lsts=bool(x % 2))
    ctx.step(2)
    m = expected(uv, {})
    skip = []
    if "nodiam" in ks:
        m.ant["antenna_diameters"] = None
    if "xyz0" in ks:
        # the array center becomes the mean antenna position
        pos = np.asarray(m.ant["antenna_positions"])
        ctr = pos.mean(axis=0)
        m.ant["antenna_positions"] = pos - ctr
        m.tel["loc"] = tuple(np.array(m.tel["loc"]) + ctr)
        if "unkframe" in ks:
            m.tel["loc"] = UVModel(uv).tel["loc"]
        skip += ["lst_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"]
        if "lst_array" in skip and "no_lst" not in ks:
            skip.remove("lst_array")
    if "no_inttim" in ks:
        # derived from the time stamps, which resolve about 0.04 ms
        require(np.allclose(r.integration_time, 10.0, rtol=0, atol=1e-3), "inttim")
        skip.append("integration_time")
    compare(m, r, uv, f"file form {ks}", skip)
    ctx.state(UVModel(r).digest())
    ctx.outcome(tuple(ks))
