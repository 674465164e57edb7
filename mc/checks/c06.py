"""C06: UVH5 files hold the object: writing and reading back changes nothing."""

import itertools
import os

import h5py
import numpy as np
from pyuvdata import UVData
from pyuvdata.uvdata.uvh5 import _hera_corr_dtype

from mc import io
from mc.core import Violation, require
from mc.model import Frozen, UVModel, compare_uv

ID = "C06"
BOUNDS = (
    "write_uvh5 then read of every object in the product of 5 blt layouts x 7 spectral "
    "window layouts x 7 phase-center kinds, with antenna sets, polarizations, data types, "
    "compressions, chunkings and storage types on covering rotations; every optional "
    "attribute absent and present; every extra keyword type; all legacy header forms "
    "(each optional item missing, old spectral window axis, old phase header); two "
    "generations of write/read. A state is a distinct object read back."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

LAY = ["time", "bl", "ragged", "shuffle", "ragshuf"]
SPW = ["one", "one_desc", "two", "two_eqw", "two_rev", "inter", "overlap"]
PCS = ["unproj", "sidA", "epochs", "drift", "ephem", "multi", "mixed"]
ANTS = ["three", "conj", "cross", "autos", "sorted"]
POLS = [(-5, -6, -7, -8), (-5,), (-8, -5), (1, 2, 3, 4), (-1, -2), (4,)]
COMP = [
    {},
    {"data_compression": "gzip", "chunks": True},
    {"data_compression": "lzf", "flags_compression": None, "nsample_compression": "gzip"},
    {"data_compression": "bitshuffle", "chunks": [2, 2, 1]},
]
DTY = ["complex128", "complex64"]
WRT = [None, "c8", "c16", "int"]
EXTRA = [
    {},
    {"A": "text"},
    {"A": None},
    {"LONGKEYWORDNAME": 3},
    {"F": 2.25, "I": -4, "B": True, "S": ""},
    {"ARR": [1, 2, 3]},
]
OPT = {
    "dut1": 0.25,
    "earth_omega": 360.985,
    "gst0": 12.5,
    "rdate": "2020-10-01",
    "timesys": "UTC",
    "uvplane_reference_time": 5,
    "pol_convention": "avg",
}
LEGACY = [
    "lst_array",
    "blt_order",
    "rectangularity",
    "antenna_diameters",
    "x_orientation",
    "extra_keywords",
    "dut1",
    "flex_spw_id_array",
    "vis_units_upper",
    "oldspw",
    "oldspw_scalarwidth",
    "oldphase",
    "oldphase_drift",
]


def cases(tier):
    out = []
    i = 0
    for lay, spw, pc in itertools.product(LAY, SPW, PCS):
        n = 6 if tier == "quick" else 40
        for r in range(n):
            kw = dict(
                layout=lay,
                spw=spw,
                pc=pc,
                ants=ANTS[(i + r) % 5],
                pols=POLS[(i * 5 + r) % 6],
                dtype=DTY[(i + r) % 2],
                nf=4 if spw != "one" else (4, 1)[(i // 7) % 2],
                nt=(3, 1, 2)[(i + r) % 3],
                eq=bool((i + r) % 2),
                diam=bool((i // 2 + r) % 2),
                x_orient=("east", None, "north")[(i + r) % 3],
                inttime=("const", "bybl", "blt")[(i // 3 + r) % 3],
                extras=bool((i + r) % 3),
                vis_units=("Jy", "uncalib", "K str")[(i // 2 + r) % 3],
                seed=i % 5,
            )
            if spw in ("one", "two") and (i + r) % 3 == 0 and len(kw["pols"]) > 1:
                kw["_flexpol"] = True
                kw["spw"] = "one" if spw == "one" else "two"
            if (i + r) % 4 == 1:
                kw["_order"] = [
                    ["time", "baseline"],
                    ["baseline", "time"],
                    ["ant1", "time"],
                    ["bda", None],
                ][(i // 4) % 4]
            w = dict(COMP[(i + r) % 4])
            dt = WRT[(i // 2 + r) % 4]
            if dt == "int":
                kw["_int"] = True
            out.append(["rt", kw, w, dt])
            i += 1
    base = dict(layout="ragged", pc="multi", ants="conj", spw="two")
    for ex in EXTRA:
        out.append(["rt", dict(base, _set={"extra_keywords": ex}), {}, None])
    for lo in (0, 1, 2):
        for ks in itertools.combinations(OPT, lo):
            out.append(
                ["rt", dict(base, extras=False, _set={k: OPT[k] for k in ks}), {}, None]
            )
            if lo:
                out.append(
                    [
                        "rt",
                        dict(base, extras=True, _set={k: None for k in ks if k != "pol_convention"}),
                        {},
                        None,
                    ]
                )
    for conv in ("multiply", "divide", None):
        out.append(["rt", dict(base, eq=True, _set={"eq_coeffs_convention": conv}), {}, None])
    for nm in ("", "Some Instr", "x" * 60):
        out.append(["rt", dict(base, _tset={"instrument": nm}), {}, None])
    for lg in range(0, 3):
        for ks in itertools.combinations(LEGACY, lg):
            if "oldphase" in ks and "oldphase_drift" in ks:
                continue
            if "oldspw" in ks and "oldspw_scalarwidth" in ks:
                continue
            for lay in ("time", "bl", "ragged"):
                for x in (0, 1):
                    out.append(["legacy", lay, list(ks), x])
    return out


def write(uv, p, w, dt):
    w = dict(w)
    if isinstance(w.get("chunks"), list):
        sh = uv.data_array.shape
        w["chunks"] = tuple(min(a, b) for a, b in zip(w["chunks"], sh))
    if dt == "int":
        dt = _hera_corr_dtype
    uv.write_uvh5(p, data_write_dtype=dt, **w)


def narrow(m, dt):
    if dt in ("c8",):
        m.c["data_array"] = m.c["data_array"].astype(np.complex64)
    elif dt == "c16":
        m.c["data_array"] = m.c["data_array"].astype(np.complex128)
    elif dt == "int":
        m.c["data_array"] = m.c["data_array"].astype(np.complex64)
    m.c["nsample_array"] = m.c["nsample_array"].astype(np.float32)
    return m


def compare(m, uv, src, what):
    m.c["scan_number_array"] = None
    compare_uv(m, uv, what)
    require(
        uv.data_array.dtype == m.c["data_array"].dtype,
        f"{what}: data precision {uv.data_array.dtype} vs {m.c['data_array'].dtype}",
    )
    for k in ("blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"):
        require(
            getattr(uv, k) == getattr(src, k),
            f"{what}: {k} {getattr(src, k)} became {getattr(uv, k)}",
        )
    require(uv.history.startswith(src.history), f"{what}: history lost")
    ks = set(uv.phase_center_catalog)
    require(ks == set(src.phase_center_catalog), f"{what}: catalog ids {ks}")
    from mc.model import pc_canon

    for k in ks:
        a, b = src.phase_center_catalog[k], uv.phase_center_catalog[k]
        require(pc_canon(a) == pc_canon(b), f"{what}: catalog entry {a} != {b}")
        require(
            a.get("info_source") == b.get("info_source"), f"{what}: info_source {a} {b}"
        )


def run(case, ctx):
    if case[0] == "legacy":
        return run_legacy(case, ctx)
    _, kw, w, dt = case
    uv = io.build(kw)
    p = io.path(".uvh5")
    fr = Frozen(uv)
    m = narrow(UVModel(uv), dt)
    try:
        write(uv, p, w, dt)
        fr.check(uv, "write_uvh5")
        r = UVData()
        ro = {}
        if dt == "int":
            ro["data_array_dtype"] = np.complex64
        if kw.get("_flexpol"):
            full = UVData.from_file(p, **ro)
            require(
                full.flex_spw_polarization_array is None, "flex-pol not expanded on read"
            )
            exp = UVData.from_file(p, remove_flex_pol=False, **ro)
            exp.remove_flex_pol()
            io.meta_equal(full, exp, "expanded flex-pol", ("_history",))
            ro["remove_flex_pol"] = False
        r.read(p, **ro)
        ctx.step(2)
        compare(m.copy(), r, uv, "uvh5")
        require(r.filename == [os.path.basename(p)], f"filename {r.filename}")
        meta = UVData()
        meta.read_uvh5(p, read_data=False, **ro)
        require(meta.data_array is None, "read_data=False read data")
        io.meta_equal(
            meta,
            r,
            "read_data=False",
            ("_data_array", "_flag_array", "_nsample_array", "_history"),
        )
        # second generation, in place over the same file
        r.write_uvh5(p, clobber=True)
        r2 = UVData.from_file(p, **ro)
        ctx.step(2)
        compare(m.copy(), r2, r, "uvh5 second generation")
        ctx.state(UVModel(r).digest())
        ctx.trace()
    finally:
        io.rm(p)


def run_legacy(case, ctx):
    _, lay, ks, x = case
    old = "oldphase" in ks or "oldphase_drift" in ks
    kw = dict(
        layout=lay,
        ants="conj",
        spw="one",
        pc="unproj" if "oldphase_drift" in ks else "sidA" if (old or x) else "unproj",
        pols=(-5, -6),
        dtype="complex64",
        inttime="blt",
        x_orient=None if "x_orientation" in ks else "east",
        diam="antenna_diameters" not in ks,
        seed=x,
    )
    if "extra_keywords" in ks:
        kw["extras"] = False
    if x:
        kw["_order"] = ["time", "baseline"] if lay != "bl" else ["baseline", "time"]
    if "vis_units_upper" in ks:
        kw["vis_units"] = "uncalib"
    uv = io.build(kw)
    if "dut1" in ks:
        uv.dut1 = None
    p = io.path(".uvh5")
    try:
        uv.write_uvh5(p)
        with h5py.File(p, "r+") as f:
            h, d = f["Header"], f["Data"]
            for k in ks + (
                ["blts_are_rectangular", "time_axis_faster_than_bls"]
                if "rectangularity" in ks
                else []
            ):
                if k in h:
                    del h[k]
            if "vis_units_upper" in ks:
                del h["vis_units"]
                h["vis_units"] = np.bytes_("UNCALIB")
            if "oldspw" in ks or "oldspw_scalarwidth" in ks:
                for n in ("visdata", "flags", "nsamples"):
                    v = d[n][()]
                    del d[n]
                    d[n] = v[:, np.newaxis]
                v = h["freq_array"][()]
                del h["freq_array"]
                h["freq_array"] = v[np.newaxis]
                v = h["channel_width"][()]
                del h["channel_width"]
                h["channel_width"] = float(v[0])
                if "flex_spw_id_array" in h:
                    del h["flex_spw_id_array"]
            if old:
                cat = uv.phase_center_catalog[uv.phase_center_id_array[0]]
                for n in ("phase_center_catalog", "phase_center_id_array", "Nphase"):
                    del h[n]
                if "oldphase" in ks:
                    h["phase_type"] = np.bytes_("phased")
                    h["object_name"] = np.bytes_(cat["cat_name"])
                    h["phase_center_ra"] = cat["cat_lon"]
                    h["phase_center_dec"] = cat["cat_lat"]
                    h["phase_center_frame"] = np.bytes_(cat["cat_frame"])
                    h["phase_center_epoch"] = cat["cat_epoch"]
                else:
                    h["phase_type"] = np.bytes_("drift")
                    h["object_name"] = np.bytes_(cat["cat_name"])
                    for n in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
                        if n in h:
                            del h[n]
        m = UVModel(uv)
        r = UVData.from_file(p, background_lsts=bool(x))
        ctx.step(2)
        tol = {"lst_array": (0, 1e-9)}
        if old:
            tol.update(
                phase_center_app_ra=(0, 1e-6),
                phase_center_app_dec=(0, 1e-6),
                phase_center_frame_pa=(0, 1e-6),
                uvw_array=(0, 1e-6),
            )
        m.c["scan_number_array"] = None
        compare_uv(m, r, f"legacy {ks}", tol=tol, cat="content")
        ctx.state(UVModel(r).digest())
        ctx.outcome(tuple(ks))
        ctx.trace()
    finally:
        io.rm(p)
