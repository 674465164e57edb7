"""C30: what is on disk is always the last successful write; failed writes raise, harm nothing in memory, and can be redone."""

import gc
import itertools
import os

import numpy as np
from pyuvdata import UVBeam, UVCal, UVData, UVFlag

from mc import beam, cal, flag, io
from mc.core import Violation, require
from mc.model import Frozen, _eqimg, freeze

ID = "C30"
BOUNDS = (
    "10 writers (UVH5, UVH5 file made empty for parts, Miriad, measurement set, UVFITS, CalH5, calfits, CASA calibration table, flag HDF5, beam FITS) x every sequence of 3 (two writers: 4; thorough: all 4) operations from "
    "{write one of two objects, with or without clobbering; write a refused object with or without clobbering; read into a new or a used object} on one path; and an I/O error injected at every single "
    "call each writer makes into its I/O library (up to 400 points per writer and object), followed by writing again, and likewise at every call each reader makes, followed by reading again and replacing the file. A state is (what the path holds, what the operation did)."
)
ASSUMPTIONS = ["an existing file is not promised to survive when a write with clobbering fails part way", "UVFITS files are always overwritten, as there is no clobber option"]


class Boom(OSError):
    pass


def vis(n):
    kw = dict(pc="multi", ants="sorted", pols=(-5, -6) if n else (-5,), layout="ragged" if n else "bl", nf=4 if n else 3, nt=3 if n else 2, extras=bool(n), diam=bool(n))
    uv = io.build(kw)
    if not n:
        uv.vis_units = "uncalib"
        uv.extra_keywords = {}
    uv.scan_number_array = np.ones(uv.Nblts, dtype=int) + (uv.phase_center_id_array > 0)
    return uv


def vis_fits(n):
    uv = io.build(dict(pc="multi" if n else "sidA", ants="sorted", pols=(-5, -6) if n else (-5,), layout="time", nf=4 if n else 3, nt=3 if n else 2, extras=bool(n), diam=bool(n), _antoff=1))
    return uv


def calo(n):
    c = cal.build(dict(kind="gain", jones=(-5, -6) if n else (-5,), quality=bool(n), tq=bool(n), extras=bool(n), nt=3 if n else 2))
    c.integration_time = np.full(c.Ntimes, 10.0)
    return c


def calms(n):
    c = cal.build(dict(kind="gain", jones=(-5, -6) if n else (-5,), nt=3 if n else 2, pc=True))
    c.gain_convention = "divide"
    return c


FM = {
    "uvh5": (UVData, vis, "write_uvh5", ".uvh5", True),
    "init": (UVData, vis, "initialize_uvh5_file", ".uvh5", True),
    "miriad": (UVData, vis, "write_miriad", ".mir", True),
    "ms": (UVData, vis, "write_ms", ".ms", True),
    "uvfits": (UVData, vis_fits, "write_uvfits", ".uvfits", False),
    "calh5": (UVCal, calo, "write_calh5", ".calh5", True),
    "calfits": (UVCal, calo, "write_calfits", ".calfits", True),
    "mscal": (UVCal, calms, "write_ms_cal", ".ms", True),
    "flag": (UVFlag, lambda n: flag.make(("bt", "at")[n], ("flag", "metric")[n]), "write", ".h5", True),
    "beam": (UVBeam, lambda n: beam.make(("ae", "hw")[n]), "write_beamfits", ".fits", True),
}
BAD = {
    "uvh5": ["meta", "check"], "init": ["check0"], "miriad": ["meta", "check", "unsup"], "ms": ["meta", "check", "unsup"], "uvfits": ["meta", "check", "unsup"],
    "calh5": ["meta", "check"], "calfits": ["meta", "check", "unsup"], "mscal": ["meta", "unsup"], "flag": ["none"], "beam": ["check", "unsup"],
}
_c = {}


def obj(fmt, n):
    if (fmt, n) not in _c:
        _c[fmt, n] = FM[fmt][1](n)
    return _c[fmt, n].copy()


def badobj(fmt, how):
    o = obj(fmt, 1)
    if how == "meta":
        return o.copy(metadata_only=True)
    if how == "check":
        if fmt == "beam":
            o.freq_array = o.freq_array[:-1]
        elif FM[fmt][0] is UVCal:
            o.flag_array = o.flag_array[:-1]
        else:
            o.uvw_array = o.uvw_array[:-1]
        return o
    if how == "unsup":
        if fmt in ("miriad", "uvfits", "calfits"):
            o.freq_array[2:] = o.freq_array[2:] + 1e6
        elif fmt == "ms":
            from lunarsky import MoonLocation

            o.telescope.location = MoonLocation.from_selenodetic(0.6, 0.4, 10.0)
            o.phase_center_catalog[list(o.phase_center_catalog)[0]]["cat_frame"] = "fk9"
        elif fmt == "mscal":
            o.gain_convention = "multiply"
        else:
            o.freq_array = o.freq_array.copy()
            o.freq_array[-1] += 5e5
        return o
    return None


OPS = ["wA", "wB", "cA", "cB", "xw", "xc", "rn", "ru"]


def cases(tier):
    out = []
    for fmt in FM:
        for a in OPS:
            for b in OPS:
                out.append(["seq", fmt, [a, b], 4 if fmt in ("flag", "beam") or tier != "quick" else 3])
        for n in (0, 1):
            for s in range(8):
                out.append(["fault", fmt, n, s])
                out.append(["rfault", fmt, n, s])
    return out


def write(fmt, o, p, clobber=None):
    m = getattr(o, FM[fmt][2])
    if clobber is None or not FM[fmt][4]:
        return m(p)
    return m(p, clobber=clobber)


def read(fmt, p, into=None):
    r = into if into is not None else FM[fmt][0]()
    if fmt == "init":
        r.read(p, read_data=False)
        return r
    getattr(r, {"beam": "read_beamfits"}.get(fmt, "read"))(p)
    return r


def image(fmt, o):
    im = freeze(o)
    im.pop("_filename", None)
    if fmt in ("ms", "mscal"):
        im.pop("_history", None)
    return im


_ref = {}


def ref(fmt, n):
    """What reading back the object alone gives."""
    if (fmt, n) not in _ref:
        p = io.path("ref" + FM[fmt][3])
        write(fmt, obj(fmt, n), p)
        _ref[fmt, n] = image(fmt, read(fmt, p))
        io.rm(p)
    return _ref[fmt, n]


def same(fmt, n, o, what):
    im, rf = image(fmt, o), ref(fmt, n)
    require(set(im) == set(rf), f"{what}: attributes differ")
    for k in rf:
        require(_eqimg(im[k], rf[k]), f"{what}: {k} is not that of the object last written")


def stamp(p):
    """The bytes on disk."""
    if not os.path.exists(p):
        return None
    if os.path.isfile(p):
        return open(p, "rb").read()
    return {os.path.relpath(os.path.join(d, f), p): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(p) for f in fs if f != "table.lock"}


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def run_seq(case, ctx):
    _, fmt, pre, depth = case
    # every shorter sequence is the beginning of one of these
    for rest in itertools.product(OPS, repeat=depth - 2):
        seq(fmt, list(pre) + list(rest), ctx)


def seq(fmt, ops, ctx):
    p = io.path(FM[fmt][3])
    held = None
    used = FM[fmt][0]()
    try:
        for i, op in enumerate(ops):
            what = f"{fmt} {'-'.join(ops[:i + 1])}"
            ctx.step()
            if op[0] in "wc":
                n = "AB".index(op[1])
                o = obj(fmt, n)
                fr = Frozen(o)
                may = held is None or op[0] == "c" or not FM[fmt][4]
                before = None if may else stamp(p)
                try:
                    write(fmt, o, p, op[0] == "c" or None)
                    ok = True
                except (OSError, ValueError) as e:
                    ok = False
                    require(not may, f"{what}: refused: {e}")
                require(ok == may, f"{what}: an existing file was replaced without clobber")
                fr.check(o, what)
                if ok:
                    held = n
                else:
                    require(stamp(p) == before, f"{what}: refused write changed the file")
            elif op[0] == "x":
                for how in BAD[fmt]:
                    o = badobj(fmt, how)
                    if o is None or how == "check0":
                        continue
                    if op == "xw" and held is None and how == "unsup":
                        continue
                    fr = Frozen(o)
                    before = stamp(p)
                    keep = how != "unsup" or op == "xw"
                    try:
                        write(fmt, o, p, op == "xc" or None)
                        raise Violation(f"{what}: {how} object was written")
                    except Violation:
                        raise
                    except Exception:
                        pass
                    fr.check(o, f"{what} {how}")
                    if keep and (FM[fmt][4] or how != "unsup"):
                        require(stamp(p) == before, f"{what}: refused {how} object changed the file")
                    elif stamp(p) != before:
                        # part way through: the path holds nothing usable
                        io.rm(p)
                        held = None
            elif held is None:
                if os.path.exists(p):
                    raise Violation(f"{what}: path exists")
                continue
            else:
                before = stamp(p)
                if op == "rn":
                    r = read(fmt, p)
                else:
                    r = read(fmt, p, used)
                same(fmt, held, r, what)
                require(stamp(p) == before, f"{what}: reading changed the file")
            ctx.state(f"{fmt} {held} {op}")
        if held is not None:
            same(fmt, held, read(fmt, p), f"{fmt} {'-'.join(ops)} end")
        else:
            require(not os.path.exists(p), f"{fmt} {'-'.join(ops)}: left a file")
        ctx.trace()
    finally:
        io.rm(p)


# ---------------------------------------------------------------- faults


class Faults:
    """Raise an I/O error at the k-th call into the I/O libraries."""

    def __init__(self, k, mode="w"):
        self.k, self.n, self.log, self.mode = k, 0, [], mode

    def wrap(self, owner, name):
        orig = getattr(owner, name)

        def f(*a, **kw):
            self.n += 1
            if self.n == self.k:
                self.log.append(name)
                raise Boom(f"injected in {name}")
            return orig(*a, **kw)

        self.undo.append((owner, name, orig))
        setattr(owner, name, f)

    def __enter__(self):
        import casacore.tables as ct
        import h5py
        from astropy.io import fits

        from pyuvdata.uvdata import aipy_extracts

        self.undo = []
        for o, ns in (
            (h5py.Group, ("__getitem__", "__contains__")),
            (h5py.Dataset, ("__getitem__", "read_direct")),
            (h5py.File, ("__init__",)),
            (fits, ("open",)),
            (fits.HDUList, ("__getitem__",)),
            (ct.table, ("getcol", "getcell", "getkeyword", "getkeywords", "colnames", "nrows", "getcoldesc", "iscelldefined")),
            (aipy_extracts.UV, ("__getitem__", "all_data", "select", "variables")),
        ) if self.mode == "r" else (
            (h5py.Group, ("create_dataset", "create_group", "__setitem__")),
            (h5py.Dataset, ("__setitem__",)),
            (h5py.File, ("__init__",)),
            (fits, ("Column", "HDUList", "ImageHDU", "PrimaryHDU")),
            (fits.HDUList, ("writeto",)),
            (fits.BinTableHDU, ("from_columns",)),
            (ct.table, ("putcol", "putcell", "putkeyword", "putcolkeyword", "addrows", "flush", "done", "putcolkeywords", "putinfo")),
            (aipy_extracts.UV, ("__setitem__", "add_var", "write", "_wrhd")),
        ):
            for n in ns:
                if hasattr(o, n):
                    self.wrap(o, n)
        return self

    def __exit__(self, *a):
        for o, n, f in reversed(self.undo):
            setattr(o, n, f)


_tot = {}


def run_rfault(case, ctx):
    """The same for reading: the error comes out, the file stays, and reading again works."""
    _, fmt, n, shard = case
    p = io.path(FM[fmt][3])
    write(fmt, obj(fmt, n), p)
    st = stamp(p)
    try:
        with Faults(-1, "r") as ft:
            read(fmt, p)
        tot = ft.n
        require(tot > 0, "case: no I/O calls seen")
        pts = list(range(1, tot + 1))
        if len(pts) > 400:
            pts = pts[:300] + pts[-100:]
        for k in pts[shard::8]:
            what = f"{fmt} read with an I/O error at call {k} of {tot}"
            r = FM[fmt][0]()
            try:
                with Faults(k, "r") as ft:
                    read(fmt, p, r)
                raise Violation(f"{what} ({ft.log}): reported success")
            except Violation:
                raise
            except Exception as e:
                y = e
                while y is not None and not isinstance(y, Boom):
                    y = y.__cause__ or y.__context__
                require(y is not None, f"{what}: raised {e!r}")
                what += f" ({y})"
                y = None
            gc.collect()
            ctx.step()
            require(stamp(p) == st, f"{what}: the file changed")
            same(fmt, n, read(fmt, p, r), what + ", read again into the object")
            if k % 8 == shard:
                # nothing holds the file open
                write(fmt, obj(fmt, 1 - n), p, True)
                same(fmt, 1 - n, read(fmt, p), what + ", replaced")
                io.rm(p)
                write(fmt, obj(fmt, n), p)
                st = stamp(p)
            ctx.trace()
            ctx.state(f"{fmt} {n} r {k}")
    finally:
        io.rm(p)
    ctx.outcome(f"{fmt} r {tot}")


def run_fault(case, ctx):
    _, fmt, n, shard = case
    if (fmt, n) not in _tot:
        p = io.path(FM[fmt][3])
        with Faults(-1) as ft:
            write(fmt, obj(fmt, n), p)
        _tot[fmt, n] = ft.n
        io.rm(p)
    tot = _tot[fmt, n]
    require(tot > 0, "case: no I/O calls seen")
    pts = list(range(1, tot + 1))
    if len(pts) > 400:
        pts = pts[:300] + pts[-100:]
    for k in pts[shard::8]:
        p = io.path(FM[fmt][3])
        try:
            o = obj(fmt, n)
            fr = Frozen(o)
            what = f"{fmt} with an I/O error at call {k} of {tot}"
            try:
                with Faults(k) as ft:
                    write(fmt, o, p)
                raise Violation(f"{what} ({ft.log}): reported success")
            except Violation:
                raise
            except Exception as e:
                y = e
                while y is not None and not isinstance(y, Boom):
                    y = y.__cause__ or y.__context__
                require(y is not None, f"{what}: raised {e!r}")
                what += f" ({y})"
                y = None
            fr.check(o, what)
            gc.collect()  # open tables and files
            ctx.step()
            # the caller tries again
            write(fmt, o, p, True)
            same(fmt, n, read(fmt, p), what + ", written again")
            ctx.trace()
            ctx.state(f"{fmt} {n} {k}")
        finally:
            io.rm(p)
    ctx.outcome(f"{fmt} {tot}")
