"""C11: building a UVH5 file piece by piece gives exactly the pieces written."""

import itertools
import os
import shutil

import h5py
import numpy as np
from pyuvdata import UVData
from pyuvdata.uvdata.uvh5 import _hera_corr_dtype

from mc import io, sel
from mc.core import Violation, require
from mc.model import Frozen, UVModel

ID = "C11"
BOUNDS = (
    "initialize_uvh5_file then write_uvh5_part: every (rows x channels x polarizations) "
    "subset triple of a 6x4x3 object as a single part (regular and irregular spacings, "
    "float and integer storage, chunked and compressed); every ordering of every "
    "partition into 2-3 parts along each axis with the file compared after every prefix "
    "(a stop between any two parts), overlapping parts (last write wins), parts named by "
    "every selection criterion; every refused part (wrong shape, wrong header, missing "
    "file) leaves file and object unchanged."
)
ASSUMPTIONS = ["a stop inside one HDF5 library call is not explored"]

KW = dict(ants="two", nt=3, nf=4, pols=(-5, -6, -7), layout="time", _int=True)
KW2 = dict(ants="conj", nt=2, nf=4, pols=(-5, -7, -8), layout="ragged", spw="two",
           pc="multi", _int=True)
DT = [None, "c8", "c16", "int"]


def cases(tier):
    out = []
    for i, (b, f, p) in enumerate(
        itertools.product(
            list(sel.subsets(range(6))),
            list(sel.subsets(range(4))),
            list(sel.subsets(range(3))),
        )
    ):
        if tier == "quick" and i % 2 and not (len(b) in (2, 3) and len(f) < 4):
            continue
        dts = [DT[i % 4]] if tier == "quick" else DT
        for dt in dts:
            out.append(["one", b, f, p, dt, i % 3])
    # partitions, all orders, every prefix
    for axis, n in (("b", 6), ("f", 4), ("p", 3)):
        for parts in parts_of(n, 3):
            if tier == "quick" and axis == "b" and len(parts) == 3:
                if hash_(parts) % 5:
                    continue
            for k, perm in enumerate(itertools.permutations(range(len(parts)))):
                out.append(["seq", axis, [parts[j] for j in perm], DT[k % 4]])
    # overlapping writes
    for axis, n in (("f", 4), ("p", 3)):
        subs = list(sel.subsets(range(n)))
        for a, b in itertools.product(subs, subs):
            if set(a) & set(b):
                out.append(["seq", axis, [a, b], None])
    for c in CRIT:
        for dt in DT:
            out.append(["crit", c, dt])
    for bad in BAD:
        for chk in (True, False):
            out.append(["bad", bad, chk])
    return out


def hash_(x):
    return sum((i + 1) * (j + 3) for i, p in enumerate(x) for j in p)


def parts_of(n, kmax):
    """all set partitions of range(n) into 2..kmax blocks (canonical block order)."""
    out = []

    def rec(i, blocks):
        if i == n:
            if len(blocks) > 1:
                out.append([list(b) for b in blocks])
            return
        for b in blocks:
            b.append(i)
            rec(i + 1, blocks)
            b.pop()
        if len(blocks) < kmax:
            blocks.append([i])
            rec(i + 1, blocks)
            blocks.pop()

    rec(0, [])
    return out


CRIT = [
    {"antenna_nums": [0, 3]},
    {"antenna_names": ["alpha", "HH3"]},
    {"ant_str": "cross"},
    {"ant_str": "0_3"},
    {"bls": [[0, 3]]},
    {"bls": [[3, 0]]},
    {"bls": [[12, 3, "xy"]]},
    {"bls": [[3, 12, "xy"]]},
    {"frequencies": [0, 2]},
    {"freq_chans": [1, 3]},
    {"times": [1]},
    {"time_range": [0, 0]},
    {"lsts": [1]},
    {"lst_range": [0, 0]},
    {"polarizations": [-8, -5]},
    {"polarizations": ["xy"]},
    {"blt_inds": [0, 3, 4]},
    {"phase_center_ids": [1]},
    {"catalog_names": ["srcA"]},
    {"freq_chans": [0, 1, 3], "blt_inds": [0, 1, 3]},
    {"freq_chans": [0, 1, 3], "blt_inds": [0, 1, 3], "polarizations": [-5, -8]},
    {},
]
BAD = ["shape", "flagshape", "nsshape", "header", "nofile", "nomatch"]

_tmpl = {}


def template(kwname, dt, comp):
    key = (kwname, dt, comp)
    if key not in _tmpl:
        uv = io.build(KW if kwname == "a" else KW2)
        # header check compares histories: use an object read from a file
        p = io.path(".uvh5")
        uv.write_uvh5(p)
        uv = UVData.from_file(p)
        os.remove(p)
        opts = [
            {},
            {"chunks": True, "data_compression": "lzf"},
            {"chunks": (2, 2, 1), "flags_compression": "gzip"},
        ][comp]
        uv.initialize_uvh5_file(
            p, data_write_dtype=_hera_corr_dtype if dt == "int" else dt, **opts
        )
        _tmpl[key] = (p, uv)
    p, uv = _tmpl[key]
    q = io.path(".uvh5")
    shutil.copy(p, q)
    return q, uv.copy()


def contents(p):
    with h5py.File(p, "r") as f:
        d = f["Data"]
        v = d["visdata"][()]
        if v.dtype.names and "r" in v.dtype.names and v.dtype.kind == "V":
            v = v["r"].astype(float) + 1j * v["i"]
        return v, d["flags"][()], d["nsamples"][()], bytes(f["Header/history"][()])


def blank(uv):
    sh = (uv.Nblts, uv.Nfreqs, uv.Npols)
    return [np.zeros(sh, complex), np.zeros(sh, bool), np.zeros(sh, np.float32)]


def check_file(p, exp, what):
    got = contents(p)
    for n, e, g in zip(("visibilities", "flags", "nsamples"), exp, got):
        if not np.array_equal(e, g):
            bad = np.argwhere(e != g)
            i = tuple(bad[0])
            raise Violation(f"{what}: {n}: {len(bad)} cells differ, first {i}: {e[i]} vs {g[i]}")
    return got[3]


def put(uv, p, exp, b, f, p_, **kw):
    ix = np.ix_(b, f, p_)
    arrs = [uv.data_array[ix], uv.flag_array[ix], uv.nsample_array[ix]]
    uv.write_uvh5_part(
        p, data_array=arrs[0], flag_array=arrs[1], nsample_array=arrs[2], **kw
    )
    for e, a in zip(exp, arrs):
        e[ix] = a


def run(case, ctx):
    kind = case[0]
    files = []
    try:
        globals()["run_" + kind](case, ctx, files)
    finally:
        for p in files:
            io.rm(p)
    ctx.trace()


def run_one(case, ctx, files):
    _, b, f, p_, dt, comp = case
    p, uv = template("a", dt, comp)
    files.append(p)
    exp = blank(uv)
    kw = {}
    if len(b) < uv.Nblts or len(f) % 2:
        kw["blt_inds"] = b
    if len(f) < uv.Nfreqs:
        kw["freq_chans"] = f
    if len(p_) < uv.Npols:
        kw["polarizations"] = uv.polarization_array[p_]
    h0 = contents(p)[3]
    put(uv, p, exp, b, f, p_, check_header=False, **kw)
    ctx.step(2)
    h1 = check_file(p, exp, f"part {b} {f} {p_}")
    require(h0 == h1, "history of the file changed")
    ctx.state(str((b, f, p_, dt)))


def run_seq(case, ctx, files):
    _, axis, parts, dt = case
    p, uv = template("a", dt, 0)
    files.append(p)
    exp = blank(uv)
    full = [list(range(uv.Nblts)), list(range(uv.Nfreqs)), list(range(uv.Npols))]
    ax = "bfp".index(axis)
    uv0 = uv.copy()
    hist = uv.history
    for k, part in enumerate(parts):
        idx = list(full)
        idx[ax] = part
        kw = {
            "b": lambda: {"blt_inds": part},
            "f": lambda: {"freq_chans": part},
            "p": lambda: {"polarizations": uv.polarization_array[part]},
        }[axis]()
        if k:
            # a later writer, after a restart, with other values
            uv.data_array = uv0.data_array + k * (3 - 2j)
            uv.flag_array = uv0.flag_array ^ bool(k % 2)
        if k == len(parts) - 1:
            kw["add_to_history"] = " part-done"
        fr = Frozen(uv)
        put(uv, p, exp, *idx, check_header=(k == 0), **kw)
        fr.check(uv, "write_uvh5_part")
        ctx.step()
        h = check_file(p, exp, f"after part {k} of {parts}")
        ctx.state(str((axis, sorted(map(str, parts[: k + 1])), k)))
        require(
            h.decode() == hist + (" part-done" if k == len(parts) - 1 else ""),
            "file history wrong",
        )
    r = UVData.from_file(p, data_array_dtype=np.complex128)
    ctx.step()
    require(np.array_equal(r.data_array, exp[0]), "data read back")
    require(np.array_equal(r.flag_array, exp[1]), "flags read back")
    require(np.array_equal(r.nsample_array, exp[2]), "nsamples read back")
    skip = ["_data_array", "_flag_array", "_nsample_array", "_history", "_filename"]
    io.meta_equal(uv, r, "metadata", skip)


def run_crit(case, ctx, files):
    _, crit, dt = case
    p, uv = template("b", dt, 0)
    files.append(p)
    exp = blank(uv)
    kw = dict(crit)
    ut, ul = np.unique(uv.time_array), np.unique(uv.lst_array)
    if "frequencies" in kw:
        kw["frequencies"] = uv.freq_array[kw["frequencies"]]
    if "times" in kw:
        kw["times"] = ut[kw["times"]]
    if "lsts" in kw:
        kw["lsts"] = ul[kw["lsts"]]
    if "time_range" in kw:
        kw["time_range"] = [ut[0] - 1e-6, ut[0] + 1e-6]
    if "lst_range" in kw:
        kw["lst_range"] = [ul[0] - 1e-6, ul[0] + 1e-6]
    if "bls" in kw:
        kw["bls"] = [tuple(x) for x in kw["bls"]]
    # which cells: from the labelled object after an ordinary selection
    lab = uv.copy()
    n = lab.data_array.size
    lab.data_array = np.arange(n, dtype=complex).reshape(lab.data_array.shape)
    if crit:
        lab.select(run_check=False, **kw)
    cells = lab.data_array.real.astype(int)
    sh = uv.data_array.shape
    b = np.unravel_index(cells[:, 0, 0], sh)[0]
    f = np.unravel_index(cells[0, :, 0], sh)[1]
    q = np.unravel_index(cells[0, 0, :], sh)[2]
    put(uv, p, exp, list(b), list(f), list(q), check_header=True, **kw)
    ctx.step(2)
    check_file(p, exp, f"part by {crit}")
    ctx.state(str((crit, dt)))


def run_bad(case, ctx, files):
    _, bad, chk = case
    p, uv = template("b", None, 0)
    files.append(p)
    exp = blank(uv)
    put(uv, p, exp, [0, 1], [0, 1, 2, 3], [0, 1, 2], check_header=True, blt_inds=[0, 1])
    raw = contents(p)
    d, f, n = uv.data_array[:2], uv.flag_array[:2], uv.nsample_array[:2]
    kw = dict(blt_inds=[0, 1])
    q = p
    if bad == "shape":
        kw = dict(blt_inds=[0, 1, 2])
    elif bad == "flagshape":
        f = f[:, :2]
    elif bad == "nsshape":
        n = n[:1]
    elif bad == "header":
        if not chk:
            return
        uv.freq_array = uv.freq_array + 1e6
    elif bad == "nofile":
        q = p + ".none"
    elif bad == "nomatch":
        kw = dict(antenna_nums=[77])
    fr = Frozen(uv)
    try:
        uv.write_uvh5_part(
            q, data_array=d, flag_array=f, nsample_array=n, check_header=chk, **kw
        )
    except Exception as e:
        ctx.outcome(type(e).__name__)
    else:
        raise Violation(f"bad part ({bad}) was accepted")
    ctx.step()
    fr.check(uv, f"refused part ({bad})")
    require(not os.path.exists(p + ".none"), "file appeared")
    now = contents(p)
    for a, b in zip(raw, now):
        require(np.array_equal(a, b), f"refused part ({bad}) changed the file")
    ctx.state(bad)
