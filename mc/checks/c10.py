"""C10: reading part of a file, or several files, equals reading and then selecting or
combining."""

import itertools
import os

import numpy as np
from pyuvdata import UVData
from pyuvdata.uvdata.uvh5 import _hera_corr_dtype

from mc import io, sel
from mc.checks import c01
from mc.core import Violation, require
from mc.model import UVModel

ID = "C10"
BOUNDS = (
    "partial reads of UVH5 (float, integer, old-layout and chunked storage, one axis at a "
    "time and multi-axis indexing), UVFITS (one and several windows, with and without an "
    "IF axis), Miriad and measurement sets: every selection atom of the C01 alphabet and "
    "every pair of criteria of the reduced alphabet, full and reduced metadata, compared "
    "parameter by parameter with a full read followed by select; requests the "
    "selection refuses are refused by the read; multi-file reads of every cut into 2-3 pieces along each axis in every order, with "
    "and without a concatenation axis, compared with reading and combining."
)
ASSUMPTIONS = [
    "select and combination themselves are decided by C01 and C02",
]

FILES = {
    # name: (format, generator knobs, write options)
    "h5": ("uvh5", dict(ants="conj", nt=3, layout="ragged", pc="multi", spw="two", eq=True), {}),
    "h5int": ("uvh5", dict(ants="three", nt=4, layout="time", spw="one", pols=(-5, -7, -6), nf=5, _int=True), {"dt": "int"}),
    "h5big": ("uvh5", dict(ants="cross4", nt=9, layout="bl", spw="two_rev", nf=6, pols=(-8, -5)), {"chunks": True, "multi": True}),
    "h5flex": ("uvh5", dict(ants="cross", nt=2, nf=2, pols=(-5, -6, -7), pc="ephem", _flexpol=True), {}),
    "h5old": ("uvh5", dict(ants="conj", nt=3, layout="time", spw="one", nf=5), {"old": True, "multi": True}),
    "fits": ("uvfits", dict(ants="conj", nt=3, layout="ragged", pc="multi", nf=4), {}),
    "fits2": ("uvfits", dict(ants="sorted", nt=2, layout="bl", pc="sidB", spw="two", nf=6, pols=(-5, -6)), {}),
    "fits3": ("uvfits", dict(ants="cross", nt=3, layout="time", pc="sidA", spw="two_rev", nf=4, pols=(-5, -6, -7), dtype="complex64"), {}),
    "mir": ("miriad", dict(ants="three", nt=3, layout="time", pc="sidA", nf=4, _geo=True, dtype="complex64"), {}),
    "mirun": ("miriad", dict(ants="sorted", nt=3, layout="time", pc="unproj", nf=3, pols=(-5, -6), _geo=True, dtype="complex64"), {}),
    "ms": ("ms", dict(ants="sorted", nt=2, layout="time", pc="multi", nf=4, pols=(-5, -6, -7, -8), spw="two"), {}),
}
_f = {}


def prepare(tier=None):
    for n in FILES:
        get(n)


def get(name):
    if name not in _f:
        fmt, kw, w = FILES[name]
        uv = io.build(kw)
        p = os.path.join(io.SCR, f"c10_{name}." + fmt)
        if fmt == "uvh5":
            uv.write_uvh5(
                p,
                data_write_dtype=_hera_corr_dtype if w.get("dt") else None,
                chunks=True if w.get("chunks") else None,
            )
            if w.get("old"):
                import h5py

                with h5py.File(p, "r+") as f:
                    h, d = f["Header"], f["Data"]
                    for n in ("visdata", "flags", "nsamples"):
                        v = d[n][()]
                        del d[n]
                        d[n] = v[:, np.newaxis]
                    for n in ("freq_array",):
                        v = h[n][()]
                        del h[n]
                        h[n] = v[np.newaxis]
                    v = float(h["channel_width"][0])
                    del h["channel_width"]
                    h["channel_width"] = v
                    del h["flex_spw_id_array"]
        else:
            getattr(uv, "write_" + fmt)(p)
        full = UVData.from_file(p)
        _f[name] = (p, full)
    return _f[name]


def cases(tier):
    out = []
    for name in FILES:
        fmt, _, w = FILES[name]
        _, full = get(name)
        A = c01.alphabet(name, True, full)
        R = c01.alphabet(name, False, full)
        slow = fmt in ("miriad", "ms")
        for cat in A:
            for i, a in enumerate(A[cat]):
                if tier == "quick" and (i % 3 and not (cat in ("freq", "pol") and not slow)):
                    continue
                out.append(["sel", name, [a], i % 2, bool(i % 3)])
        k = 0
        cats = list(R)
        for c1, c2 in itertools.combinations(cats, 2):
            if {c1, c2} in c01.CONFLICT:
                continue
            for a, b in itertools.product(R[c1], R[c2]):
                if c1 == "bls" and c2 == "pol" and len(a["v"][0]) == 3:
                    continue
                k += 1
                if tier == "quick" and k % (19 if slow else 13):
                    continue
                out.append(["sel", name, [a, b], k % 2, bool(k % 5)])
        # all three axes: the index-path matrix (which axis is most selective, sliceable or not)
        if fmt in ("uvh5", "uvfits", "miriad"):
            B = [x for x in A["blt"] if x["k"] == "blt_inds"][:5] + [
                {"k": "blt_inds", "v": [0, 1, 4, 5, 7]},
                {"k": "blt_inds", "v": list(range(1, full.Nblts))},
            ]
            F = [x for x in A["freq"] if x["k"] == "freq_chans"]
            Q = [x for x in A["pol"] if x["k"] == "polarizations" and "s" not in x][:7]
            for j, (b, f, q) in enumerate(itertools.product(B, F, Q)):
                if tier == "quick" and j % (13 if slow else 7):
                    continue
                out.append(["sel", name, [b, f, q], j % 2 if w.get("multi") else 0, True])
    for fmt in ("uvh5", "uvfits", "miriad", "ms"):
        for axis in ("blt", "freq", "polarization"):
            for npc in (2, 3):
                for perm in itertools.permutations(range(npc)):
                    for how in ("add", "axis"):
                        for s in (0, 1, 2):
                            if tier == "quick" and (s + sum(perm[:2]) + npc) % 3:
                                continue
                            out.append(["multi", fmt, axis, npc, list(perm), how, s])
    return out


def run(case, ctx):
    if case[0] == "multi":
        return run_multi(case, ctx)
    _, name, atoms, mi, keep = case
    p, full = get(name)
    m = UVModel(full)
    kw = {}
    try:
        for a in atoms:
            kw.update(sel.kwargs_of(a, m))
    except IndexError:
        ctx.outcome("n/a")
        return
    native = {"antenna_nums", "ant_str", "bls", "time_range", "polarizations"}
    miriad = FILES[name][0] == "miriad"
    if miriad:
        # the Miriad library selects these itself: lists only, all metadata kept, and
        # blt_inds then count the rows that are left (all documented by warnings)
        keep = True
        # (auto and cross together and baseline numbers are not part of its syntax)
        if (
            {"blt_inds", "antenna_names"}.intersection(kw) and native.intersection(kw)
            or kw.get("ant_str") == "auto,cross"
            or any(a["k"] == "bl_nums" for a in atoms)
        ):
            ctx.outcome("n/a")
            return
        for k in native - {"ant_str", "bls"}:
            if k in kw:
                kw[k] = np.ravel(np.asarray(kw[k], dtype=object)).tolist()
    if not keep:
        kw["keep_all_metadata"] = False
    ro = {}
    if FILES[name][0] == "uvh5" and mi:
        ro["multidim_index"] = True
    ref = full.copy()
    try:
        ref.select(**kw)
    except Exception as e:
        ref = e
    ctx.step()
    flexp = name == "h5flex"
    if flexp:
        ro["remove_flex_pol"] = False
        full = UVData.from_file(p, **ro)
        ref = full.copy()
        try:
            ref.select(**kw)
        except Exception as e:
            ref = e
    try:
        part = UVData.from_file(p, **ro, **kw)
    except Exception as e:
        if isinstance(ref, Exception):
            ctx.outcome("refused")
            ctx.trace()
            return
        raise
    if isinstance(ref, Exception):
        if miriad:
            ctx.outcome("lenient")
            return
        raise Violation(f"partial read accepted {kw}, select refuses it: {ref}")
    ctx.step()
    if not keep and ref.Nblts == full.Nblts:
        # a selection of everything is a plain full read, which keeps all antennas
        for o in (ref, part):
            o.select(blt_inds=np.arange(o.Nblts), keep_all_metadata=False)
    if flexp:
        # select drops the flex-pol axis once a single polarization is left
        for o in (ref, part):
            if o.flex_spw_polarization_array is not None:
                o.remove_flex_pol()
    compare(ref, part, f"{name} read with {kw}")
    ctx.state(UVModel(part).digest())
    ctx.trace()


SKIP = ("_history", "_filename")


def compare(ref, got, what):
    io.meta_equal(ref, got, what, SKIP)
    for n in ("data_array", "flag_array", "nsample_array", "uvw_array", "time_array"):
        a, b = getattr(ref, n), getattr(got, n)
        require(np.array_equal(a, b), f"{what}: {n} differs")
        require(a.dtype == b.dtype, f"{what}: dtype of {n}")


_m = {}


def pieces(fmt, axis, npc, s):
    key = (fmt, axis, npc, s)
    if key not in _m:
        kw = dict(
            ants=("cross", "three", "sorted")[s],
            nt=3,
            nf=6,
            pols=(-5, -6, -7, -8),
            pc="sidA",
            layout="time",
            spw=("one", "two_eqw", "one")[s] if fmt != "miriad" else "one",
            _geo=True,
        )
        if fmt in ("miriad", "ms"):
            kw["dtype"] = "complex64"
        if fmt == "ms" and axis == "freq" and s == 1:
            kw["spw"] = "one"
        if axis == "freq" and (fmt == "uvfits" or npc == 3):
            kw["spw"] = "one"
        base = io.build(kw)
        paths = []
        n = {"blt": 3, "freq": 6, "polarization": 4}[axis]
        groups = np.array_split(np.arange(n), npc)
        if axis == "polarization" and npc == 3:
            groups = [[0], [2, 3], [1]]
        ut = np.unique(base.time_array)
        for i, g in enumerate(groups):
            if axis == "blt":
                u = base.select(times=ut[g], inplace=False)
            elif axis == "freq":
                u = base.select(freq_chans=g, inplace=False)
            else:
                u = base.select(polarizations=base.polarization_array[g], inplace=False)
            p = os.path.join(io.SCR, f"c10m_{os.getpid()}_{'_'.join(map(str, key))}_{i}.{fmt}")
            getattr(u, "write_" + fmt)(p)
            paths.append(p)
        _m[key] = paths
    return _m[key]


def run_multi(case, ctx):
    _, fmt, axis, npc, perm, how, s = case
    paths = [pieces(fmt, axis, npc, s)[i] for i in perm]
    ro = {"axis": axis} if how == "axis" else {}
    got = UVData.from_file(paths, **ro)
    objs = [UVData.from_file(p) for p in paths]
    if how == "axis":
        ref = objs[0].fast_concat(objs[1:], axis)
    else:
        ref = objs[0]
        for o in objs[1:]:
            ref = ref + o
    ctx.step(npc + 1)
    compare_cells(ref, got, f"reading {npc} {fmt} files along {axis}")
    require(
        sorted(got.filename) == sorted(os.path.basename(p) for p in paths),
        f"filename {got.filename}",
    )
    # and with a selection applied to every file
    kw = {"freq_chans": [0, 1]} if axis != "freq" else {"times": np.unique(ref.time_array)[:1]}
    part = UVData.from_file(paths, **ro, **kw)
    ref2 = ref.select(inplace=False, **kw)
    ctx.step(npc + 1)
    compare_cells(ref2, part, f"reading {npc} {fmt} files along {axis} with {kw}")
    ctx.state(UVModel(got).digest())
    ctx.trace()


def compare_cells(ref, got, what):
    from mc.checks.c02 import Cells, check_cells

    check_cells(Cells(ref), got, what)
