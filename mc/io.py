"""Shared pieces for the file checks: data sets, scratch files, comparisons."""

import os
import tempfile

import numpy as np

from . import gen
from .core import Violation
from .model import UVModel

SCR = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
_n = [0]


def path(suffix):
    _n[0] += 1
    return os.path.join(SCR, f"f{os.getpid()}_{_n[0]}{suffix}")


def rm(p):
    import shutil

    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.remove(p)


_cache = {}


def build(kw):
    """A UVData object from JSON-able generator knobs plus post-processing knobs."""
    key = repr(sorted(kw.items()))
    if key not in _cache:
        kw = dict(kw)
        post = {k[1:]: kw.pop(k) for k in list(kw) if k.startswith("_")}
        if "dtype" in kw:
            kw["dtype"] = np.dtype(kw["dtype"])
        if "pols" in kw:
            kw["pols"] = tuple(kw["pols"])
        uv = gen.uvd(**kw)
        if post.get("geo"):
            uv.set_uvws_from_antenna_positions(update_vis=False)
        if post.get("antoff"):
            off = post["antoff"]
            uv.telescope.antenna_numbers = uv.telescope.antenna_numbers + off
            uv.ant_1_array = uv.ant_1_array + off
            uv.ant_2_array = uv.ant_2_array + off
            uv.baseline_array = uv.antnums_to_baseline(uv.ant_1_array, uv.ant_2_array)
        if post.get("int"):
            uv.data_array = (
                np.floor(uv.data_array.real) + 1j * np.floor(uv.data_array.imag)
            ).astype(uv.data_array.dtype)
        if post.get("flexpol"):
            uv.convert_to_flex_pol()
        if post.get("order"):
            uv.reorder_blts(order=post["order"][0], minor_order=post["order"][1])
        for k, v in (post.get("set") or {}).items():
            setattr(uv, k, v)
        if post.get("tset"):
            for k, v in post["tset"].items():
                setattr(uv.telescope, k, v)
        _cache[key] = uv
    return _cache[key].copy()


def meta_equal(a, b, what, skip=()):
    """Every required or set parameter of two real objects, compared one by one."""
    for p in a:
        if p in skip:
            continue
        pa, pb = getattr(a, p), getattr(b, p)
        if pa.value is None and pb.value is None:
            continue
        if pa != pb:
            raise Violation(f"{what}: {p}: {str(pa.value)[:80]} != {str(pb.value)[:80]}")


def model(uv):
    return UVModel(uv)
