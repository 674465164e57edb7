"""Generator and reference image of UVCal objects (no library code in the image)."""

import copy

import numpy as np
from pyuvdata import UVCal

from . import gen
from .core import Violation, digest, require
from .model import pc_canon

DATA = ("gain_array", "delay_array", "flag_array", "quality_array")
TIME = ("time_array", "time_range", "lst_array", "lst_range", "integration_time", "ref_antenna_array",
        "scan_number_array", "phase_center_id_array")
FREQ = ("freq_array", "channel_width", "flex_spw_id_array")
SPW = ("spw_array", "freq_range", "flex_jones_array")
SCAL = ("cal_type", "cal_style", "gain_convention", "wide_band", "sky_catalog", "ref_antenna_name",
        "Nsources", "baseline_range", "diffuse_model", "gain_scale", "git_origin_cal",
        "git_hash_cal", "observer", "extra_keywords", "pol_convention")
COUNTS = (("Nants_data", "ant_array"), ("Njones", "jones_array"), ("Nspws", "spw_array"))


def uvc(
    kind="gain",
    spw="one",
    nf=4,
    nt=3,
    trange=False,
    ants=(3, 0, 12, 7),
    jones=(-5, -6),
    quality=True,
    tq=False,
    ref=False,
    scan=False,
    pc=False,
    style="redundant",
    seed=0,
    meta=False,
    t0=None,
    extras=True,
    x_orient="east",
    torder=None,
    conv="divide",
    nants=5,
    dtype="complex128",
):
    t0 = gen.wrap_t0() if t0 == "wrap" else (gen.JD0 if t0 is None else t0)
    tel = gen.telescope(nants, x_orient)
    times = t0 + np.arange(nt) * gen.DT
    if torder is not None:
        times = times[list(torder)]
    kw = {}
    if trange:
        kw["time_range"] = np.stack([times, times + 0.6 * gen.DT], axis=1)
    else:
        kw["time_array"] = times
    wide = kind in ("wide", "delay")
    if wide:
        ns = {"one": 1, "two": 2, "two_rev": 2, "three": 3}.get(spw, 2)
        fr = np.array([[1.0e8 + 1e7 * i, 1.08e8 + 1e7 * i + 1e5 * i] for i in range(ns)])
        kw["freq_range"] = fr
        kw["cal_type"] = "delay" if kind == "delay" else "gain"
    else:
        if spw == "three":
            freqs = np.concatenate([1e8 + np.arange(2) * 1e5, 2e8 + np.arange(2) * 2e5, 1.5e8 + np.arange(2) * 1e5])
            width = np.repeat([1e5, 2e5, 1e5], 2)
            spwid = np.repeat([3, 1, 6], 2)
            nf = 6
        else:
            freqs, width, spwid = gen.freq_axis(nf, spw)
        kw.update(freq_array=freqs, channel_width=width, flex_spw_id_array=spwid)
    if style == "sky":
        kw.update(sky_catalog="GLEAM", ref_antenna_name=tel.antenna_names[1])
    c = UVCal.new(
        cal_style=style,
        gain_convention=conv,
        jones_array=np.array(jones),
        telescope=tel,
        ant_array=np.array(ants),
        integration_time=10.0 + 0.5 * np.arange(nt),
        **kw,
    )
    c.history = f"mc cal {seed}."
    if wide and spw in ("two_rev", "three"):
        c.spw_array = np.array([5, 2, 8][: c.Nspws])
    n1 = c.Nspws if wide else c.Nfreqs
    sh = (len(ants), n1, nt, len(jones))
    idx = np.arange(int(np.prod(sh))).reshape(sh)
    if not meta:
        if kind == "delay":
            c.delay_array = ((idx * 7 + 3 + seed * 101) % 4093 + 0.5) * 1e-10
        else:
            c.gain_array = (((idx * 7 + 3 + seed * 101) % 4093 + 0.5) / 512.0
                            + 1j * ((idx * 13 + 5 + seed * 211) % 4091 - 2045.0) / 512.0).astype(dtype)
        c.flag_array = ((idx * 5 + seed) % 7) == 0
        if quality:
            c.quality_array = ((idx * 3 + seed) % 11 + 1) / 4.0
        if tq:
            c.total_quality_array = ((idx[0] * 3 + seed) % 13 + 1) / 8.0
    if ref:
        c.ref_antenna_array = np.array([ants[i % len(ants)] for i in range(nt)])
    if scan:
        c.scan_number_array = np.arange(nt) // 2 + 4
    if pc:
        c.phase_center_catalog = {3: gen.pc_entry("sidA"), 1: gen.pc_entry("sidB")}
        c.phase_center_id_array = np.where(np.arange(nt) % 2 == 0, 3, 1)
        c.Nphase = 2
    if extras:
        c.extra_keywords = {"KEYA": "hello", "KEYI": 7, "KEYF": 2.5, "KEYB": True}
        c.observer = "mc"
        c.git_origin_cal = "origin"
        c.git_hash_cal = "abcdef"
        c.gain_scale = "Jy"
        if style == "sky":
            c.baseline_range = [5.0, 400.0]
            c.Nsources = 12
            c.diffuse_model = "gsm"
    c.check()
    return c


def axes_of(name, wide):
    f = "s" if wide else "f"
    if name in DATA:
        return ("a", f, "t", "j")
    if name == "total_quality_array":
        return (f, "t", "j")
    if name in TIME:
        return ("t",)
    if name in FREQ:
        return ("f",)
    if name in SPW:
        return ("s",)
    return {"ant_array": ("a",), "jones_array": ("j",)}[name]


class CalImg:
    """Columns and arrays of a UVCal object, copied."""

    def __init__(self, c):
        self.wide = bool(c.wide_band)
        self.arr = {}
        for n in DATA + ("total_quality_array", "ant_array", "jones_array") + TIME + FREQ + SPW:
            v = getattr(c, n)
            self.arr[n] = None if v is None else np.array(v, copy=True)
        self.scal = {n: copy.deepcopy(getattr(c, n)) for n in SCAL}
        self.cat = None if c.phase_center_catalog is None else {k: pc_canon(v) for k, v in c.phase_center_catalog.items()}
        t = c.telescope
        self.tel = {
            "name": t.name,
            "loc": tuple(np.round(t._location.xyz(), 6)),
            "inst": t.instrument,
            "x": t.x_orientation,
            "nums": tuple(np.asarray(t.antenna_numbers).tolist()),
            "names": tuple(str(x) for x in np.asarray(t.antenna_names)),
            "pos": tuple(np.round(np.asarray(t.antenna_positions), 9).ravel().tolist()),
            "diam": None if t.antenna_diameters is None else tuple(np.asarray(t.antenna_diameters).tolist()),
        }
        self.history = c.history

    def copy(self):
        return copy.deepcopy(self)

    def n(self, ax):
        a = self.arr
        if ax == "a":
            return len(a["ant_array"])
        if ax == "j":
            return len(a["jones_array"])
        if ax == "s":
            return len(a["spw_array"])
        if ax == "f":
            return len(a["freq_array"])
        return len(a["time_array"] if a["time_array"] is not None else a["time_range"])

    def take(self, ax, idx):
        for n, v in self.arr.items():
            if v is None:
                continue
            axs = axes_of(n, self.wide)
            if ax in axs:
                self.arr[n] = np.take(v, list(idx), axis=axs.index(ax))
        if ax == "f" and not self.wide:
            keep = [i for i, s in enumerate(self.arr["spw_array"]) if s in set(self.arr["flex_spw_id_array"].tolist())]
            for n in SPW:
                if self.arr[n] is not None:
                    self.arr[n] = self.arr[n][keep]
        return self

    def time_keys(self):
        a = self.arr
        if a["time_array"] is not None:
            return [float(x) for x in a["time_array"]]
        return [tuple(map(float, x)) for x in a["time_range"]]

    def freq_keys(self):
        a = self.arr
        if self.wide:
            return [int(s) for s in a["spw_array"]]
        return [(int(s), float(f)) for s, f in zip(a["flex_spw_id_array"], a["freq_array"])]

    def labels(self):
        """axis -> {key: per-element labels}; window-level labels."""
        a = self.arr
        t = {}
        for i, k in enumerate(self.time_keys()):
            row = []
            for n in TIME:
                v = a[n]
                if n == "phase_center_id_array" and v is not None and self.cat is not None:
                    row.append(self.cat[int(v[i])])
                else:
                    row.append(None if v is None else tuple(np.atleast_1d(v[i]).tolist()))
            t[k] = tuple(row)
        f = {}
        if not self.wide:
            for i, k in enumerate(self.freq_keys()):
                f[k] = float(a["channel_width"][i])
        s = {}
        for i, k in enumerate(a["spw_array"].tolist()):
            s[k] = tuple(None if a[n] is None else tuple(np.atleast_1d(a[n][i]).tolist()) for n in SPW[1:])
        return {"t": t, "f": f, "s": s}

    def cells(self, names=DATA):
        """(ant, freq, time, jones) -> tuple of values."""
        fk, tk = self.freq_keys(), self.time_keys()
        ak, jk = self.arr["ant_array"].tolist(), self.arr["jones_array"].tolist()
        out = {}
        arrs = [self.arr[n] for n in names]
        for i, x in enumerate(ak):
            for j, f in enumerate(fk):
                for k, t in enumerate(tk):
                    for m, p in enumerate(jk):
                        out[(x, f, t, p)] = tuple(None if v is None else v[i, j, k, m] for v in arrs)
        return out

    def tqcells(self):
        v = self.arr["total_quality_array"]
        if v is None:
            return None
        out = {}
        for j, f in enumerate(self.freq_keys()):
            for k, t in enumerate(self.time_keys()):
                for m, p in enumerate(self.arr["jones_array"].tolist()):
                    out[(f, t, p)] = v[j, k, m]
        return out

    def canon_spw(self):
        """The window table is keyed by window number: its own order carries no meaning."""
        if not self.wide:
            k = np.argsort(self.arr["spw_array"], kind="stable")
            for n in SPW:
                if self.arr[n] is not None:
                    self.arr[n] = self.arr[n][k]
        return self

    def key(self):
        return digest(self.arr, self.scal, self.cat, self.tel)


def structure(c, what):
    """Counts are true of the arrays."""
    im = CalImg(c)
    for n, arr in COUNTS:
        require(getattr(c, n) == len(im.arr[arr]), "%s: %s is %s but %s has %s", what, n, getattr(c, n), arr, len(im.arr[arr]))
    require(c.Ntimes == im.n("t"), "%s: Ntimes", what)
    if c.wide_band:
        require(c.Nfreqs == 1, "%s: Nfreqs", what)
    else:
        require(c.Nfreqs == im.n("f"), "%s: Nfreqs", what)
        require(set(im.arr["flex_spw_id_array"].tolist()) == set(im.arr["spw_array"].tolist()), "%s: spw_array", what)
    nf = im.n("s" if im.wide else "f")
    for n in DATA:
        v = im.arr[n]
        if v is not None:
            require(v.shape == (im.n("a"), nf, im.n("t"), im.n("j")), "%s: shape of %s is %s", what, n, v.shape)
    v = im.arr["total_quality_array"]
    if v is not None:
        require(v.shape == (nf, im.n("t"), im.n("j")), "%s: shape of total_quality_array", what)
    for n in TIME:
        if im.arr[n] is not None:
            require(len(im.arr[n]) == im.n("t"), "%s: length of %s", what, n)
    for n in SPW:
        if im.arr[n] is not None:
            require(len(im.arr[n]) == im.n("s"), "%s: length of %s", what, n)
    if im.cat is not None and im.arr["phase_center_id_array"] is not None:
        require(set(im.arr["phase_center_id_array"].tolist()) <= set(im.cat), "%s: phase center ids", what)
    try:
        c.check()
    except ValueError as e:
        raise Violation(f"{what}: check() fails: {e}") from e
    return im


def compare(exp, got, what, tol=None, scal=True, catalog=True, skip=()):
    """exp, got: CalImg with the same axis order."""
    for n, v in exp.arr.items():
        if n in skip:
            continue
        w = got.arr[n]
        require((v is None) == (w is None), "%s: %s is %s, expected %s", what, n, "missing" if w is None else "set", "missing" if v is None else "set")
        if v is None:
            continue
        if n == "phase_center_id_array" and exp.cat is not None and got.cat is not None:
            a = [exp.cat[int(i)] for i in v]
            b = [got.cat[int(i)] for i in w]
            require(a == b, "%s: phase centers of the times differ", what)
            continue
        require(v.shape == w.shape, "%s: %s has shape %s, expected %s", what, n, w.shape, v.shape)
        t = (tol or {}).get(n)
        if t is None:
            ok = np.array_equal(v, w)
        else:
            ok = np.allclose(v, w, rtol=t[0], atol=t[1])
        if not ok:
            i = tuple(int(x[0]) for x in np.nonzero(~(np.isclose(v, w, rtol=(t or (0, 0))[0], atol=(t or (0, 0))[1]) if v.dtype.kind in "fc" else v == w)))
            raise Violation(f"{what}: {n}{list(i)} is {w[i]}, expected {v[i]}")
    if scal:
        for n, v in exp.scal.items():
            if n in skip:
                continue
            w = got.scal[n]
            ok = np.array_equal(np.asarray(v), np.asarray(w)) if isinstance(v, (list, tuple, np.ndarray)) else v == w
            require(ok, "%s: %s is %r, expected %r", what, n, w, v)
    for k, v in exp.tel.items():
        if "tel_" + k in skip:
            continue
        require(got.tel[k] == v, "%s: telescope %s: %s, expected %s", what, k, str(got.tel[k])[:80], str(v)[:80])
    if catalog:
        require((exp.cat is None) == (got.cat is None), "%s: catalog presence", what)
        if exp.cat is not None:
            require(sorted(map(str, exp.cat.values())) == sorted(map(str, got.cat.values())), "%s: catalog entries differ", what)


_cache = {}


def build(kw):
    k = repr(sorted(kw.items()))
    if k not in _cache:
        kw = dict(kw)
        flex = kw.pop("flex", False)
        sets = kw.pop("set", {})
        c = uvc(**kw)
        if flex:
            c.convert_to_flex_jones()
        for a, v in sets.items():
            setattr(c, a, v)
        _cache[k] = c
    return _cache[k].copy()
