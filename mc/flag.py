"""Generator and reference image of UVFlag objects."""

import copy

import numpy as np
from pyuvdata import UVFlag

from . import cal, gen, io
from .core import Violation, digest, require


def coded(shape, seed=0):
    i = np.arange(int(np.prod(shape))).reshape(shape)
    return ((i * 7 + 3 + seed * 101) % 509 + 0.5) / 16.0


def wcoded(shape, seed=0):
    i = np.arange(int(np.prod(shape))).reshape(shape)
    return ((i * 5 + seed) % 4) / 2.0


def fcoded(shape, seed=0):
    i = np.arange(int(np.prod(shape))).reshape(shape)
    return ((i * 11 + seed * 3) % 5) < 2


def fill(f, seed=0, zero_w=True):
    """Put coded values in the data arrays."""
    if f.mode == "flag":
        f.flag_array = fcoded(f.flag_array.shape, seed)
    else:
        f.metric_array = coded(f.metric_array.shape, seed)
        f.weights_array = wcoded(f.metric_array.shape, seed) if zero_w else np.ones(f.metric_array.shape)
    return f


class FlagImg:
    def __init__(self, f):
        self.type, self.mode = f.type, f.mode
        cp = lambda v: None if v is None else np.array(v, copy=True)
        self.time = cp(f.time_array)
        self.lst = cp(f.lst_array)
        self.freq = cp(f.freq_array)
        self.width = cp(f.channel_width)
        self.spwid = cp(f.flex_spw_id_array)
        self.spws = cp(f.spw_array)
        self.pol = [x if isinstance(x, str) else int(x) for x in np.asarray(f.polarization_array).tolist()]
        self.ant = cp(f.ant_array)
        self.a1, self.a2, self.bl = cp(f.ant_1_array), cp(f.ant_2_array), cp(f.baseline_array)
        self.flag, self.metric, self.w, self.ws = cp(f.flag_array), cp(f.metric_array), cp(f.weights_array), cp(f.weights_square_array)
        t = f.telescope
        order = np.argsort(t.antenna_numbers)
        self.tel = {
            "name": t.name,
            "loc": tuple(np.round(t._location.xyz(), 4)),
            "nums": tuple(np.asarray(t.antenna_numbers)[order].tolist()),
            "names": tuple(str(x) for x in np.asarray(t.antenna_names)[order]),
            "pos": tuple(np.round(np.asarray(t.antenna_positions)[order], 6).ravel().tolist()),
            "x": t.x_orientation,
        }
        self.extra = copy.deepcopy(f.extra_keywords)
        self.label = f.label
        self.counts = {n: getattr(f, n) for n in ("Ntimes", "Nfreqs", "Npols", "Nspws", "Nblts", "Nbls", "Nants_data")}

    def copy(self):
        return copy.deepcopy(self)

    def data(self):
        """name -> array of the mode."""
        if self.mode == "flag":
            return {"flag_array": self.flag}
        d = {"metric_array": self.metric, "weights_array": self.w}
        if self.ws is not None:
            d["weights_square_array"] = self.ws
        return d

    def setdata(self, name, v):
        setattr(self, {"flag_array": "flag", "metric_array": "metric", "weights_array": "w", "weights_square_array": "ws"}[name], v)

    def take(self, ax, idx):
        """ax: r (rows or times), a, f, p."""
        idx = list(idx)
        pos = {
            "baseline": {"r": 0, "f": 1, "p": 2},
            "waterfall": {"r": 0, "f": 1, "p": 2},
            "antenna": {"a": 0, "f": 1, "r": 2, "p": 3},
        }[self.type][ax]
        for n, v in self.data().items():
            self.setdata(n, np.take(v, idx, axis=pos))
        if ax == "r":
            for n in ("time", "lst", "a1", "a2", "bl"):
                if getattr(self, n) is not None:
                    setattr(self, n, getattr(self, n)[idx])
        elif ax == "a":
            self.ant = self.ant[idx]
        elif ax == "f":
            for n in ("freq", "width", "spwid"):
                setattr(self, n, getattr(self, n)[idx])
            self.spws = np.array([s for s in self.spws if s in set(self.spwid.tolist())])
        else:
            self.pol = [self.pol[i] for i in idx]
        return self

    def key(self):
        return digest(self.type, self.mode, self.time, self.freq, self.pol, self.ant, self.a1, self.a2, self.flag, self.metric, self.w, self.ws)


def structure(f, what):
    im = FlagImg(f)
    nt = len(np.unique(im.time))
    c = im.counts
    require(c["Ntimes"] == nt, "%s: Ntimes is %s, the object has %s", what, c["Ntimes"], nt)
    require(c["Nfreqs"] == len(im.freq), "%s: Nfreqs is %s, the object has %s", what, c["Nfreqs"], len(im.freq))
    require(c["Npols"] == len(im.pol), "%s: Npols", what)
    require(c["Nspws"] == len(im.spws), "%s: Nspws", what)
    if im.type == "baseline":
        require(c["Nblts"] == len(im.time), "%s: Nblts is %s, the object has %s rows", what, c["Nblts"], len(im.time))
        require(c["Nbls"] == len(np.unique(im.bl)), "%s: Nbls is %s, the object has %s", what, c["Nbls"], len(np.unique(im.bl)))
        n = len(set(im.a1.tolist()) | set(im.a2.tolist()))
        require(c["Nants_data"] == n, "%s: Nants_data", what)
        sh = (len(im.time), len(im.freq), len(im.pol))
    elif im.type == "antenna":
        require(c["Nants_data"] == len(im.ant), "%s: Nants_data", what)
        sh = (len(im.ant), len(im.freq), len(im.time), len(im.pol))
    else:
        sh = (len(im.time), len(im.freq), len(im.pol))
    for n, v in im.data().items():
        require(v is not None, "%s: no %s", what, n)
        require(v.shape == sh, "%s: %s has shape %s, the axes give %s", what, n, v.shape, sh)
    if im.mode == "flag":
        require(im.flag.dtype == bool, "%s: flags are not booleans", what)
    try:
        f.check()
    except ValueError as e:
        raise Violation(f"{what}: check() fails: {e}") from e
    return im


def compare(exp, got, what, tol=1e-12, extra=True, tel=True, label=True, ws=True):
    require(exp.type == got.type and exp.mode == got.mode, "%s: %s/%s, expected %s/%s", what, got.type, got.mode, exp.type, exp.mode)
    names = ["time", "lst", "freq", "width", "spwid"]
    if exp.type == "baseline":
        names += ["a1", "a2", "bl"]
    if exp.type == "antenna":
        names += ["ant"]
    for n in names:
        a, b = getattr(exp, n), getattr(got, n)
        require(b is not None and a.shape == b.shape and np.array_equal(a, b), "%s: %s is %s, expected %s", what, n, b, a)
    require(set(exp.spws.tolist()) == set(got.spws.tolist()), "%s: spw_array", what)
    require(exp.pol == got.pol, "%s: polarizations %s, expected %s", what, got.pol, exp.pol)
    ed, gd = exp.data(), got.data()
    for n in ed:
        if n == "weights_square_array" and not ws:
            continue
        require(n in gd and gd[n] is not None, "%s: %s missing", what, n)
        a, b = ed[n], gd[n]
        require(a.shape == b.shape, "%s: shape of %s %s, expected %s", what, n, b.shape, a.shape)
        if a.dtype == bool:
            ok = a == b
        else:
            ok = (a == b) | (np.abs(np.where(np.isinf(a), 0, a) - np.where(np.isinf(b), 1e300, b)) <= tol * (1 + np.abs(np.where(np.isinf(a), 0, a))))
        if not ok.all():
            i = tuple(int(x[0]) for x in np.nonzero(~ok))
            raise Violation(f"{what}: {n}{list(i)} is {b[i]}, expected {a[i]}")
    if tel:
        for k, v in exp.tel.items():
            require(got.tel[k] == v, "%s: telescope %s changed: %s, expected %s", what, k, str(got.tel[k])[:80], str(v)[:80])
    if extra:
        require(exp.extra == got.extra, "%s: extra_keywords %s, expected %s", what, got.extra, exp.extra)
    if label:
        require(exp.label == got.label, "%s: label", what)


# ---------------------------------------------------------------- datasets
UVD = {
    "bt": dict(layout="time", pols=(-5, -6), nf=3),
    "bs": dict(layout="shuffle", spw="two", nf=4, pols=(-6, -5, -8)),
    "br": dict(layout="ragged", spw="overlap", nf=4, pols=(-5,)),
    "bb": dict(layout="bl", nf=3, pols=(-6, -5), spw="two_rev"),
}
CAL = {
    "at": dict(nf=3, nt=3, jones=(-5, -6), ants=(0, 3, 7), ref=False, quality=False),
    "as": dict(nf=4, spw="two", nt=3, torder=(2, 0, 1), jones=(-6, -5), ants=(12, 0, 3, 7), quality=False),
    "ao": dict(nf=4, spw="overlap", nt=3, torder=(1, 2, 0), jones=(-5,), ants=(3, 12, 0, 7), quality=False),
}
# a UVCal with the axes of a UVData set, and the reverse
MATE = {
    "bt": dict(nf=3, nt=3, jones=(-5, -6), ants=(12, 0, 3), quality=False),
    "bs": dict(nf=4, spw="two", nt=3, torder=(2, 0, 1), jones=(-6, -5, -8), ants=(7, 3, 0, 12), quality=False),
    "br": dict(nf=4, spw="overlap", nt=3, torder=(1, 2, 0), jones=(-5,), ants=(3, 0), quality=False),
    "bb": dict(nf=3, spw="two_rev", nt=3, torder=(1, 0, 2), jones=(-6, -5), ants=(0, 3, 7, 12), quality=False),
}
_c = {}


def uvdata(d, **over):
    kw = dict(UVD[d])
    kw.update(over)
    return io.build(kw)


def uvcal(d, **over):
    kw = dict(CAL.get(d) or MATE[d])
    kw.update(over)
    return cal.build(kw)


def make(kind, mode, seed=0):
    """kind: 'bt' baseline, 'bt.w' waterfall from uvdata, 'at' antenna, 'at.w' waterfall from uvcal, 'bt.a' antenna mate, 'bt.v' waterfall of the mate."""
    k = (kind, mode, seed)
    if k not in _c:
        d, _, v = kind.partition(".")
        if d in UVD and v in ("", "w"):
            src = uvdata(d)
        else:
            src = uvcal(d)
        f = UVFlag(src, mode=mode, waterfall=v in ("w", "v"), history="mc", label="lab")
        f.extra_keywords = {"KEYA": "hello", "KEYI": 7, "KEYF": 2.5}
        fill(f, seed)
        f.check()
        _c[k] = f
    return _c[k].copy()
