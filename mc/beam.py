"""Generator and label-addressed image of UVBeam objects.

Kinds: first letter the pixels (a az_za full circle, c az_za partial, o orthoslant
grid, h full ring map, n full nested map, p partial unsorted ring map), second the
type (e efield feeds x,y; f efield feeds y,x; r efield feeds r,l; 1 efield feed x only;
t efield 3 components; w power with cross pols; x power xx,yy real; s pseudo-Stokes;
b power with vector axes kept; q power rr,ll,rl,lr), then options: P phased array,
d descending frequencies, u uneven frequencies.
"""

import copy

import numpy as np
from pyuvdata import UVBeam

from .core import Violation, digest, require

TWO_PI = 2 * np.pi
FEEDS = {"e": "xy", "f": "yx", "r": "rl", "1": "x", "t": "xy"}
POLS = {"w": (-5, -6, -7, -8), "x": (-5, -6), "s": (1, 2, 3, 4), "b": (-5, -6, -7, -8), "q": (-1, -2, -3, -4)}
CROSS = {-3, -4, -7, -8}
_cache = {}


def vals(shape, seed, cplx=True):
    i = np.arange(int(np.prod(shape)))
    re = ((i * 37 + seed * 13) % 1021) / 64.0 + 0.25
    if not cplx:
        return re.reshape(shape)
    im = ((i * 53 + 7 + seed * 29) % 997) / 128.0 - 3.0
    return (re + 1j * im).reshape(shape)


def make(kind, seed=0, nf=3, opt=True, n1=None, n2=None, nside=1):
    key = (kind, seed, nf, opt, n1, n2, nside)
    if key in _cache:
        return _cache[key].copy()
    px, ty, mods = kind[0], kind[1], kind[2:]
    b = UVBeam()
    b.telescope_name, b.feed_name, b.feed_version = "tel", "feedname", "0.1"
    b.model_name, b.model_version = "mod", "1.0"
    b.history = "made"
    b.x_orientation = "east" if ty not in "rq" else None
    b.data_normalization = "physical"
    b.antenna_type = "simple"
    fr = 1e8 + 1e6 * np.arange(nf)
    if "u" in mods:
        fr = 1e8 + 1e6 * np.cumsum(np.arange(1, nf + 1)) * 1.0
    if "d" in mods:
        fr = fr[::-1].copy()
    b.freq_array, b.Nfreqs = fr, nf
    b.bandpass_array = 1.0 + np.arange(nf) / 8.0 + seed
    if px in "aco":
        b.pixel_coordinate_system = "orthoslant_zenith" if px == "o" else "az_za"
        n1 = n1 or (6 if px == "a" else 4)
        n2 = n2 or 4
        if px == "a":
            b.axis1_array = np.arange(n1) * TWO_PI / n1
            b.axis2_array = np.arange(n2) * 0.5
        elif px == "c":
            b.axis1_array = 1.0 + np.arange(n1) * 0.25
            b.axis2_array = 0.25 + np.arange(n2) * 0.25
        else:
            b.axis1_array = -0.5 + np.arange(n1) * 0.25
            b.axis2_array = -0.25 + np.arange(n2) * 0.25
        b.Naxes1, b.Naxes2 = n1, n2
        pshape = (n2, n1)
    else:
        b.pixel_coordinate_system = "healpix"
        b.nside = nside
        b.ordering = "nested" if px == "n" else "ring"
        b.pixel_array = np.arange(12 * nside**2)
        if px == "p":
            b.pixel_array = np.array([7, 2, 9, 4, 3])
        b.Npixels = b.pixel_array.size
        pshape = (b.Npixels,)
    if ty in FEEDS:
        b.beam_type = "efield"
        b.feed_array = np.array(list(FEEDS[ty]))
        b.Nfeeds = len(b.feed_array)
        b.Naxes_vec = 2
        b.Ncomponents_vec = 3 if ty == "t" else 2
        b.data_array = vals((2, b.Nfeeds, nf) + pshape, seed)
        bv = np.zeros((2, b.Ncomponents_vec) + pshape)
        bv[0, 0] = 1
        bv[1, 1] = 1
        b.basis_vector_array = bv
    else:
        b.beam_type = "power"
        b.polarization_array = np.array(POLS[ty])
        b.Npols = len(POLS[ty])
        b.Naxes_vec = 2 if ty == "b" else 1
        d = vals((b.Naxes_vec, b.Npols, nf) + pshape, seed, cplx=bool(CROSS & set(POLS[ty])))
        for i, p in enumerate(POLS[ty]):
            if p not in CROSS:
                d[:, i] = np.abs(d[:, i])
        b.data_array = d
        if ty == "b":
            b.Ncomponents_vec = 2
            bv = np.zeros((2, 2) + pshape)
            bv[0, 0] = 1
            bv[1, 1] = 1
            b.basis_vector_array = bv
    if "P" in mods:
        b.antenna_type = "phased_array"
        ne = 2
        b.Nelements = ne
        b.element_coordinate_system = "x-y"
        b.element_location_array = np.array([[0.0, 1.0], [2.0, 3.0]])
        b.delay_array = np.array([0.0, 1e-9])
        b.gain_array = np.array([1.0, 0.5])
        b.coupling_matrix = vals((ne, ne, b.Nfeeds, b.Nfeeds, nf), seed + 5)
    if opt:
        b.receiver_temperature_array = 100.0 + np.arange(nf) + seed * 7
        b.loss_array = 0.1 * (1 + np.arange(nf)) + seed
        b.mismatch_array = 0.01 * (1 + np.arange(nf)) + seed
        b.s_parameters = vals((4, nf), seed + 3, cplx=False)
        b.reference_impedance = 50.0
        b.extra_keywords = {"EXTRA1": 3, "EXTRA2": "abc"}
    b.check()
    _cache[key] = b
    return b.copy()


def label_basis(b, seed=0):
    """Give every pixel its own basis vectors (lengths below 1)."""
    i = np.arange(b.basis_vector_array.size).reshape(b.basis_vector_array.shape)
    b.basis_vector_array = ((i * 31 + seed * 17) % 101) / 256.0
    return b


class BeamImg:
    """Arrays and axis labels of a beam; every axis addressed by label."""

    FREQ1 = ("bandpass_array", "receiver_temperature_array", "loss_array", "mismatch_array")

    def __init__(self, b):
        self.hpx = b.pixel_coordinate_system == "healpix"
        self.csys = b.pixel_coordinate_system
        self.type = b.beam_type
        self.ant = b.antenna_type
        self.norm = b.data_normalization
        self.nvec = b.Naxes_vec
        self.nside, self.ordering = b.nside, b.ordering
        self.x = b.x_orientation
        self.pol = [int(p) for p in b.polarization_array] if b.beam_type == "power" else [str(f) for f in b.feed_array]
        self.freq = [float(f) for f in b.freq_array]
        self.pix = [[int(p) for p in b.pixel_array]] if self.hpx else [[float(v) for v in b.axis2_array], [float(v) for v in b.axis1_array]]
        self.data = np.array(b.data_array)
        self.basis = None if b.basis_vector_array is None else np.array(b.basis_vector_array)
        self.f1 = {k: None if getattr(b, k) is None else np.array(getattr(b, k)) for k in self.FREQ1}
        self.s = None if b.s_parameters is None else np.array(b.s_parameters)
        self.coup = None if b.coupling_matrix is None else np.array(b.coupling_matrix)
        self.zimp = b.reference_impedance
        self.extra = dict(b.extra_keywords)
        self.meta = tuple(
            getattr(b, k) for k in ("telescope_name", "feed_name", "feed_version", "model_name", "model_version")
        )

    def copy(self):
        return copy.deepcopy(self)

    def take(self, axis, idx):
        """axis: 'p' pol/feed, 'f' frequency, 0/1 pixel axis number."""
        o = self.copy()
        idx = list(idx)
        if axis == "p":
            o.pol = [self.pol[i] for i in idx]
            o.data = self.data[:, idx]
            if o.coup is not None and self.type == "efield":
                o.coup = self.coup[:, :, idx][:, :, :, idx]
        elif axis == "f":
            o.freq = [self.freq[i] for i in idx]
            o.data = self.data[:, :, idx]
            o.f1 = {k: None if v is None else v[idx] for k, v in self.f1.items()}
            if o.s is not None:
                o.s = self.s[:, idx]
            if o.coup is not None:
                o.coup = self.coup[..., idx]
        else:
            o.pix[axis] = [self.pix[axis][i] for i in idx]
            o.data = np.take(self.data, idx, axis=3 + axis)
            if o.basis is not None:
                o.basis = np.take(self.basis, idx, axis=2 + axis)
        return o

    def size(self, axis):
        return len({"p": self.pol, "f": self.freq}[axis]) if axis in ("p", "f") else len(self.pix[axis])

    def canon(self):
        o = self.take("p", sorted(range(len(self.pol)), key=lambda i: str(self.pol[i])))
        o = o.take("f", np.argsort(o.freq))
        for a in range(len(o.pix)):
            o = o.take(a, np.argsort(o.pix[a]))
        return o

    def key(self):
        return digest(self.csys, self.type, self.pol, self.freq, self.pix, self.data, self.norm)


def structure(b, where=""):
    """The object is consistent with itself: check() plus counts and shapes."""
    b.check()
    b2 = BeamImg(b)
    np_ = tuple(len(p) for p in b2.pix)
    require(b2.data.shape == (b2.nvec, len(b2.pol), len(b2.freq)) + np_, f"{where}: data shape {b2.data.shape} does not fit its axes")
    require(b.Nfreqs == len(b2.freq), f"{where}: Nfreqs")
    if b2.hpx:
        require(b.Npixels == np_[0], f"{where}: Npixels")
    else:
        require((b.Naxes2, b.Naxes1) == np_, f"{where}: Naxes")
    require((b.Npols if b2.type == "power" else b.Nfeeds) == len(b2.pol), f"{where}: Npols/Nfeeds")
    if b2.basis is not None:
        require(b2.basis.shape == (b2.nvec, b.Ncomponents_vec) + np_, f"{where}: basis vector shape")
    for k, v in b2.f1.items():
        require(v is None or v.shape == (len(b2.freq),), f"{where}: {k} shape")
    require(b2.s is None or b2.s.shape == (4, len(b2.freq)), f"{where}: s_parameters shape")
    return b2


def close(a, b, tol):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    if np.shape(a) != np.shape(b):
        return False
    if tol == 0:
        return bool(np.array_equal(a, b))
    return bool(np.allclose(a, b, rtol=tol, atol=tol))


def compare(exp, got, where, tol=0, order=False, ltol=0, skip=()):
    if not order:
        exp, got = exp.canon(), got.canon()
    for k in ("csys", "type", "ant", "norm", "nvec", "nside", "ordering", "x", "pol", "meta"):
        if k not in skip:
            require(getattr(exp, k) == getattr(got, k), f"{where}: {k}: expected {getattr(exp, k)}, found {getattr(got, k)}")
    require(close(np.array(exp.freq), np.array(got.freq), ltol), f"{where}: frequencies {got.freq}, expected {exp.freq}")
    for i in range(len(exp.pix)):
        require(close(np.array(exp.pix[i]), np.array(got.pix[i]), ltol), f"{where}: pixel axis {i}: {got.pix[i]}, expected {exp.pix[i]}")
    require(exp.data.shape == got.data.shape, f"{where}: data shape")
    if not close(exp.data, got.data, tol):
        bad = np.argwhere(~np.isclose(exp.data, got.data, rtol=tol, atol=tol))[0]
        raise Violation(f"{where}: beam value at {bad.tolist()} is {got.data[tuple(bad)]}, expected {exp.data[tuple(bad)]}")
    require(np.iscomplexobj(exp.data) == np.iscomplexobj(got.data), f"{where}: real/complex data")
    require(close(exp.basis, got.basis, tol), f"{where}: basis vectors differ")
    for k in exp.f1:
        if k not in skip:
            require(close(exp.f1[k], got.f1[k], tol), f"{where}: {k} is {got.f1[k]}, expected {exp.f1[k]}")
    if "s" not in skip:
        require(close(exp.s, got.s, tol), f"{where}: s_parameters differ")
    require(close(exp.coup, got.coup, tol), f"{where}: coupling matrix differs")
    if "zimp" not in skip:
        require(exp.zimp == got.zimp, f"{where}: reference impedance")
    if "extra" not in skip:
        require(exp.extra == got.extra, f"{where}: extra keywords {got.extra}, expected {exp.extra}")
