"""C26: UVBeam conversions and interpolation against closed-form references."""

import itertools

import numpy as np
from pyuvdata import UVBeam

from mc import beam
from mc.beam import BeamImg, compare, structure
from mc.core import Violation, require
from mc.model import Frozen

ID = "C26"
BOUNDS = (
    "Peak normalization, E-field to power (with and without cross polarizations, vector axes kept or not, every feed set and order, two and three vector "
    "components, coded and aligned basis vectors), E-field to pseudo-Stokes, interpolation in angle (every node, every cell midpoint and off-centre point including the "
    "azimuth wrap, grids, polarization subsets in every order, bilinear by hand and cubic on cubic polynomials), in frequency (nearest within the "
    "tolerance, linear by hand, cubic on cubic polynomials; every subset of nodes and cell points, refused outside), healpix maps in both orderings (every "
    "pixel centre, off-centre points), new objects, conversion to healpix, beam areas; and every history of up to three in-place operations between interpolations "
    "that reuse splines, compared with fresh objects."
)
ASSUMPTIONS = []

POLNUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4}
PSTR = {v: k for k, v in POLNUM.items()}
PSTR.update({1: "pI", 2: "pQ", 3: "pU", 4: "pV"})
AS_XY = {"e": "x", "n": "y"}


def get(kind, seed=0, basis=False, **kw):
    b = beam.make(kind, seed, **kw)
    if basis:
        i = np.arange(b.basis_vector_array.size).reshape(b.basis_vector_array.shape)
        b.basis_vector_array = ((i * 31 + seed * 17) % 101 - 50) / 256.0
    return b


# ------------------------------------------------------------- normalization
def run_peak(case, ctx):
    _, kind, norm = case
    b = get(kind)
    b.data_normalization = norm
    im = BeamImg(b)
    if norm == "solid_angle":
        fr = Frozen(b)
        try:
            b.peak_normalize()
        except NotImplementedError:
            fr.check(b, "refused normalization")
            ctx.step()
            return
        raise Violation("solid angle normalization converted")
    b.peak_normalize()
    got = structure(b, "peak_normalize")
    mx = np.array([np.abs(im.data[:, :, i]).max() for i in range(len(im.freq))])
    exp = im.copy()
    exp.norm = "peak"
    exp.f1["bandpass_array"] = im.f1["bandpass_array"] * mx
    sh = [1] * im.data.ndim
    sh[2] = -1
    exp.data = im.data / mx.reshape(sh)
    compare(exp, got, "peak_normalize", tol=1e-13, order=True)
    # a second time changes nothing
    b.peak_normalize()
    compare(exp, BeamImg(b), "peak_normalize twice", tol=1e-13, order=True)
    ctx.step(2)
    ctx.trace()
    ctx.state(got.key())


# ------------------------------------------------------------------- powers
def power_image(im, cross, keep):
    n = len(im.pol)
    pairs = [(i, i) for i in range(n)]
    if cross and n > 1:
        pairs += [(0, 1), (1, 0)]
    exp = im.copy()
    exp.type = "power"
    nm = [AS_XY.get(f, f) for f in im.pol]
    exp.pol = [POLNUM[nm[i] + nm[j]] for i, j in pairs]
    if keep:
        d = np.stack([im.data[:, i] * np.conj(im.data[:, j]) for i, j in pairs], axis=1)
    else:
        # the field along each component of the basis vectors
        comp = np.einsum("vf...,vc...->cf...", im.data, im.basis[:, :, None]) if False else None
        nb = im.basis[:, :, None]
        out = []
        for i, j in pairs:
            tot = 0
            for c in range(im.basis.shape[1]):
                fi = sum(im.data[v, i] * im.basis[v, c] for v in range(im.data.shape[0]))
                fj = sum(im.data[v, j] * im.basis[v, c] for v in range(im.data.shape[0]))
                tot = tot + fi * np.conj(fj)
            out.append(tot)
        d = np.array(out)[None]
        exp.nvec = 1
        exp.basis = None
    if not (cross and n > 1):
        d = d.real
    exp.data = d
    return exp


def run_power(case, ctx):
    _, kind, cross, keep, basis, xo, inpl = case
    b = get(kind, basis=basis)
    if xo:
        b.feed_array = np.array([{"x": "e", "y": "n"}[f] for f in b.feed_array])
    im = BeamImg(b)
    exp = power_image(im, cross, keep)
    fr = Frozen(b)
    g = b.efield_to_power(calc_cross_pols=bool(cross), keep_basis_vector=bool(keep), inplace=bool(inpl))
    if inpl:
        g = b
    else:
        fr.check(b, "efield_to_power")
    got = structure(g, "efield_to_power")
    compare(exp, got, "efield_to_power", tol=1e-12)
    require(g.feed_array is None and g.Nfeeds is None, "the power beam still has feeds")
    require((g.Ncomponents_vec is None) == (not keep), "number of vector components")
    ctx.step()
    ctx.trace()
    ctx.state(got.key())


def run_powerbad(case, ctx):
    _, kind, what = case
    b = get(kind.rstrip("3"))
    if kind.endswith("3"):
        b.Naxes_vec = 3
        b.data_array = np.concatenate([b.data_array, b.data_array[:1]])
        b.basis_vector_array = np.concatenate([b.basis_vector_array, b.basis_vector_array[:1]])
        b.check()
    fr = Frozen(b)
    try:
        getattr(b, what)(inplace=True)
    except (ValueError, NotImplementedError, IndexError):
        pass
    else:
        raise Violation(f"{what} accepted")
    fr.check(b, f"refused {what}")
    ctx.step()


SIG = [
    np.array([[1, 0], [0, 1]]),
    np.array([[1, 0], [0, -1]]),
    np.array([[0, 1], [1, 0]]),
    np.array([[0, -1j], [1j, 0]]),
]


def pstokes_image(im):
    exp = im.copy()
    exp.type = "power"
    exp.pol = [1, 2, 3, 4]
    exp.nvec = 1
    exp.basis = None
    d = np.zeros((1, 4) + im.data.shape[2:])
    for idx in np.ndindex(*im.data.shape[2:]):
        J = im.data[(slice(None), slice(None)) + idx]
        for k, s in enumerate(SIG):
            d[(0, k) + idx] = abs(0.5 * np.trace(s @ J @ s @ J.conj().T))
    exp.data = d
    return exp


def run_pst(case, ctx):
    _, kind, inpl = case
    b = get(kind)
    im = BeamImg(b)
    exp = pstokes_image(im)
    fr = Frozen(b)
    g = b.efield_to_pstokes(inplace=bool(inpl))
    if inpl:
        g = b
    else:
        fr.check(b, "efield_to_pstokes")
    got = structure(g, "efield_to_pstokes")
    compare(exp, got, "efield_to_pstokes", tol=1e-12)
    ctx.step()
    ctx.trace()
    ctx.state(got.key())


# ------------------------------------------------------------ interpolation
def bilin(im, az, za):
    """Bilinear interpolation by hand, azimuth periodic when the grid is a full circle."""
    v2, v1 = np.array(im.pix[0]), np.array(im.pix[1])
    d1 = v1[1] - v1[0]
    full = abs(len(v1) * d1 - 2 * np.pi) < 1e-9
    out = np.zeros(im.data.shape[:3] + (len(az),), dtype=im.data.dtype)
    for k, (a, z) in enumerate(zip(az, za)):
        j = min(max(int(np.floor((z - v2[0]) / (v2[1] - v2[0]) + 1e-12)), 0), len(v2) - 2)
        tz = (z - v2[j]) / (v2[j + 1] - v2[j])
        i = int(np.floor((a - v1[0]) / d1 + 1e-12))
        if full:
            ta = (a - v1[0]) / d1 - i
            i0, i1 = i % len(v1), (i + 1) % len(v1)
        else:
            i = min(max(i, 0), len(v1) - 2)
            ta = (a - v1[i]) / d1
            i0, i1 = i, i + 1
        D = im.data
        out[..., k] = (1 - tz) * ((1 - ta) * D[..., j, i0] + ta * D[..., j, i1]) + tz * ((1 - ta) * D[..., j + 1, i0] + ta * D[..., j + 1, i1])
    return out


def points(im, which):
    v2, v1 = np.array(im.pix[0]), np.array(im.pix[1])
    d1, d2 = v1[1] - v1[0], v2[1] - v2[0]
    full = abs(len(v1) * d1 - 2 * np.pi) < 1e-9
    t = {"node": (0.0, 0.0), "mid": (0.5, 0.5), "off": (0.25, 0.75), "az": (0.25, 0.0), "za": (0.0, 0.25), "wrap": (0.75, 0.25)}[which]
    a = v1 if full or t[0] == 0 else v1[:-1]
    z = v2 if t[1] == 0 else v2[:-1]
    A, Z = np.meshgrid(a + t[0] * d1, z + t[1] * d2)
    A, Z = A.ravel(), Z.ravel()
    if which == "wrap" and full:
        A = np.concatenate([A - (A > np.pi + 1) * 0, [-0.25 * d1, -1.5 * d1]])
        Z = np.concatenate([Z, [v2[0], v2[1]]])
    return A, Z


LIN = {"kx": 1, "ky": 1}


def angle_ref(im, az, za, opts):
    return bilin(im, az, za)


def run_ang(case, ctx):
    """Angle interpolation, splines of order one, and grid nodes with the default order."""
    _, kind, which, default, reuse = case
    b = get(kind)
    im = BeamImg(b)
    az, za = points(im, which)
    fr = Frozen(b)
    kw = {} if default else {"spline_opts": dict(LIN)}
    for rep in range(2 if reuse else 1):
        d, bv, bp = b.interp(az_array=az.copy(), za_array=za.copy(), reuse_spline=bool(reuse), return_bandpass=True, **kw)
        exp = bilin(im, az, za)
        require(d.shape == exp.shape, f"interpolated shape {d.shape}")
        if not np.allclose(d, exp, rtol=1e-9, atol=1e-9):
            k = np.argwhere(~np.isclose(d, exp, rtol=1e-9, atol=1e-9))[0]
            raise Violation(f"interpolation at az={az[k[-1]]:.4f} za={za[k[-1]]:.4f} (component {k[:3].tolist()}): {d[tuple(k)]}, expected {exp[tuple(k)]}")
        require(np.shape(bp) == (len(im.freq),) and np.array_equal(bp, im.f1["bandpass_array"]), f"bandpass {bp}")
        basis(bv, im, len(az))
        ctx.step()
    fr.check(b, "interp")
    ctx.trace()
    ctx.state(im.key())


def basis(bv, im, n):
    if im.basis is None:
        require(bv is None, "basis vectors of a scalar beam")
        return
    e = np.zeros((im.nvec, im.basis.shape[1], n))
    e[0, 0] = 1
    e[1, 1] = 1
    require(bv.shape == e.shape and np.array_equal(bv, e), "interpolated basis vectors")


def run_azpol(case, ctx):
    """Polarization choice: every ordered subset, arrays and new objects."""
    _, kind, perm, new = case
    b = get(kind)
    im = BeamImg(b)
    strs = [PSTR[im.pol[i]] for i in perm]
    if new == 2:
        # orientation names
        strs = ["".join({"x": "e", "y": "n"}[c] for c in s) for s in strs]
    if im.hpx:
        az, za, W = hpx_points(im, "off")
        az, za = az[:5], za[:5]
        exp = hpx_ref(im, W[:5])
        d, bv = b.interp(az_array=az, za_array=za, polarizations=strs)
    else:
        az, za = points(im, "off")
        exp = bilin(im, az, za)
        d, bv = b.interp(az_array=az, za_array=za, polarizations=strs, spline_opts=dict(LIN))
    exp = exp[:, perm]
    require(d.shape == exp.shape, f"shape {d.shape}")
    require(np.allclose(d, exp, rtol=1e-9, atol=1e-9), f"interpolated polarizations {strs} differ")
    ctx.step()
    ctx.trace()


def run_grid(case, ctx):
    """A new object on a finer grid: bilinear values, labels and all else kept."""
    _, kind, order, sub = case
    b = get(kind)
    im = BeamImg(b)
    if im.hpx:
        a = np.linspace(0.1, 6.0, 5)
        z = np.linspace(0.2, 2.8, 4)
        A, Z = np.meshgrid(a, z)
        W = weights(im, A.ravel(), Z.ravel())
        vals = hpx_ref(im, W)
        g = b.interp(az_array=a, za_array=z, az_za_grid=True, new_object=True)
        d2, bv2 = b.interp(az_array=a, za_array=z, az_za_grid=True)
    else:
        v2, v1 = np.array(im.pix[0]), np.array(im.pix[1])
        a = np.linspace(v1[0], v1[-1], 2 * len(v1) - 1)
        z = np.linspace(v2[0], v2[-1], 2 * len(v2) - 1)
        if sub:
            a, z = a[1::3], z[::2]
        A, Z = np.meshgrid(a, z)
        vals = bilin(im, A.ravel(), Z.ravel())
        g = b.interp(az_array=a, za_array=z, az_za_grid=True, new_object=True, spline_opts=dict(LIN))
        d2, bv2 = b.interp(az_array=a, za_array=z, az_za_grid=True, spline_opts=dict(LIN))
    require(np.allclose(d2, vals, rtol=1e-9, atol=1e-9), "interpolation to a grid")
    exp = im.copy()
    exp.hpx = False
    exp.csys = "az_za"
    exp.nside = exp.ordering = None
    exp.pix = [list(z), list(a)]
    exp.data = vals.reshape(vals.shape[:3] + (len(z), len(a)))
    if im.basis is not None:
        exp.basis = np.zeros((im.nvec, im.basis.shape[1], len(z), len(a)))
        exp.basis[0, 0] = 1
        exp.basis[1, 1] = 1
    got = structure(g, "interp to a grid")
    compare(exp, got, "new gridded object", tol=1e-9, order=True)
    require(g.pixel_array is None and g.Npixels is None, "gridded object has pixels")
    compare(im, BeamImg(b), "interp", order=True)
    ctx.step(2)
    ctx.trace()
    ctx.state(got.key())


def run_poly(case, ctx):
    """Default splines reproduce cubic polynomials of both angles exactly."""
    _, kind, which = case
    b = get(kind, n1=6, n2=5)
    im = BeamImg(b)
    v2, v1 = np.array(im.pix[0]), np.array(im.pix[1])

    def f(v, p, c, az, za):
        s = 1 + v + 2 * p + 3 * c
        r = 1 + s * az - za * az**2 + 0.5 * za**3 * s + 0.25 * az**3 * za**2
        i = -s + za * az + 0.3 * az**3 - za**2 * s
        return r + 1j * i if np.iscomplexobj(im.data) else np.abs(r) * 0 + r

    A, Z = np.meshgrid(v1, v2)
    d = np.array(b.data_array)
    for v, p, c in np.ndindex(*d.shape[:3]):
        d[v, p, c] = f(v, p, c, A, Z)
    b.data_array = d
    az, za = points(im, which)
    got = b.interp(az_array=az, za_array=za)[0]
    for v, p, c in np.ndindex(*d.shape[:3]):
        e = f(v, p, c, az, za)
        require(np.allclose(got[v, p, c], e, rtol=1e-8, atol=1e-8), "a cubic polynomial is not reproduced")
    ctx.step()
    ctx.trace()
    ctx.state(BeamImg(b).key())


def run_dom(case, ctx):
    """Far outside the grid is refused unless the caller turns the check off."""
    _, kind, az, za, many = case
    b = get(kind)
    a = np.array([1.1] * (40 if many else 1) + [az])
    z = np.array([0.5] * (40 if many else 1) + [za])
    try:
        b.interp(az_array=a, za_array=z)
    except ValueError:
        pass
    else:
        raise Violation(f"point az={az} za={za} outside the beam was interpolated")
    b.interp(az_array=a, za_array=z, check_azza_domain=False)
    ctx.step(2)
    ctx.trace()


# ---------------------------------------------------------------- frequency
def fref(im, freqs, kind, tol=1.0):
    src = np.array(im.freq)
    near = np.array([np.argmin(np.abs(src - f)) for f in freqs])
    out = im.take("f", near)
    out.freq = [float(f) for f in freqs]
    if all(np.min(np.abs(src - f)) < tol for f in freqs) or kind == "nearest":
        return out
    o = np.argsort(src)
    s = src[o]
    require(kind == "linear", "reference")
    for n, f in enumerate(freqs):
        j = min(max(int(np.searchsorted(s, f, side="right")) - 1, 0), len(s) - 2)
        t = (f - s[j]) / (s[j + 1] - s[j])
        a, c = o[j], o[j + 1]
        out.data[:, :, n] = (1 - t) * im.data[:, :, a] + t * im.data[:, :, c]
        out.f1["bandpass_array"][n] = (1 - t) * im.f1["bandpass_array"][a] + t * im.f1["bandpass_array"][c]
        if im.coup is not None:
            out.coup[..., n] = (1 - t) * im.coup[..., a] + t * im.coup[..., c]
    return out


def run_freq(case, ctx):
    _, kind, fr_, mode, new = case
    b = get(kind)
    im = BeamImg(b)
    s = sorted(im.freq)
    fq = []
    for i, t in fr_:
        if i == len(s) - 1:
            fq.append(s[i] - (abs(t) if abs(t) > 1e-3 else 0))
        else:
            fq.append(s[i] + t * (s[i + 1] - s[i]) if abs(t) <= 1 else s[i] + t / 10.0)
    fq = np.array(fq)
    exp = fref(im, fq, mode)
    fz = Frozen(b)
    if new:
        g = b.interp(freq_array=fq.copy(), freq_interp_kind=mode, new_object=True)
        for k in exp.f1:
            if k != "bandpass_array":
                exp.f1[k] = None
        exp.s = None
        got = structure(g, "interp in frequency")
        compare(exp, got, f"frequency interpolation ({mode})", tol=1e-12, order=True)
    else:
        kw = {"return_coupling": True} if im.coup is not None else {}
        r = b.interp(freq_array=fq.copy(), freq_interp_kind=mode, return_bandpass=True, **kw)
        require(r[0].shape == exp.data.shape and np.allclose(r[0], exp.data, rtol=1e-12), f"frequency interpolation ({mode}) to {fq}")
        require(np.allclose(r[2], exp.f1["bandpass_array"], rtol=1e-12) and r[2].shape == fq.shape, "interpolated bandpass")
        if im.coup is not None:
            require(np.allclose(r[3], exp.coup, rtol=1e-12), "interpolated coupling matrix")
        require((r[1] is None) == (im.basis is None) and (r[1] is None or np.array_equal(r[1], im.basis)), "basis vectors")
    fz.check(b, "interp")
    ctx.step()
    ctx.trace()
    ctx.state(exp.key())


def run_fa(case, ctx):
    """Frequency and angle together equal one after the other."""
    _, kind, which, mode, via = case
    b = get(kind)
    im = BeamImg(b)
    s = sorted(im.freq)
    fq = np.array([s[1], s[0] + 0.25 * (s[1] - s[0]), s[2]]) if via != "near" else np.array([s[2], s[0] + 0.3])
    fe = fref(im, fq, mode)
    if im.hpx:
        az, za, W = hpx_points(im, which)
        exp = hpx_ref(fe, W)
        kw = {}
    else:
        az, za = points(im, which)
        exp = bilin(fe, az, za)
        kw = {"spline_opts": dict(LIN)}
    for rep in range(2):
        d, bv, bp = b.interp(az_array=az, za_array=za, freq_array=fq, freq_interp_kind=mode, return_bandpass=True, reuse_spline=rep == 1, **kw)
        require(d.shape == exp.shape and np.allclose(d, exp, rtol=1e-9, atol=1e-9), "interpolation in frequency and angle")
        require(np.allclose(bp, fe.f1["bandpass_array"], rtol=1e-12), "bandpass")
        ctx.step()
    ctx.trace()


def run_fpoly(case, ctx):
    _, kind, mode = case
    b = get(kind, nf=6)
    f = (b.freq_array - 1e8) / 1e6
    deg = {"cubic": 3, "quadratic": 2, "linear": 1, None: 3}[mode]
    b.freq_array = 1e8 + 1e6 * f
    sh = [1] * b.data_array.ndim
    sh[2] = -1

    def poly(x):
        return 1 + sum((k + 1) * 0.1 * x**k for k in range(1, deg + 1))

    base = np.array(b.data_array[:, :, :1])
    b.data_array = base * poly(f).reshape(sh)
    b.bandpass_array = poly(f) * 2
    x = np.array([0.25, 4.75, 2.0, 1.5])
    kw = {} if mode is None else {"freq_interp_kind": mode}
    d, _, bp = b.interp(freq_array=1e8 + 1e6 * x, return_bandpass=True, **kw)
    require(np.allclose(d, base * poly(x).reshape(sh), rtol=1e-9), f"{mode} interpolation of a polynomial")
    require(np.allclose(bp, poly(x) * 2, rtol=1e-9), "bandpass polynomial")
    ctx.step()
    ctx.trace()


def run_fbad(case, ctx):
    _, kind, fq, nf = case
    b = get(kind, nf=nf)
    fr = Frozen(b)
    try:
        b.interp(freq_array=np.array(fq), new_object=True)
    except ValueError:
        fr.check(b, "refused interp")
    else:
        raise Violation(f"frequencies {fq} outside the beam were interpolated")
    ctx.step()


# ------------------------------------------------------------------ healpix
def weights(im, az, za):
    import astropy.units as u
    from astropy_healpix import HEALPix

    hp = HEALPix(nside=im.nside, order=im.ordering)
    idx, w = hp.bilinear_interpolation_weights(np.asarray(az) * u.rad, (np.pi / 2 - np.asarray(za)) * u.rad)
    return [(idx[:, k], w[:, k]) for k in range(len(az))]


def hpx_points(im, which):
    import astropy.units as u
    from astropy_healpix import HEALPix

    hp = HEALPix(nside=im.nside, order=im.ordering)
    lon, lat = hp.healpix_to_lonlat(np.arange(hp.npix))
    az, za = lon.to_value(u.rad), np.pi / 2 - lat.to_value(u.rad)
    if which != "node":
        az = (az + 0.21) % (2 * np.pi)
        za = np.clip(za + 0.13, 0, np.pi)
    W = weights(im, az, za)
    if which == "node":
        W = [(np.array([k]), np.array([1.0])) for k in range(hp.npix)]
    return az, za, W


def hpx_ref(im, W):
    pos = {p: i for i, p in enumerate(im.pix[0])}
    out = np.zeros(im.data.shape[:3] + (len(W),), dtype=im.data.dtype)
    for k, (idx, w) in enumerate(W):
        for p, x in zip(idx, w):
            out[..., k] += x * im.data[..., pos[int(p)]]
    return out


def run_hpx(case, ctx):
    _, kind, which, nside = case
    b = get(kind, nside=nside)
    im = BeamImg(b)
    az, za, W = hpx_points(im, which)
    exp = hpx_ref(im, W)
    fr = Frozen(b)
    d, bv, bp = b.interp(az_array=az, za_array=za, return_bandpass=True)
    require(d.shape == exp.shape and np.allclose(d, exp, rtol=1e-9, atol=1e-9), f"healpix interpolation ({which})")
    require(np.array_equal(bp, im.f1["bandpass_array"]), f"bandpass {bp}")
    basis(bv, im, len(az))
    fr.check(b, "interp")
    ctx.step()
    ctx.trace()
    ctx.state(im.key())


def run_hnew(case, ctx):
    """New healpix objects from grids and maps: every pixel list gives the values at those pixel centres."""
    _, kind, nside, inds = case
    b = get(kind)
    im = BeamImg(b)
    import astropy.units as u
    from astropy_healpix import HEALPix

    hp = HEALPix(nside=nside, order="ring")
    ii = np.arange(hp.npix) if inds is None else np.array(inds)
    lon, lat = hp.healpix_to_lonlat(ii)
    az, za = lon.to_value(u.rad), np.pi / 2 - lat.to_value(u.rad)
    if im.hpx:
        vals = hpx_ref(im, weights(im, az, za))
        kw = {}
    else:
        vals = bilin(im, az, za)
        kw = {"spline_opts": dict(LIN)}
    g = b.interp(healpix_nside=nside, healpix_inds=None if inds is None else ii, new_object=True, **kw)
    exp = im.copy()
    exp.hpx = True
    exp.csys = "healpix"
    exp.nside, exp.ordering = nside, "ring"
    exp.pix = [[int(i) for i in ii]]
    exp.data = vals
    if im.basis is not None:
        exp.basis = np.zeros((im.nvec, im.basis.shape[1], len(ii)))
        exp.basis[0, 0] = 1
        exp.basis[1, 1] = 1
    got = structure(g, "interp to healpix")
    compare(exp, got, "new healpix object", tol=1e-9, order=True)
    require(g.axis1_array is None and g.Naxes1 is None and g.axis2_array is None and g.Naxes2 is None, "healpix object has image axes")
    ctx.step()
    ctx.trace()
    ctx.state(got.key())


def run_tohpx(case, ctx):
    _, kind, nside, inpl = case
    b = get(kind, n1=12 if kind[0] == "a" else 8, n2=7)
    im = BeamImg(b)
    import astropy.units as u
    from astropy_healpix import HEALPix

    fr = Frozen(b)
    g = b.to_healpix(nside=nside, inplace=bool(inpl))
    if inpl:
        g = b
    else:
        fr.check(b, "to_healpix")
    got = structure(g, "to_healpix")
    v2, v1 = np.array(im.pix[0]), np.array(im.pix[1])
    if nside is None:
        res = min(v1[1] - v1[0], v2[1] - v2[0])
        n = 1
        while np.sqrt(np.pi / 3) / n > res:
            n *= 2
        require(g.nside == n, f"default nside {g.nside}, expected {n}")
    else:
        require(g.nside == nside, "nside")
    hp = HEALPix(nside=g.nside, order="ring")
    require(g.ordering == "ring", "ordering")
    res = hp.pixel_resolution.to_value(u.rad)
    lon, lat = hp.healpix_to_lonlat(np.arange(hp.npix))
    az, za = lon.to_value(u.rad), np.pi / 2 - lat.to_value(u.rad)
    want = []
    sure = []
    for p in range(hp.npix):
        dz = np.abs(za[p] - v2)
        da = np.abs(az[p] - v1)
        da = np.minimum(da, 2 * np.pi - da)
        d2 = np.min(dz[:, None] ** 2 + da[None] ** 2)
        if abs(d2 - 4 * res**2) < 1e-9:
            continue
        sure.append(p)
        if d2 < 4 * res**2:
            want.append(p)
    have = [p for p in got.pix[0] if p in set(sure)]
    require(have == want, f"to_healpix kept pixels {have[:6]}..., expected {want[:6]}...")
    # the values are the interpolated ones
    src = beam.make(kind, 0, n1=12 if kind[0] == "a" else 8, n2=7)
    px = np.array(got.pix[0])
    d, bv = src.interp(az_array=az[px], za_array=za[px], check_azza_domain=False)
    require(np.allclose(d, got.data, rtol=1e-9, atol=1e-9), "to_healpix values are not the interpolated ones")
    exp = im.copy()
    exp.hpx, exp.csys, exp.nside, exp.ordering, exp.pix, exp.data = True, "healpix", g.nside, "ring", got.pix, got.data
    if im.basis is not None:
        exp.basis = np.zeros((im.nvec, im.basis.shape[1], len(px)))
        exp.basis[0, 0] = 1
        exp.basis[1, 1] = 1
    compare(exp, got, "to_healpix", tol=1e-9, order=True)
    # again: nothing to do
    k = got.key()
    g.to_healpix()
    require(BeamImg(g).key() == k, "to_healpix of a healpix beam")
    ctx.step(2)
    ctx.trace()
    ctx.state(k)


def run_area(case, ctx):
    _, kind, nside, pol = case
    b = get(kind, nside=nside)
    b.peak_normalize()
    im = BeamImg(b)
    i = im.pol.index(pol)
    m = im.data[0, i]
    px = 4 * np.pi / (12 * nside**2)
    for lab in (pol, PSTR[pol], PSTR[pol].upper()):
        a = b.get_beam_area(lab)
        require(np.allclose(a, [sum(m[f]) * px for f in range(len(im.freq))], rtol=1e-12), "beam area")
        a = b.get_beam_sq_area(lab)
        require(np.allclose(a, [sum(x * x for x in m[f]) * px for f in range(len(im.freq))], rtol=1e-12), "beam squared area")
    for bad in ("lr" if -4 not in im.pol else "xy", 9):
        for fn in (b.get_beam_area, b.get_beam_sq_area):
            try:
                fn(bad)
            except (ValueError, KeyError):
                pass
            else:
                raise Violation("area of an absent polarization")
    ctx.step(2)
    ctx.trace()


def run_areabad(case, ctx):
    _, kind, norm = case
    b = get(kind)
    if norm:
        b.peak_normalize()
    for fn in (b.get_beam_area, b.get_beam_sq_area):
        try:
            fn("xx")
        except ValueError:
            pass
        else:
            raise Violation("area of a beam that has none was computed")
    ctx.step()


def run_refuse(case, ctx):
    """Requests that have no defined answer are refused and leave the object alone."""
    _, kind, why = case
    b = get(kind)
    if why == "newpts":
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]), new_object=True)
    elif why == "nside":
        f = lambda: b.interp(healpix_inds=np.array([1]))
    elif why == "both":
        f = lambda: b.interp(healpix_nside=1, az_array=np.array([1.1]), za_array=np.array([0.5]))
    elif why == "coupling":
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]), return_coupling=True)
    elif why == "gridless":
        f = lambda: b.interp(az_za_grid=True)
    elif why == "func":
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]), interpolation_function="nope")
    elif why == "wrongfunc":
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]), interpolation_function="az_za_simple" if kind[0] in "hnp" else "healpix_simple")
    elif why == "pol":
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]), polarizations=["lr"])
    elif why in ("basis+", "basis-", "basis2"):
        i = (0, 1) if why != "basis2" else (1, 0)
        b.basis_vector_array[i + (0,) * (b.basis_vector_array.ndim - 2)] = 0.5 if why == "basis+" else -0.5
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]))
    elif why == "order":
        b.pixel_array = b.pixel_array[::-1].copy()
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]))
    elif why == "partial":
        f = lambda: b.interp(az_array=np.array([1.1]), za_array=np.array([0.5]))
    elif why == "ortho":
        f = lambda: b.interp(az_array=np.array([0.1]), za_array=np.array([0.1]))
    fr = Frozen(b)
    try:
        f()
    except (ValueError, NotImplementedError, AssertionError):
        pass
    else:
        raise Violation(f"interp ({why}) was accepted")
    fr.check(b, f"refused interp ({why})")
    ctx.step()
    ctx.trace()


# --------------------------------------------------- histories with caching
OPS = ("i1", "i3", "ip", "if", "ifc", "peak", "sel", "self", "pow", "pst", "add", "selax")


def apply(b, op, reuse, im=None):
    """Apply an operation; interpolations return their result."""
    hp = b.pixel_coordinate_system == "healpix"
    if b.pixel_coordinate_system == "az_za":
        az, za = np.array([1.3, 1.6]), np.array([0.6, 0.4])
    if op == "i1":
        return b.interp(az_array=az, za_array=za, spline_opts=dict(LIN), reuse_spline=reuse)[0]
    if op == "i3":
        return b.interp(az_array=az, za_array=za, reuse_spline=reuse, spline_opts={"kx": 2, "ky": 2})[0]
    if op == "ip":
        if b.beam_type != "power":
            return None
        p = PSTR[int(b.polarization_array[-1])]
        return b.interp(az_array=az, za_array=za, reuse_spline=reuse, polarizations=[p], spline_opts=dict(LIN))[0]
    if op in ("if", "ifc"):
        if b.Nfreqs < 3:
            return None
        f = np.array([b.freq_array.min() + 3e5])
        return b.interp(az_array=az, za_array=za, reuse_spline=reuse, freq_array=f, freq_interp_kind="linear" if op == "if" else "quadratic", spline_opts=dict(LIN))[0]
    if op == "peak":
        b.peak_normalize()
    elif op == "sel":
        if b.beam_type == "power":
            b.select(polarizations=[int(b.polarization_array[-1])])
        else:
            b.select(feeds=[str(b.feed_array[-1])])
    elif op == "self":
        b.select(freq_chans=[b.Nfreqs - 1])
    elif op == "selax":
        b.select(axis1_inds=list(range(1, b.Naxes1)))
    elif op == "pow":
        if b.beam_type == "efield":
            b.efield_to_power()
    elif op == "pst":
        if b.beam_type == "efield" and b.Nfeeds == 2:
            b.efield_to_pstokes()
    elif op == "add":
        c = b.copy()
        c.freq_array = c.freq_array - 1e7
        c.data_array = c.data_array * 3
        b += c
    return None


def run_hist(case, ctx):
    _, kind, ops = case
    b = get(kind, n1=6, n2=5)
    for n, op in enumerate(ops):
        fresh = b.copy()
        if hasattr(fresh, "saved_interp_functions"):
            del fresh.saved_interp_functions
        r = apply(b, op, True)
        if op[0] == "i" and r is not None:
            e = apply(fresh, op, False)
            require(np.shape(e) == np.shape(r) and np.allclose(e, r, rtol=1e-9, atol=1e-9), f"interpolation {op} after {ops[:n]} differs from a fresh object's")
        ctx.step()
    ctx.trace()
    ctx.state(BeamImg(b).key())


EF = ("ae", "af", "ar", "a1", "at", "hr", "hf", "pe", "ce", "oe", "aed")


def cases(tier):
    out = []
    for k in ("ae", "aw", "as", "hx", "pf", "ab", "ox", "aePd", "hq"):
        for n in ("physical", "peak", "solid_angle"):
            out.append(["peak", k, n])
    for k in EF:
        for cross in (0, 1):
            for keep in (0, 1):
                for basis_ in (0, 1):
                    out.append(["power", k, cross, keep, basis_, 0, (cross + keep) % 2])
                    if k[1] in "ef1":
                        out.append(["power", k, cross, keep, basis_, 1, (cross + keep + 1) % 2])
    for k in ("ae", "af", "hf", "pe", "ce", "at", "oe"):
        for i in (0, 1):
            out.append(["pst", k, i])
    for k in ("aw", "aeP", "ae3", "hr3"):
        out.append(["powerbad", k, "efield_to_power"])
    for k in ("aw", "hs", "ae3", "a1"):
        out.append(["powerbad", k, "efield_to_pstokes"])
    G = ("ae", "cf", "aw", "cx", "as", "cb", "ar", "aed", "cwd", "at", "a1", "aeP")
    for k in G:
        for w in ("node", "mid", "off", "az", "za", "wrap"):
            for r in (0, 1):
                out.append(["ang", k, w, 0, r])
        out.append(["ang", k, "node", 1, 0])
        out.append(["ang", k, "node", 1, 1])
        for o in (0, 1):
            out.append(["grid", k, 0, o])
    for k in ("hr", "nw", "he", "nx"):
        out.append(["grid", k, 0, 0])
    for k in ("aw", "cx", "as", "cb", "hw", "nx", "hs", "aq"):
        n = len(beam.POLS[k[1]])
        for m in range(1, n + 1):
            for p in itertools.permutations(range(n), m):
                out.append(["azpol", k, list(p), 0])
                if k[1] in "wxb":
                    out.append(["azpol", k, list(p), 2])
    for k in ("ce", "cx", "cw", "cb"):
        for w in ("node", "mid", "off", "az", "za"):
            out.append(["poly", k, w])
    for k, pts in (("ce", ((4.5, 0.5), (0.1, 0.5), (1.1, 2.5))), ("aw", ((1.0, 3.1), (12.0, 0.5), (-7.0, 0.5)))):
        for a, z in pts:
            for m in (0, 1):
                if k == "aw" and a == 1.0:
                    z = 4.5
                out.append(["dom", k, a, z, m])
    FK = ("ae", "hw", "aePd", "cxd", "pf", "nb", "aeu", "ox")
    tpts = [(0, 0.0), (1, 0.0), (2, 0.0), (0, 0.25), (1, 0.5), (0, 5.0), (1, -5.0)]
    for k in FK:
        if k[0] in "po":
            continue
        for mode in ("linear", "nearest"):
            for new in (0, 1):
                for m in (1, 2, 3) if tier == "thorough" else (1, 2):
                    for sel in itertools.permutations(tpts, m) if m < 3 else itertools.combinations(tpts, 3):
                        out.append(["freq", k, [list(s) for s in sel], mode, new])
    for k in ("ae", "cw", "hr", "nx", "aed"):
        for w in ("node", "off"):
            for mode, via in (("linear", "lin"), ("nearest", "lin"), ("linear", "near")):
                out.append(["fa", k, w, mode, via])
    for k in ("ae", "hw", "cx"):
        for mode in ("cubic", "quadratic", "linear", None):
            out.append(["fpoly", k, mode])
        for fq in ([9.9e7], [1.03e8], [1e8, 1.1e8], [1.005e8, 9.95e7]):
            out.append(["fbad", k, fq, 3])
        out.append(["fbad", k, [1.001e8], 1])
    for k in ("hr", "nf", "hw", "nx", "hs", "nb", "he", "ht"):
        for w in ("node", "off"):
            for ns in (1, 2) + ((4,) if tier == "thorough" else ()):
                out.append(["hpx", k, w, ns])
    for k in ("hr", "nw", "hs"):
        for ns in (1, 2):
            for inds in (None, [0], [5, 2, 7], [11, 3]):
                out.append(["hnew", k, ns, inds])
    for k in ("ae", "aw", "as", "ab"):
        for ns, inds in ((1, [0]), (2, [0, 4, 5]), (2, [9, 1, 3]), (2, list(range(20)))):
            out.append(["hnew", k, ns, inds])
    for k in ("ae", "aw", "cx", "ab", "cf"):
        for ns in (None, 2, 4, 8):
            if ns == 2 and k[0] == "c":
                continue  # coarser than the grid: pixels outside the grid are refused
            for i in (0, 1):
                out.append(["tohpx", k, ns, i])
    for k in ("hw", "nx", "hs", "hq"):
        for p in beam.POLS[k[1]]:
            for ns in (1, 2):
                out.append(["area", k, ns, p])
    for k, n in (("hw", 0), ("aw", 1), ("hr", 1), ("nb", 1)):
        out.append(["areabad", k, n])
    for k in ("ae", "hr", "aw", "nx"):
        ws = ["newpts", "nside", "both", "coupling", "gridless", "func", "wrongfunc"]
        if k[1] in "wx":
            ws.append("pol")
        else:
            ws += ["basis+", "basis-", "basis2"]
        if k[0] in "hn":
            ws.append("order")
        out += [["refuse", k, w] for w in ws]
    out += [["refuse", "pf", "partial"], ["refuse", "pw", "partial"], ["refuse", "oe", "ortho"]]
    dep = 3
    for k in ("ae", "aw", "af") if tier == "thorough" else ("ae", "aw"):
        for first in ("i1", "i3", "if", "ip"):
            for mid in itertools.chain.from_iterable(itertools.product(OPS, repeat=d) for d in range(0, 2 if tier == "quick" else 3)):
                for last in ("i1", "ip", "ifc"):
                    out.append(["hist", k, [first, *mid, last]])
    return out


def run(case, ctx):
    {
        "peak": run_peak, "power": run_power, "powerbad": run_powerbad, "pst": run_pst, "ang": run_ang, "azpol": run_azpol, "grid": run_grid,
        "poly": run_poly, "dom": run_dom, "freq": run_freq, "fa": run_fa, "fpoly": run_fpoly, "fbad": run_fbad, "hpx": run_hpx, "hnew": run_hnew,
        "tohpx": run_tohpx, "area": run_area, "areabad": run_areabad, "refuse": run_refuse, "hist": run_hist,
    }[case[0]](case, ctx)
