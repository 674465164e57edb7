"""C36: geometry: geodetic/local/rotated coordinates, baseline projections, sidereal times, apparent
positions, frame angles, ephemerides and tracks against their definitions, row by row."""

import itertools
import warnings

import numpy as np

from mc import gen
from mc.core import expect_raises as _expect, require
from mc.model import Frozen

ID = "C36"
BOUNDS = (
    "Earth and four lunar ellipsoids; 9 latitudes x 9 longitudes x 4 heights (poles, antimeridian, equator), given one by one, as one-row and many-row arrays; every local "
    "displacement in {-3e3, 0, 30}^3 about 12 sites, by location object or by numbers; baseline projections in every mode of calc_uvw for every sequence of three pointing states from an "
    "alphabet of eight (equal hour angles with other orientations, repeated and zero states), with and without frame angles; sidereal times for eight time layouts (unsorted, repeated, "
    "0-d, 2-d) x sites x libraries; apparent places and their inverses for scalar and array positions x times x libraries x space motions; frame angles for every sequence of three "
    "(ra, dec, time) from a 2x2x2 grid; ephemerides of 1-6 points with every placement of requested times, sorted or not, across RA 0; tracks from positions or uvws"
)
ASSUMPTIONS = [
    "astropy's SkyCoord, EarthLocation, Time and lunarsky's counterparts are the reference",
    "proper motions are given at J2000; the NOVAS library's sidereal time needs an IERS table absent here and is not explored",
]

DEG = np.pi / 180
LATS = [-90, -89.999, -60, -30.7, -1e-7, 0, 45, 89, 90]
LONS = [-180, -90, -1e-7, 0, 21.4, 90, 179.9, 180, 270]
ALTS = [-400.0, 0.0, 100.0, 5000.0]
BODIES = [None, "SPHERE", "GSFC", "GRAIL23", "CE-1-LAM-GEO"]
SITES = [(-30.72, 21.43, 1073.0), (38.4, -118.1, 1222.0), (0.0, 0.0, 0.0), (-89.9, 120.0, 2800.0), (67.0, 180.0, 10.0), (19.8, -155.5, 4080.0)]
T0 = 2457458.1
TLAY = {
    "sorted": [0, 0.01, 0.02], "unsorted": [0.02, 0, 0.01], "repeat": [0, 0, 0.01, 0.01], "interleave": [0.3, 0, 0.3, 0], "one": [0.1], "0d": 0.1, "2d": [[0, 0.1], [0.1, 0.2]],
    "days": [200.4, 0, 365.25],
}
STATES = [  # (lst, app_ra, app_dec, frame_pa)
    (1.0, 0.3, 0.2, 0.0), (1.0, 0.3, 0.2, 0.4), (1.5, 0.8, 0.2, 0.4), (1.0, 0.3, -0.7, 0.1), (0.0, 0.0, 0.0, 0.0), (0.7, 0.7, 0.0, -0.3), (6.1, 0.2, 1.2, 3.0), (1.0, 1.0, -0.5, 0.0),
]
ANTPOS = np.array([[10.0, -4.0, 3.0], [-25.0, 60.0, 7.0], [100.0, 1.0, -80.0]])
ANUM = np.array([7, 2, 5])


def cases(tier):
    out = []
    for b in range(len(BODIES)):
        for shape in ("each", "rows", "onerow"):
            out.append(["lla", b, shape])
        for how in ("loc", "nums", "default"):
            for shape in ("each", "rows"):
                out.append(["enu", b, how, shape])
        out.append(["surface", b])
    out.append(["rot"])
    out.append(["polar"])
    seqs = list(itertools.product(range(len(STATES)), repeat=3))
    for i in range(0, len(seqs), 16):
        for pa in (True, False):
            out.append(["uvw", i, 16, pa])
    for i in range(0, len(seqs), 32):
        for mode in ("fromenu", "toenu", "uvw2uvw", "paonly"):
            out.append(["uvwconv", i, 32, mode])
    for lay in TLAY:
        for s in range(len(SITES)):
            for how in ("loc", "tuple", "kw"):
                for lib in (None, "erfa", "astropy"):
                    out.append(["lst", lay, s, how, lib])
        for b in (1, 2, 3, 4):
            for how in ("loc", "tuple", "kw"):
                out.append(["lstmoon", lay, b, how])
    for s in range(3):
        out.append(["lstcheck", s])
    MOT = ["none", "pm", "dist", "vrad", "all"]
    for lib, mot, form, s in itertools.product(("erfa", "astropy", "novas", None), MOT, ("s1", "sn", "n1", "nn", "ss"), (0, 3)):
        if mot == "vrad" and lib == "astropy":
            continue  # astropy itself has no radial velocity without a distance
        out.append(["app", lib, mot, form, s])
    for lib, form, s, how in itertools.product(("erfa", "astropy", None), ("s1", "sn", "n1", "nn"), (0, 1, 5), ("loc", "tuple")):
        out.append(["back", lib, form, s, how])
    FR = [("icrs", None), ("fk5", 2000.0), ("fk5", 1975.0), ("fk5", "J1990"), ("fk4", 1950.0), ("galactic", None), ("supergalactic", None), ("gcrs", None), ("cirs", None)]
    for fi, fo in itertools.product(range(len(FR)), repeat=2):
        out.append(["sid", FR[fi], FR[fo]])
    for typ, lay, fr, s in itertools.product(("sidereal", "driftscan", "unprojected", "ephem"), list(TLAY)[:6], (("icrs", None), ("fk5", 1975.0), ("galactic", None)), (0, 4)):
        for lon in ("scalar", "array"):
            for lst in (False, True):
                if (typ == "unprojected" and lon == "array") or (typ in ("driftscan", "unprojected") and fr[0] != "icrs") or (typ in ("sidereal", "ephem") and lst):
                    continue
                out.append(["appc", typ, lay, list(fr), s, lon, lst])
    g = list(itertools.product(range(8), repeat=3))
    for i in range(0, len(g), 16):
        for fr in (("icrs", None), ("fk5", 1950.0), ("galactic", None)):
            out.append(["fpa", i, 16, list(fr)])
    for n, order, wrap, extra in itertools.product((1, 2, 3, 4, 6), ("inc", "dec", "mix"), ("no", "up", "down"), (False, True)):
        out.append(["ephem", n, order, wrap, extra])
    for typ, lay, fr, uvw, force, lonarr in itertools.product(("sidereal", "driftscan"), ("sorted", "unsorted", "one", "interleave"), (("icrs", None), ("fk5", 1950.0), ("galactic", None)), ("pos", "nums", "enu"), (False, True), (False, True)):
        if typ == "driftscan" and fr[0] != "icrs":
            continue
        out.append(["track", typ, lay, list(fr), uvw, force, lonarr])
    for b in range(5):
        out.append(["antpos", b])
    return out


def expect_raises(func, what, exc):
    _expect(func, exc, what)


def rng_close(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    require(np.all(np.isfinite(a)), f"{what}: not finite: {a}")
    require(np.all(np.abs(a - b) <= tol), f"{what}: {a} instead of {b} (off by {np.max(np.abs(a - b)) if a.size else 0})")


def ang_close(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    d = np.abs(np.angle(np.exp(1j * (a - b))))
    require(np.all(np.isfinite(a)) and np.all(d <= tol), f"{what}: {a} instead of {b}")


def unit(lon, lat):
    return np.array([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat) + 0 * lon])


def sky_close(a, b, tol, what):
    """Two (lon, lat) pairs point the same way."""
    require(np.shape(a[0]) == np.shape(b[0]) and np.shape(a[1]) == np.shape(b[1]), f"{what}: shapes {np.shape(a[0])}, {np.shape(a[1])} instead of {np.shape(b[0])}")
    ua, ub = unit(np.asarray(a[0]), np.asarray(a[1])), unit(np.asarray(b[0]), np.asarray(b[1]))
    d = np.sqrt(((ua - ub) ** 2).sum(axis=0))
    require(np.all(d <= tol), f"{what}: {a} instead of {b} (off by {np.max(d)} rad)")


def loc_of(body, lat, lon, alt):
    from astropy.coordinates import EarthLocation
    from lunarsky import MoonLocation

    if body is None:
        return EarthLocation.from_geodetic(lon, lat, alt)
    return MoonLocation.from_selenodetic(lon, lat, alt, ellipsoid=body)


def xyz_of(loc):
    return np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])


def enu_axes(lat, lon):
    e = np.array([-np.sin(lon), np.cos(lon), 0])
    n = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    u = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    return np.array([e, n, u])


def uvw_axes(ha, dec, pa):
    """u, v, w unit vectors in local equatorial axes (x on the meridian, y east, z north), for hour angle
    `ha`; v leans by `pa` from apparent north."""
    w = np.array([np.cos(dec) * np.cos(ha), -np.cos(dec) * np.sin(ha), np.sin(dec)])
    u = np.array([np.sin(ha), np.cos(ha), 0])
    v = np.array([-np.sin(dec) * np.cos(ha), np.sin(dec) * np.sin(ha), np.cos(dec)])
    return np.array([np.cos(pa) * u - np.sin(pa) * v, np.sin(pa) * u + np.cos(pa) * v, w])


def times_of(lay):
    return T0 + np.array(TLAY[lay], dtype=float)


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case[0]](ctx, *case[1:])


def _lla(ctx, b, shape):
    from pyuvdata import utils

    body = BODIES[b]
    kw = dict(frame="ITRS" if body is None else "MCMF", ellipsoid=body)
    g = np.array(list(itertools.product(LATS, LONS, ALTS)))
    want = np.array([xyz_of(loc_of(body, *r)) for r in g])
    la, lo, al = g[:, 0] * DEG, g[:, 1] * DEG, g[:, 2]
    if shape == "each":
        for i in range(len(g)):
            got = utils.XYZ_from_LatLonAlt(float(la[i]), float(lo[i]), float(al[i]), **kw)
            rng_close(got, want[i], 1e-6, f"XYZ of {g[i]}")
            back = utils.LatLonAlt_from_XYZ(want[i].copy(), **kw)
            _lla_ok(back, (la[i], lo[i], al[i]), g[i])
            ctx.step(2)
            ctx.state((b, i))
    elif shape == "rows":
        args = [la.copy(), lo.copy(), al.copy()]
        fr = [a.copy() for a in args]
        got = utils.XYZ_from_LatLonAlt(*args, **kw)
        require(all(np.array_equal(a, c) for a, c in zip(args, fr)), "the caller's coordinates were changed")
        rng_close(got, want, 1e-6, "XYZ of the grid")
        w = want.copy()
        back = utils.LatLonAlt_from_XYZ(w, **kw)
        require(np.array_equal(w, want), "the caller's positions were changed")
        for i in range(len(g)):
            _lla_ok([x[i] for x in back], (la[i], lo[i], al[i]), g[i])
        back2 = utils.LatLonAlt_from_XYZ(np.asfortranarray(want), **kw)
        require(all(np.array_equal(x, y) for x, y in zip(back, back2)), "the result depends on the memory order")
        ctx.step(3 * len(g))
        expect_raises(lambda: utils.LatLonAlt_from_XYZ(want.T.copy(), **kw), "transposed positions accepted", (ValueError,))
        for f in (0.5, 2.0):
            expect_raises(lambda: utils.LatLonAlt_from_XYZ(want * f, **kw), f"positions scaled by {f} accepted", (ValueError,))
            mixed = want.copy()
            mixed[7] *= f
            expect_raises(lambda: utils.LatLonAlt_from_XYZ(mixed, **kw), f"one position scaled by {f} accepted", (ValueError,))
        expect_raises(lambda: utils.XYZ_from_LatLonAlt(la, lo[:-1], al, **kw), "unequal lengths accepted", (ValueError,))
        expect_raises(lambda: utils.XYZ_from_LatLonAlt(la, lo, al[:-1], **kw), "unequal lengths accepted", (ValueError,))
        expect_raises(lambda: utils.XYZ_from_LatLonAlt(la, lo, al, frame="mars"), "unknown frame accepted", (ValueError,))
    else:
        for i in range(0, len(g), 5):
            back = utils.LatLonAlt_from_XYZ(want[i : i + 1].copy(), **kw)
            require(all(np.shape(x) == (1,) for x in back), "one row does not give one value")
            _lla_ok([x[0] for x in back], (la[i], lo[i], al[i]), g[i])
            ctx.step()


def _lla_ok(back, want, what):
    require(abs(back[0] - want[0]) < 1e-11, f"latitude of {what}: {back[0]}")
    require(abs(back[2] - want[2]) < 1e-4, f"height of {what}: {back[2]}")
    if abs(np.cos(want[0])) > 1e-9:
        require(abs(np.angle(np.exp(1j * (back[1] - want[1])))) < 1e-11, f"longitude of {what}: {back[1]}")


def _enu(ctx, b, how, shape):
    from pyuvdata import utils

    body = BODIES[b]
    if how == "default" and body not in (None, "SPHERE"):
        return
    disp = np.array(list(itertools.product((-3e3, 0.0, 30.0), repeat=3)))
    for lat, lon, alt in SITES + [(90, 0, 0), (-90, 45, 5.0), (45, -180, 0), (10, 270, 0), (-1e-7, -1e-7, 0), (33, 90, -100)]:
        loc = loc_of(body, lat, lon, alt)
        ax = enu_axes(lat * DEG, lon * DEG)
        ecef = xyz_of(loc) + disp @ ax
        kw = dict(center_loc=loc) if how == "loc" else dict(latitude=lat * DEG, longitude=lon * DEG, altitude=alt)
        if how == "nums":
            kw.update(frame="ITRS" if body is None else "mcmf", ellipsoid=body)
        elif how == "default" and body is not None:
            kw["frame"] = "mcmf"
        if shape == "rows":
            c = ecef.copy()
            rng_close(utils.ENU_from_ECEF(c, **kw), disp, 2e-5, f"ENU at {lat, lon, alt}")
            require(np.array_equal(c, ecef), "the caller's positions were changed")
            c = disp.copy()
            rng_close(utils.ECEF_from_ENU(c, **kw), ecef, 2e-5, f"ECEF at {lat, lon, alt}")
            require(np.array_equal(c, disp), "the caller's positions were changed")
            rng_close(utils.ENU_from_ECEF(ecef[3:4], **kw), disp[3:4], 2e-5, "one-row ENU")
            expect_raises(lambda: utils.ENU_from_ECEF(ecef * 2, **kw), "positions far from the surface accepted", (ValueError,))
            expect_raises(lambda: utils.ENU_from_ECEF(ecef[:7].T.copy(), **kw), "transposed positions accepted", (ValueError,))
            expect_raises(lambda: utils.ECEF_from_ENU(disp[:7].T.copy(), **kw), "transposed positions accepted", (ValueError,))
        else:
            for d, x in list(zip(disp, ecef))[::2]:
                rng_close(utils.ENU_from_ECEF(x, **kw), d, 2e-5, f"ENU of {d} at {lat, lon, alt}")
                rng_close(utils.ECEF_from_ENU(d, **kw), x, 2e-5, f"ECEF of {d} at {lat, lon, alt}")
        ctx.step(len(disp) * 2)
        ctx.state((b, how, lat, lon))
    expect_raises(lambda: utils.ENU_from_ECEF(ecef, latitude=0.1, longitude=0.2), "missing altitude accepted", (ValueError,))
    expect_raises(lambda: utils.ECEF_from_ENU(disp, latitude=0.1, altitude=0.2), "missing longitude accepted", (ValueError,))
    expect_raises(lambda: utils.ECEF_from_ENU(disp, latitude=0.1, longitude=1.0, altitude=0.2, frame="mars"), "unknown frame accepted", (ValueError,))


def _surface(ctx, b):
    from pyuvdata.utils import coordinates as co

    body = BODIES[b]
    lo, hi = (6.35e6, 6.39e6) if body is None else (1717100.0, 1757100.0)
    fr = "itrs" if body is None else "mcmf"
    for lat, lon, alt in SITES:
        loc = loc_of(body, lat, lon, alt)
        x = xyz_of(loc)
        r = np.linalg.norm(x)
        up = x / r
        for delta in (0.0, lo - r - 5, lo - r + 5, hi - r - 5, hi - r + 5):
            pos = np.array([[0.0, 0, 0], up * delta, [1.0, 2.0, 3.0]])
            ok = lo <= r + delta <= hi
            for tl, ap in ((loc, pos), (tuple(x), pos), (None, pos + x)):
                kw = dict(telescope_loc=tl, antenna_positions=ap, telescope_frame=fr)
                f = ap.copy()
                got = co.check_surface_based_positions(raise_error=False, raise_warning=False, **kw)
                require(bool(got) == ok, f"positions at radius {r + delta} judged {got}")
                require(np.array_equal(f, ap), "the caller's positions were changed")
                if ok:
                    require(bool(co.check_surface_based_positions(**kw)), "valid positions refused")
                else:
                    expect_raises(lambda: co.check_surface_based_positions(**kw), "positions off the surface accepted", (ValueError,))
                ctx.step(2)
        require(bool(co.check_surface_based_positions(telescope_loc=loc)), "a surface site is refused")
        ctx.state((b, lat, lon))


def _rot(ctx):
    from pyuvdata import utils

    xyz = np.array(list(itertools.product((-3.0, 0.0, 7.0), repeat=3)))
    for lon in LONS:
        th = lon * DEG
        m = np.array([[np.cos(th), np.sin(th), 0], [-np.sin(th), np.cos(th), 0], [0, 0, 1]])
        c = xyz.copy()
        rng_close(utils.rotECEF_from_ECEF(c, th), xyz @ m.T, 1e-12, f"rotated positions at longitude {lon}")
        rng_close(utils.ECEF_from_rotECEF(c, th), xyz @ m, 1e-12, f"unrotated positions at longitude {lon}")
        require(np.array_equal(c, xyz), "the caller's positions were changed")
        for bad in (xyz[:5].T.copy(), np.zeros((2, 4))):
            expect_raises(lambda: utils.rotECEF_from_ECEF(bad, th), "misshaped positions accepted", (ValueError,))
            expect_raises(lambda: utils.ECEF_from_rotECEF(bad, th), "misshaped positions accepted", (ValueError,))
        ctx.step(2)
        ctx.state(lon)


def _polar(ctx):
    from pyuvdata.utils import phasing as ph

    for lon, lat in itertools.product(LONS, LATS):
        v = ph.polar2_to_cart3(lon_array=lon * DEG, lat_array=lat * DEG)
        rng_close(v, unit(lon * DEG, lat * DEG), 1e-14, f"direction of {lon, lat}")
        for scale in (1.0, 5.0, 1e-3):
            a, d = ph.cart3_to_polar2(v * scale)
            require(0 <= a <= 2 * np.pi, f"longitude {a} out of range")
            rng_close(unit(a, d), v, 1e-14, f"direction of {lon, lat} and back")
        ctx.step(4)
        ctx.state((lon, lat))
    lo, la = np.meshgrid(np.array(LONS) * DEG, np.array(LATS) * DEG)
    v = ph.polar2_to_cart3(lon_array=lo, lat_array=la)
    rng_close(v, unit(lo, la), 1e-14, "directions of a grid")
    a, d = ph.cart3_to_polar2(v)
    require(a.shape == lo.shape and d.shape == lo.shape, "shape lost")
    rng_close(unit(a, d), v, 1e-14, "directions of a grid and back")
    expect_raises(lambda: ph.polar2_to_cart3(lon_array=lo, lat_array=0.3), "mixed types accepted", (ValueError,))
    expect_raises(lambda: ph.polar2_to_cart3(lon_array=lo, lat_array=la[:3]), "unequal shapes accepted", (ValueError,))
    expect_raises(lambda: ph.cart3_to_polar2([1.0, 0, 0]), "list accepted", (ValueError,))
    expect_raises(lambda: ph.cart3_to_polar2(np.zeros((2, 3))), "misshaped accepted", (ValueError,))
    # parallactic angles: angle at the source between north and zenith, positive when the zenith is east of north... as a direction
    for ra, dec, lst, lat in itertools.product((0.0, 1.0, 4.0), (-1.2, 0.0, 0.9), (0.5, 3.0, 6.0), (-0.5, 0.0, 1.1)):
        pa = ph.calc_parallactic_angle(app_ra=np.array([ra]), app_dec=np.array([dec]), lst_array=np.array([lst]), telescope_lat=lat)
        # tangent directions at the source
        east = np.array([-np.sin(ra), np.cos(ra), 0])
        north = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
        z = unit(lst, lat)
        ang_close(pa, np.array([np.arctan2(z @ east, z @ north)]), 1e-12, f"position angle of the zenith from {ra, dec}")
        ctx.step()


def _rows(i, n):
    seqs = list(itertools.product(range(len(STATES)), repeat=3))[i : i + n]
    return seqs


PAIRS = [((7, 2), (7, 5), (5, 2)), ((2, 2), (5, 7), (5, 7)), ((7, 2), (7, 2), (7, 2))]


def _uvw(ctx, i, n, use_pa):
    from pyuvdata.utils import phasing as ph

    for k, seq in enumerate(_rows(i, n)):
        st = np.array([STATES[s] for s in seq])
        lst, ra, dec, pa = st.T
        lat, lon, _ = SITES[k % len(SITES)]
        lat, lon = lat * DEG, lon * DEG
        for prs in PAIRS:
            a1, a2 = np.array(prs).T
            kw = dict(
                app_ra=ra.copy(), app_dec=dec.copy(), frame_pa=pa.copy() if use_pa else None, lst_array=lst.copy(), use_ant_pos=True, antenna_positions=ANTPOS.copy(),
                antenna_numbers=ANUM.copy(), ant_1_array=a1.copy(), ant_2_array=a2.copy(), telescope_lat=lat, telescope_lon=lon,
            )
            fr = {q: np.array(v, copy=True) for q, v in kw.items() if isinstance(v, np.ndarray)}
            got = ph.calc_uvw(**kw)
            require(all(np.array_equal(kw[q], v) for q, v in fr.items()), "the caller's arrays were changed")
            rz = np.array([[np.cos(lon), np.sin(lon), 0], [-np.sin(lon), np.cos(lon), 0], [0, 0, 1]])
            want = []
            for r in range(3):
                bl = ANTPOS[list(ANUM).index(a2[r])] - ANTPOS[list(ANUM).index(a1[r])]
                want.append(uvw_axes(lst[r] - ra[r], dec[r], pa[r] if use_pa else 0.0) @ (rz @ bl))
            rng_close(got, np.array(want), 1e-10, f"uvw of pointing states {seq}, antenna pairs {prs}")
            ctx.step()
        got = ph.calc_uvw(to_enu=True, use_ant_pos=True, antenna_positions=ANTPOS, antenna_numbers=ANUM, ant_1_array=a1, ant_2_array=a2, telescope_lat=lat, telescope_lon=lon)
        want = np.array([enu_axes(lat, lon) @ (ANTPOS[list(ANUM).index(q)] - ANTPOS[list(ANUM).index(p)]) for p, q in zip(a1, a2)])
        rng_close(got, want, 1e-10, "local baselines from antenna positions")
        ctx.state((seq, use_pa))
        ctx.step()


def _uvwconv(ctx, i, n, mode):
    from pyuvdata.utils import phasing as ph

    base = np.array([[10.0, -3.0, 2.0], [-50.0, 40.0, 0.5], [0.0, 0.0, 0.0]])
    for k, seq in enumerate(_rows(i, n)):
        st = np.array([STATES[s] for s in seq])
        lst, ra, dec, pa = st.T
        old = np.array([STATES[(s * 3 + k) % len(STATES)] for s in seq])
        lat = SITES[k % len(SITES)][0] * DEG
        for use_pa in (True, False):
            enu_to = lambda r: uvw_axes(0.0, lat, 0.0)  # noqa
            b = base.copy()
            if mode == "fromenu":
                kw = dict(app_ra=ra, app_dec=dec, frame_pa=pa if use_pa else None, lst_array=lst, telescope_lat=lat, from_enu=True)
                want = [uvw_axes(lst[r] - ra[r], dec[r], pa[r] if use_pa else 0) @ (enu_to(r).T @ base[r]) for r in range(3)]
            elif mode == "toenu":
                kw = dict(old_app_ra=ra, old_app_dec=dec, old_frame_pa=pa if use_pa else None, lst_array=lst, telescope_lat=lat, to_enu=True)
                want = [enu_to(r) @ (uvw_axes(lst[r] - ra[r], dec[r], pa[r] if use_pa else 0).T @ base[r]) for r in range(3)]
            elif mode == "uvw2uvw":
                kw = dict(app_ra=ra, app_dec=dec, frame_pa=pa if use_pa else None, old_app_ra=old[:, 1], old_app_dec=old[:, 2], old_frame_pa=old[:, 3] if use_pa else None)
                want = [
                    uvw_axes(-ra[r], dec[r], pa[r] if use_pa else 0) @ (uvw_axes(-old[r, 1], old[r, 2], old[r, 3] if use_pa else 0).T @ base[r]) for r in range(3)
                ]
                # the same pointing again
                kw2 = dict(kw, old_app_ra=ra, old_app_dec=dec, old_frame_pa=old[:, 3] if use_pa else None)
                got = ph.calc_uvw(uvw_array=b.copy(), use_ant_pos=False, **kw2)
                w2 = [uvw_axes(-ra[r], dec[r], pa[r] if use_pa else 0) @ (uvw_axes(-ra[r], dec[r], old[r, 3] if use_pa else 0).T @ base[r]) for r in range(3)]
                rng_close(got, np.array(w2), 1e-10, f"uvw at the same position, states {seq}, frame angles {use_pa}")
            else:
                if not use_pa:
                    continue
                kw = dict(frame_pa=pa, old_frame_pa=old[:, 3])
                want = [uvw_axes(0, 0, pa[r]) @ (uvw_axes(0, 0, old[r, 3]).T @ base[r]) for r in range(3)]
            fr = {q: np.array(v, copy=True) for q, v in kw.items() if isinstance(v, np.ndarray)}
            got = ph.calc_uvw(uvw_array=b, use_ant_pos=False, **kw)
            require(np.array_equal(b, base) and all(np.array_equal(kw[q], v) for q, v in fr.items()), "the caller's arrays were changed")
            rng_close(got, np.array(want), 1e-10, f"{mode}: states {seq}, frame angles {use_pa}")
            ctx.step()
        ctx.state((seq, mode))


def _ref_lst(t, body, lat, lon, alt):
    """One time at a time."""
    from astropy.time import Time
    from lunarsky import Time as LTime

    loc = loc_of(body, lat, lon, alt)
    cls = Time if body is None else LTime
    out = np.empty(t.shape)
    for ix in np.ndindex(t.shape):
        out[ix] = cls(t[ix], format="jd", scale="utc", location=loc).sidereal_time("apparent").rad
    return out


def _lst(ctx, lay, s, how, lib):
    from pyuvdata import utils

    t = times_of(lay)
    lat, lon, alt = SITES[s]
    kw = dict(telescope_loc=loc_of(None, lat, lon, alt)) if how == "loc" else dict(telescope_loc=(lat, lon, alt)) if how == "tuple" else dict(latitude=lat, longitude=lon, altitude=alt)
    tt = np.array(t, copy=True)
    got = utils.get_lst_for_time(tt, astrometry_library=lib, **kw)
    require(np.array_equal(tt, t), "the caller's times were changed")
    ang_close(got, _ref_lst(np.asarray(t), None, lat, lon, alt), 2e-9, f"sidereal times ({lay}, site {s}, {how}, {lib})")
    require(np.all((got >= 0) & (got <= 2 * np.pi)), "sidereal time out of range")
    ctx.step()
    ctx.state((lay, s))
    if how == "loc":
        expect_raises(lambda: utils.get_lst_for_time(tt, latitude=1.0, **kw), "location and latitude accepted together", (ValueError,))
        expect_raises(lambda: utils.get_lst_for_time(tt, astrometry_library="foo", **kw), "unknown library accepted", (ValueError,))


def _lstmoon(ctx, lay, b, how):
    from pyuvdata import utils

    t = times_of(lay)
    lat, lon, alt = SITES[b]
    kw = dict(telescope_loc=loc_of(BODIES[b], lat, lon, alt)) if how == "loc" else dict(telescope_loc=(lat, lon, alt)) if how == "tuple" else dict(latitude=lat, longitude=lon, altitude=alt)
    if how != "loc":
        kw.update(frame="mcmf", ellipsoid=BODIES[b])
    got = utils.get_lst_for_time(np.array(t, copy=True), **kw)
    ang_close(got, _ref_lst(np.asarray(t), BODIES[b], lat, lon, alt), 1e-11, f"sidereal times on the Moon ({lay}, {how})")
    ctx.step()
    ctx.state((lay, b))


def _lstcheck(ctx, s):
    from pyuvdata.utils import times as tm

    lat, lon, alt = SITES[s]
    t = times_of("interleave")
    good = _ref_lst(t, None, lat, lon, alt)
    tol = (0, 1e-5)
    for which, delta in itertools.product(range(4), (0.0, 5e-6, -5e-6, 3e-5, -3e-5, 1.0)):
        l = good.copy()
        l[which] += delta
        for kw in (dict(telescope_loc=loc_of(None, lat, lon, alt)), dict(latitude=lat, longitude=lon, altitude=alt)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                tm.check_lsts_against_times(jd_array=t, lst_array=l, lst_tols=tol, **kw)
            hit = any("lst_array is not self-consistent" in str(x.message) for x in w)
            require(hit == (abs(delta) > 1e-5), f"a sidereal time off by {delta}: warned {hit}")
            ctx.step()
    ctx.state(s)


MOTION = {
    "none": {}, "pm": dict(pm_ra=(1000.0, -300.0, 50.0), pm_dec=(-50.0, 700.0, 0.0)), "dist": dict(dist=(10.0, 1.5, 300.0)), "vrad": dict(vrad=(30.0, -20.0, 0.0)),
    "all": dict(pm_ra=(1000.0, -300.0, 50.0), pm_dec=(-50.0, 700.0, 0.0), dist=(10.0, 1.5, 300.0), vrad=(30.0, -20.0, 5.0)),
}
RAS, DECS = np.array([1.0, 6.1, 3.3]), np.array([0.3, -0.9, -1.4])


def _ref_app(t, ra, dec, loc, mot):
    """Apparent place by way of astropy's horizontal coordinates, one at a time."""
    import erfa
    from astropy import units as u
    from astropy.coordinates import AltAz, SkyCoord
    from astropy.time import Time

    tm = Time(t, format="jd", scale="utc", location=loc)
    kw = {}
    if "pm_ra" in mot:
        kw.update(pm_ra_cosdec=mot["pm_ra"] * np.cos(dec) * u.mas / u.yr, pm_dec=mot["pm_dec"] * u.mas / u.yr)
        c = SkyCoord(ra * u.rad, dec * u.rad, frame="icrs", **kw).apply_space_motion(dt=tm - Time(2000.0, format="jyear"))
        ra, dec = c.ra.rad, c.dec.rad
    kw = {}
    if "dist" in mot:
        kw["distance"] = mot["dist"] * u.pc
    c = SkyCoord(ra * u.rad, dec * u.rad, frame="icrs", **kw)
    az = c.transform_to(AltAz(obstime=tm, location=loc))
    ha, d = erfa.ae2hd(az.az.rad, az.alt.rad, loc.lat.rad)
    return np.mod(tm.sidereal_time("apparent").rad - ha, 2 * np.pi), float(d)


def _app(ctx, lib, mot, form, s):
    from pyuvdata.utils import phasing as ph

    loc = loc_of(None, *SITES[s])
    t = T0 + np.array([0.3, 0.0, 40.2])
    m = MOTION[mot]
    nc, nt = {"s1": (1, 1), "sn": (0, 3), "n1": (3, 1), "nn": (3, 3), "ss": (0, 0)}[form]
    ra, dec = (float(RAS[0]), float(DECS[0])) if nc == 0 else (RAS[:nc].copy(), DECS[:nc].copy())
    kw = {k: float(v[0]) if nc == 0 else np.array(v[:nc]) for k, v in m.items()}
    tt = float(t[0]) if nt == 0 else t[:nt].copy()
    got = ph.transform_icrs_to_app(time_array=tt, ra=ra, dec=dec, telescope_loc=loc, astrometry_library=lib, **kw)
    n = max(nc, nt, 1)
    want = []
    for i in range(n):
        ic, it = (i if nc > 1 else 0), (i if nt > 1 else 0)
        want.append(_ref_app(t[it], RAS[ic], DECS[ic], loc, {k: v[ic] for k, v in m.items()}))
    # radial velocities enter only through the change of distance: milliarcseconds
    tol = 5e-8 if ("vrad" in m) else (2e-8 if lib == "novas" else 5e-9 if "pm_ra" in m else 1e-9)
    sky_close([np.reshape(g, (-1,)) for g in got], np.array(want).T, tol, f"apparent place ({lib}, {mot}, {form})")
    if nc != 0:
        require(np.array_equal(ra, RAS[:nc]) and np.array_equal(dec, DECS[:nc]), "the caller's coordinates were changed")
    if nt:
        require(np.array_equal(tt, t[:nt]), "the caller's times were changed")
    ctx.step()
    ctx.state((lib, mot, form))


def _back(ctx, lib, form, s, how):
    from pyuvdata.utils import phasing as ph

    loc = loc_of(None, *SITES[s])
    t = T0 + np.array([0.3, 0.0, 40.2])
    nc, nt = {"s1": (1, 1), "sn": (0, 3), "n1": (3, 1), "nn": (3, 3)}[form]
    n = max(nc, nt, 1)
    app = np.array([_ref_app(t[i if nt > 1 else 0], RAS[i], DECS[i], loc, {}) for i in range(n)]).T
    if nc == 0:  # one apparent position, several times
        ra, dec = float(app[0, 0]), float(app[1, 0])
    else:
        ra, dec = app[0, :nc].copy(), app[1, :nc].copy()
    tl = loc if how == "loc" else (loc.lat.rad, loc.lon.rad, loc.height.to_value("m"))
    got = ph.transform_app_to_icrs(time_array=t[:nt].copy(), app_ra=ra, app_dec=dec, telescope_loc=tl, astrometry_library=lib)
    got = [np.reshape(g, (-1,)) for g in got]
    if nc == 0:
        for i in range(n):
            again = _ref_app(t[i], float(got[0][i]), float(got[1][i]), loc, {})
            sky_close(again, (np.float64(ra), np.float64(dec)), 2e-9, f"catalogue place and back ({lib})")
    else:
        sky_close(got, (RAS[:n], DECS[:n]), 2e-9, f"catalogue place ({lib}, {form})")
    ctx.step()
    ctx.state((lib, form, s, how))


def _skyc(frame, epoch, lon, lat, t):
    from astropy import units as u
    from astropy.coordinates import SkyCoord
    from astropy.time import Time

    kw = {}
    if epoch is not None:
        kw["equinox"] = Time(epoch) if isinstance(epoch, str) else Time(epoch, format="byear" if frame == "fk4" else "jyear")
    return SkyCoord(lon * u.rad, lat * u.rad, frame=frame, obstime=Time(t, format="jd", scale="utc"), **kw)


def _sid(ctx, fi, fo):
    from pyuvdata.utils import phasing as ph

    t = T0 + np.array([0.3, 0.0, 40.2])
    lons, lats = np.array([0.2, 5.9, 3.0]), np.array([0.4, -1.1, 0.0])
    for nc, nt in ((1, 1), (0, 1), (1, 3), (0, 3), (3, 1), (3, 3), (0, 0)):
        n = max(nc, nt, 1)
        lo, la = (float(lons[0]), float(lats[0])) if nc == 0 else (lons[:nc].copy(), lats[:nc].copy())
        tt = float(t[0]) if nt == 0 else t[:nt].copy()
        got = ph.transform_sidereal_coords(longitude=lo, latitude=la, in_coord_frame=fi[0], out_coord_frame=fo[0], in_coord_epoch=fi[1], out_coord_epoch=fo[1], time_array=tt)
        want = []
        for i in range(n):
            ic, it = (i if nc > 1 else 0), (i if nt > 1 else 0)
            c = _skyc(fi[0], fi[1], lons[ic], lats[ic], t[it])
            r = c.transform_to(_skyc(fo[0], fo[1], 0.0, 0.0, t[it]).frame)
            want.append((r.spherical.lon.rad, r.spherical.lat.rad))
        sky_close([np.reshape(g, (-1,)) for g in got], np.array(want).T, 1e-11, f"{fi} to {fo}, {nc} positions at {nt} times")
        if nc:
            require(np.array_equal(lo, lons[:nc]) and np.array_equal(la, lats[:nc]), "the caller's coordinates were changed")
        ctx.step()
    expect_raises(lambda: ph.transform_sidereal_coords(longitude=lons, latitude=lats[:2], in_coord_frame=fi[0], out_coord_frame=fo[0], in_coord_epoch=fi[1], out_coord_epoch=fo[1], time_array=t), "unequal shapes accepted", (ValueError,))
    expect_raises(lambda: ph.transform_sidereal_coords(longitude=lons, latitude=lats, in_coord_frame=fi[0], out_coord_frame=fo[0], in_coord_epoch=fi[1], out_coord_epoch=fo[1], time_array=t[:2]), "unequal numbers of times accepted", (ValueError,))
    ctx.state((tuple(fi), tuple(fo)))


def _to_icrs(frame, epoch, lon, lat, t):
    if frame == "icrs":
        return lon, lat
    c = _skyc(frame, epoch, lon, lat, t).icrs
    return c.ra.rad, c.dec.rad


def _appc(ctx, typ, lay, fr, s, lon, use_lst):
    import erfa

    from pyuvdata.utils import phasing as ph

    frame, epoch = fr
    loc = loc_of(None, *SITES[s])
    t = times_of(lay)
    if lay == "0d":
        t = float(t)
    tf = np.atleast_1d(np.asarray(t))
    n = tf.size
    if lon == "array" and n == 1:
        return
    lo = 1.1 + 0.3 * np.arange(n)
    la = 0.6 - 0.2 * np.arange(n)
    lst = _ref_lst(tf, None, *SITES[s])
    kw = {}
    if typ == "ephem":
        kn = np.array([-0.5, 0.1, 0.6]) + T0
        elo, ela = 1.0 + 0.01 * (kn - T0), 0.2 - 0.03 * (kn - T0)
        lonc, latc = elo, ela
        kw["coord_times"] = kn
        if lon == "array":
            return
    elif typ == "unprojected":
        lonc, latc = 0.0, np.pi / 2
    elif lon == "scalar":
        lonc, latc = float(lo[0]), float(la[0])
    else:
        lonc, latc = lo.copy(), la.copy()
    if use_lst:
        kw["lst_array"] = lst.copy()
    for form in ("loc", "tuple"):
        tl = loc if form == "loc" else (loc.lat.rad, loc.lon.rad, loc.height.to_value("m"))
        got = ph.calc_app_coords(lon_coord=lonc, lat_coord=latc, coord_frame=frame, coord_epoch=epoch, coord_type=typ, time_array=t, telescope_loc=tl, **kw)
        want = []
        for i in range(n):
            a, d = (lo[i], la[i]) if lon == "array" else (lo[0], la[0])
            if typ == "ephem":
                a, d = 1.0 + 0.01 * (tf[i] - T0), 0.2 - 0.03 * (tf[i] - T0)
            if typ in ("sidereal", "ephem"):
                want.append(_ref_app(tf[i], *_to_icrs(frame, epoch, a, d, tf[i]), loc, {}))
            elif typ == "driftscan":
                ha, dd = erfa.ae2hd(a, d, loc.lat.rad)
                want.append((lst[i] - ha, dd))
            else:
                want.append((lst[i], loc.lat.rad))
        require(np.shape(got[0]) == np.shape(t) and np.shape(got[1]) == np.shape(t), "shape of the times lost")
        sky_close([np.reshape(g, (-1,)) for g in got], np.array(want).T, 3e-9, f"{typ} place in {frame} at {lay} times")
        ctx.step()
    expect_raises(lambda: ph.calc_app_coords(lon_coord=lonc, lat_coord=latc, coord_type="whatever", time_array=t, telescope_loc=loc), "unknown type accepted", (ValueError,))
    ctx.state((typ, lay, frame, lon, use_lst))


_FPA = {}


def _fpa_want(ra, dec, t, frame, epoch, loc):
    """Angle from the frame's north to apparent north at the place, from two neighbouring places."""
    key = (ra, dec, t, frame, epoch)
    if key not in _FPA:
        from pyuvdata.utils import phasing as ph

        h = np.pi / 360
        p = [ph.transform_app_to_icrs(time_array=np.array([t]), app_ra=np.array([ra]), app_dec=np.array([d]), telescope_loc=loc) for d in (dec - h, dec + h)]
        v = []
        for a, d in p:
            if frame == "icrs":
                v.append((a[0], d[0]))
            else:
                c = _skyc("icrs", None, a[0], d[0], t).transform_to(_skyc(frame, epoch, 0.0, 0.0, t).frame)
                v.append((c.spherical.lon.rad, c.spherical.lat.rad))
        # position angle of the northern place as seen from the southern one
        (a1, d1), (a2, d2) = v
        east = np.array([-np.sin(a1), np.cos(a1), 0])
        north = np.array([-np.sin(d1) * np.cos(a1), -np.sin(d1) * np.sin(a1), np.cos(d1)])
        z = unit(a2, d2)
        _FPA[key] = -np.arctan2(z @ east, z @ north)
    return _FPA[key]


def _fpa(ctx, i, n, fr):
    from pyuvdata.utils import phasing as ph

    frame, epoch = fr
    loc = loc_of(None, *SITES[0])
    grid = list(itertools.product((1.0, 4.0), (-0.3, 0.8), (T0, T0 + 100.3)))
    for seq in list(itertools.product(range(8), repeat=3))[i : i + n]:
        ra, dec, t = np.array([grid[q] for q in seq]).T.copy()
        got = ph.calc_frame_pos_angle(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, ref_frame=frame, ref_epoch=epoch)
        want = np.array([_fpa_want(*grid[q], frame, epoch, loc) for q in seq])
        ang_close(got, want, 1e-9, f"frame angles of {seq} in {frame}")
        ctx.step()
        ctx.state((seq, frame))
    # orders in which every coordinate has been seen before
    four = [(1.0, -0.3, T0), (4.0, -0.3, T0 + 100.3), (4.0, -0.3, T0), (1.0, -0.3, T0 + 100.3)]
    for perm in itertools.permutations(range(4)):
        ra, dec, t = np.array([four[q] for q in perm]).T.copy()
        got = ph.calc_frame_pos_angle(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, ref_frame=frame, ref_epoch=epoch)
        ang_close(got, np.array([_fpa_want(*four[q], frame, epoch, loc) for q in perm]), 1e-9, f"frame angles of {perm}")
        ctx.step()
    for none in (None, "topo"):
        z = ph.calc_frame_pos_angle(time_array=t, app_ra=ra, app_dec=dec, telescope_loc=loc, ref_frame=none)
        require(np.all(z == 0), "frame angle without a frame")


def _ephem(ctx, n, order, wrap, extra):
    from pyuvdata.utils import phasing as ph

    kn = T0 + np.array([0.0, 0.25, 0.5, 1.25, 1.5, 3.0])[:n]
    off, slope = {"no": (1.0, 0.05), "up": (6.2, 0.12), "down": (0.1, -0.15)}[wrap]
    cub = 0.01 if n == 4 else 0.0
    fra = lambda t: off + slope * (t - T0) + cub * (t - T0) ** 3  # noqa
    fdec = lambda t: -0.2 + 0.03 * (t - T0)  # noqa
    fdist = lambda t: 5 + 0.7 * (t - T0)  # noqa
    fvel = lambda t: -20 + 3 * (t - T0)  # noqa
    if n == 1:
        fra, fdec, fdist, fvel = [(lambda t, c=f(kn[0]): c + 0 * t) for f in (fra, fdec, fdist, fvel)]
    ix = {"inc": np.arange(n), "dec": np.arange(n)[::-1], "mix": np.argsort([(k * 4 + 1) % 7 for k in range(n)])}[order]
    e = kn[ix]
    kw = dict(ephem_times=e, ephem_ra=np.mod(fra(e), 2 * np.pi), ephem_dec=fdec(e))
    if extra:
        kw.update(ephem_dist=fdist(e), ephem_vel=fvel(e))
    span = kn[-1] - kn[0]
    pts = [kn[0], kn[-1], kn[0] + 0.3 * span, kn[0] + 0.77 * span] + list(kn)
    for req in [[p] for p in pts] + [[p, q] for p in pts for q in pts] + [pts, pts[::-1]]:
        t = np.array(req)
        fr = {k: v.copy() for k, v in kw.items()}
        got = ph.interpolate_ephem(time_array=t, **kw)
        require(all(np.array_equal(fr[k], kw[k]) for k in kw) and np.array_equal(t, np.array(req)), "the caller's arrays were changed")
        ang_close(got[0], fra(t), 1e-8, f"right ascension at {t - T0} from {e - T0}")
        rng_close(got[1], fdec(t), 1e-8, "declination")
        if extra:
            rng_close(got[2], fdist(t), 1e-7, "distance")
            rng_close(got[3], fvel(t), 1e-7, "velocity")
        else:
            require(got[2] is None and got[3] is None, "distance or velocity out of nowhere")
        ctx.step()
    for bad in (kn[0] - 1, kn[-1] + 1):
        if n > 1:
            expect_raises(lambda: ph.interpolate_ephem(time_array=np.array([bad]), **kw), "a time outside the ephemeris accepted", (ValueError,))
    for k in kw:
        if k != "ephem_times":
            expect_raises(lambda: ph.interpolate_ephem(time_array=kn, **dict(kw, **{k: np.zeros(n + 1)})), f"misshaped {k} accepted", (ValueError,))
    ctx.state((n, order, wrap, extra))


def _track(ctx, typ, lay, fr, uvw, force, lonarr):
    import erfa

    from pyuvdata.utils import phasing as ph

    frame, epoch = fr
    site = SITES[0]
    loc = loc_of(None, *site)
    t = times_of(lay)
    n = t.size
    lo = 1.1 + 0.3 * np.arange(n)
    la = -0.6 - 0.2 * np.arange(n)
    if not lonarr:
        lo[:] = lo[0]
        la[:] = la[0]
    nb = 1
    kw = {}
    enu = np.array([[30.0, -4.0, 1.0], [-60.0, 10.0, 0.0], [5.0, 5.0, 5.0], [0.0, -9.0, 0.0]])[:n]
    if uvw == "pos":
        kw["antenna_positions"] = ANTPOS
        nb = 3
        pairs = [(0, 1), (0, 2), (1, 2)]
        bls = np.array([ANTPOS[q] - ANTPOS[p] for p, q in pairs] * n)
    elif uvw == "nums":
        a1, a2 = np.array([7, 2, 5, 7])[:n], np.array([2, 5, 7, 7])[:n]
        kw.update(antenna_positions=ANTPOS, antenna_numbers=ANUM, ant_1_array=a1, ant_2_array=a2)
        ix = list(ANUM).index
        bls = np.array([ANTPOS[ix(q)] - ANTPOS[ix(p)] for p, q in zip(a1, a2)])
    else:
        kw["uvw_array"] = enu.copy()
        bls = enu @ enu_axes(site[0] * DEG, site[1] * DEG)
    for form in ("loc", "tuple"):
        got = ph.uvw_track_generator(
            lon_coord=lo.copy() if lonarr else float(lo[0]), lat_coord=la.copy() if lonarr else float(la[0]), coord_frame=frame, coord_epoch=epoch, coord_type=typ, time_array=t.copy(),
            telescope_loc=loc if form == "loc" else site, force_postive_u=force, **kw,
        )
        tt = np.repeat(t, nb)
        lst = _ref_lst(tt, None, *site)
        ang_close(got["lst"], lst, 2e-9, "sidereal times of the track")
        wr, wd, wp, wu = [], [], [], []
        lam = site[1] * DEG
        rz = np.array([[np.cos(lam), np.sin(lam), 0], [-np.sin(lam), np.cos(lam), 0], [0, 0, 1]])
        for i in range(len(tt)):
            a, d = lo[i // nb], la[i // nb]
            if typ == "sidereal":
                ra, dec = _ref_app(tt[i], *_to_icrs(frame, epoch, a, d, tt[i]), loc, {})
            else:
                ha, dec = erfa.ae2hd(a, d, loc.lat.rad)
                ra = lst[i] - ha
            wr.append(ra)
            wd.append(dec)
            pa = got["frame_pa"][i]
            wp.append(_fpa_want(got["app_ra"][i], got["app_dec"][i], tt[i], frame, epoch, loc))
            w = uvw_axes(lst[i] - ra, dec, pa) @ (rz @ bls[i])
            if force and (w[0] < 0 or (w[0] == 0 and w[1] < 0)):
                w = -w
            wu.append(w)
        sky_close((got["app_ra"], got["app_dec"]), (np.array(wr), np.array(wd)), 3e-9, f"apparent places of the {typ} track in {frame} {epoch}")
        ang_close(got["frame_pa"], np.array(wp), 1e-8, "frame angles of the track")
        rng_close(got["uvw"], np.array(wu), 1e-5, "uvw of the track")
        ctx.step()
    ctx.state((typ, lay, frame, uvw, lonarr))


def _antpos(ctx, b):
    from pyuvdata import UVData  # noqa

    body = BODIES[b]
    uv = gen.uvd(layout="shuffle")
    for lat, lon, alt in SITES:
        loc = loc_of(body, lat, lon, alt)
        uv.telescope.location = loc
        ax = enu_axes(lat * DEG, lon * DEG)
        disp = np.array([[10.0, 5.0, 1.0]]) * np.arange(uv.telescope.Nants)[:, None] * [[1, -2, 0.3]]
        uv.telescope.antenna_positions = disp @ ax
        fz = Frozen(uv)
        rng_close(uv.telescope.get_enu_antpos(), disp, 2e-5, f"local antenna positions at {lat, lon, alt}")
        got, nums = uv.get_enu_data_ants()
        have = sorted(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist()))
        require(sorted(np.asarray(nums).tolist()) == have, "antennas with data")
        where = [list(uv.telescope.antenna_numbers).index(q) for q in nums]
        rng_close(got, disp[where], 2e-5, "positions of antennas with data")
        fz.check(uv, "asking for antenna positions")
        uv.set_lsts_from_time_array()
        ang_close(uv.lst_array, _ref_lst(uv.time_array, body, lat, lon, alt), 2e-9, "sidereal times of the rows")
        old = uv.time_array.copy()
        uv.time_array = old[::-1].copy()
        uv.set_lsts_from_time_array()
        ang_close(uv.lst_array, _ref_lst(uv.time_array, body, lat, lon, alt), 2e-9, "sidereal times of the rows")
        uv.time_array = old
        ctx.step(4)
        ctx.state((b, lat))
