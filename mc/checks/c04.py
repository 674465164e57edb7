"""C04: phasing is path independent, invertible and geometrically right."""

import itertools

import numpy as np

from mc import gen
from mc.core import Violation, digest, require
from mc.model import Frozen, UVModel, check_valid, pc_canon

ID = "C04"
BOUNDS = (
    "UVData.phase / unproject_phase / phase_to_time / set_uvws_from_antenna_positions:"
    " every sequence of 2 (thorough 3) operations over 9 targets (icrs, fk5, fk4,"
    " galactic, proper motion, driftscan, ephemeris, zenith at a time, unprojected) x"
    " 3 row masks x use_ant_pos, from 5 starting phase states of ragged and regular"
    " data; oracle: per-row target model, uvws from antenna positions by vector"
    " geometry against astropy AltAz directions, data = unprojected data x exp(-2 pi i"
    " w f/c) in every state."
)
ASSUMPTIONS = [
    "astropy's AltAz transformation (pressure 0) is the geometric reference, 2 arcsec",
    "values outside the small alphabets are not explored",
]
C = 299792458.0

DS = {
    "unproj": dict(ants="conj", nt=3, nf=3, pols=(-5, -7)),
    "sid": dict(ants="three", nt=2, layout="shuffle", nf=3, pols=(-6,), pc="sidA"),
    "mixed": dict(ants="conj", nt=3, layout="ragged", nf=4, spw="two", pols=(-5, -6),
                  pc="mixed"),
    "multi": dict(ants="cross", nt=3, layout="bl", nf=2, pols=(-5,), pc="multi"),
    "meta": dict(ants="conj", nt=2, nf=2, pols=(-5,), pc="drift", meta=True),
    "c64": dict(ants="cross", nt=2, nf=3, pols=(-5, -6), dtype="c8", pc="sidB"),
}
TARGETS = {
    "icrs": dict(cat_name="tA", lon=1.1, lat=-0.3),
    "icrs2": dict(cat_name="tA", lon=0.7, lat=-0.6),  # same name, elsewhere
    "fk5": dict(cat_name="tB", lon=0.95, lat=-0.55, phase_frame="fk5", epoch="J2000"),
    "fk4": dict(cat_name="tC", lon=0.8, lat=-0.2, phase_frame="fk4", epoch="B1950"),
    "gal": dict(cat_name="tG", lon=3.9, lat=-0.8, phase_frame="galactic"),
    "pm": dict(cat_name="tP", lon=1.0, lat=-0.5, pm_ra=300.0, pm_dec=-200.0, dist=10.0,
               vrad=30.0),
    "drift": dict(cat_name="tD", lon=0.4, lat=1.1, cat_type="driftscan",
                  phase_frame="altaz"),
    "ephem": dict(cat_name="tE", cat_type="ephem",
                  lon=[0.80, 0.85, 0.90], lat=[-0.50, -0.52, -0.54],
                  ephem_times=[gen.JD0 - 0.5, gen.JD0, gen.JD0 + 0.5]),
    "npole": dict(cat_name="tN", lon=1.0, lat=np.pi / 2 - 0.004),
    "spole": dict(cat_name="tS", lon=2.0, lat=-np.pi / 2 + 0.004),
    "srcA": dict(cat_name="srcA", lon=0.9, lat=-0.45),  # already in several catalogs
    "unp": dict(cat_name="unprojected", cat_type="unprojected", phase_frame="altaz"),
    "unp2": dict(cat_name="other", cat_type="unprojected", phase_frame="altaz"),
}
MASKS = {
    "all": None,
    "half": lambda uv: np.arange(uv.Nblts) % 2 == 0,
    "bl": lambda uv: uv.ant_1_array == uv.ant_1_array[1],
    "t0": lambda uv: uv.time_array == uv.time_array[0],
}
_cache = {}


def dataset(name):
    if name not in _cache:
        kw = dict(DS[name])
        if "dtype" in kw:
            kw["dtype"] = np.dtype(kw["dtype"])
        _cache[name] = gen.uvd(**kw)
    return _cache[name].copy()


def ops(full):
    out = []
    for t in TARGETS:
        for m in ("all", "half", "bl", "t0") if full else ("all", "half"):
            for ap in (True, False):
                if not full and m == "half" and t in ("npole", "spole", "fk4", "gal", "pm", "unp2"):
                    continue
                if not full and not ap and t not in ("icrs", "fk5", "drift", "unp"):
                    continue
                out.append(["phase", t, m, ap])
    for m in ("all", "half", "bl") if full else ("all", "half"):
        for ap in (True, False):
            out.append(["unproject", m, ap])
    out.append(["setuvw"])
    out.append(["totime", "all", True])
    out.append(["totime", "half", True])
    return out


def cases(tier):
    out = []
    R = ops(False)
    F = ops(True)
    for name in DS:
        for op in F:
            out.append([name, [op]])
        k = 0
        for a, b in itertools.product(R, R):
            k += 1
            if tier == "quick" and (k + len(name)) % 3 and name != "mixed":
                continue
            out.append([name, [a, b]])
        if tier != "quick":
            R3 = R[::2]
            for seq in itertools.product(R3, repeat=3):
                out.append([name, list(seq)])
    for t in TARGETS:
        if t.startswith("unp"):
            continue
        out.append(["anchor", t])
    return out


# ---------------------------------------------------------------- reference geometry
def enu_bl(uv):
    num = list(uv.telescope.antenna_numbers)
    lat, lon = gen.LOC.lat.rad, gen.LOC.lon.rad
    sl, cl, so, co = np.sin(lat), np.cos(lat), np.sin(lon), np.cos(lon)
    R = np.array(
        [[-so, co, 0.0], [-sl * co, -sl * so, cl], [cl * co, cl * so, sl]]
    )
    xyz = np.asarray(uv.telescope.antenna_positions)
    b = np.array(
        [xyz[num.index(j)] - xyz[num.index(i)] for i, j in zip(uv.ant_1_array, uv.ant_2_array)]
    )
    return b @ R.T


def geom_uvw(uv):
    """uvw of every row from its own apparent coordinates and frame angle."""
    b = enu_bl(uv)
    lat = gen.LOC.lat.rad
    out = np.zeros_like(b)
    for i in range(len(b)):
        H = uv.lst_array[i] - uv.phase_center_app_ra[i]
        d, pa = uv.phase_center_app_dec[i], uv.phase_center_frame_pa[i]
        e, n, u = b[i]
        # equatorial components: X to the meridian, Y east, Z pole
        X = -np.sin(lat) * n + np.cos(lat) * u
        Y = e
        Z = np.cos(lat) * n + np.sin(lat) * u
        uu = np.sin(H) * X + np.cos(H) * Y
        vv = -np.sin(d) * np.cos(H) * X + np.sin(d) * np.sin(H) * Y + np.cos(d) * Z
        ww = np.cos(d) * np.cos(H) * X - np.cos(d) * np.sin(H) * Y + np.sin(d) * Z
        out[i] = (
            uu * np.cos(pa) - vv * np.sin(pa),
            vv * np.cos(pa) + uu * np.sin(pa),
            ww,
        )
    return out


def is_unproj(uv):
    return np.array(
        [
            uv.phase_center_catalog[i]["cat_type"] == "unprojected"
            for i in uv.phase_center_id_array
        ]
    )


def canonical(uv):
    """the data with the projection taken out, using the object's own w"""
    if uv.data_array is None:
        return None
    w = np.where(is_unproj(uv), 0.0, uv.uvw_array[:, 2])
    ph = np.exp(2j * np.pi * w[:, None] * uv.freq_array[None, :] / C)
    return uv.data_array.astype(complex) * ph[:, :, None]


def ref_coords(tname, dsname, jd=None):
    """(app_ra, app_dec, frame_pa) by direct phasing of a pristine object."""
    key = ("ref", tname, dsname, jd)
    if key not in _cache:
        kw = dict(DS[dsname])
        kw.update(meta=True, pc="unproj")
        kw.pop("dtype", None)
        uv = gen.uvd(**kw)
        if tname == "zenith":
            uv.phase_to_time(jd)
        elif TARGETS[tname].get("cat_type") != "unprojected":
            uv.phase(**target(tname))
        _cache[key] = (
            uv.phase_center_app_ra.copy(),
            uv.phase_center_app_dec.copy(),
            uv.phase_center_frame_pa.copy(),
        )
    return _cache[key]


def target(t):
    kw = dict(TARGETS[t])
    for k in ("lon", "lat", "ephem_times"):
        if isinstance(kw.get(k), list):
            kw[k] = np.array(kw[k])
    return kw


def check_entry(e, t, what):
    if t == "zenith":
        require(e["cat_type"] == "sidereal" and e["cat_frame"] == "icrs", "%s entry", what)
        return
    kw = target(t)
    require(e["cat_name"] == kw["cat_name"], "%s: phase center name %s", what, e["cat_name"])
    ct = kw.get("cat_type", "sidereal")
    require(e["cat_type"] == ct, "%s: phase center type %s", what, e["cat_type"])
    if ct == "unprojected":
        return
    require(
        np.allclose(e["cat_lon"], kw["lon"], rtol=0, atol=1e-12)
        and np.allclose(e["cat_lat"], kw["lat"], rtol=0, atol=1e-12),
        "%s: catalog position %s %s", what, e["cat_lon"], e["cat_lat"],
    )
    require(e["cat_frame"] == kw.get("phase_frame", "icrs"), "%s: frame", what)
    for k, n in (("pm_ra", "cat_pm_ra"), ("pm_dec", "cat_pm_dec"), ("dist", "cat_dist"),
                 ("vrad", "cat_vrad"), ("ephem_times", "cat_times")):
        if k in kw:
            require(np.allclose(e[n], kw[k], rtol=1e-12), "%s: %s", what, n)
        else:
            require(e.get(n) is None, "%s: %s appeared", what, n)


def run(case, ctx):
    if case[0] == "anchor":
        return run_anchor(case[1], ctx)
    name, seq = case
    uv = dataset(name)
    can0 = canonical(uv)
    m0 = UVModel(uv)
    row_t = [None] * uv.Nblts  # None: original phase centre of that row
    row0 = snapshot(uv)
    rows = [row0[i] for i in range(uv.Nblts)]
    for op in seq:
        ctx.step()
        mask = None
        mname = op[2] if op[0] == "phase" else (op[1] if len(op) > 1 else "all")
        if MASKS[mname] is not None:
            mask = MASKS[mname](uv)
        sel = np.ones(uv.Nblts, bool) if mask is None else mask
        jd = float(m0.c["time_array"].min()) + 0.01
        if op[0] == "phase":
            uv.phase(select_mask=mask, use_ant_pos=op[3], **target(op[1]))
            t = op[1]
        elif op[0] == "unproject":
            # only rows that are projected change
            sel = sel & ~np.array([is_unp_t(row_t[i], rows[i]) for i in range(uv.Nblts)])
            uv.unproject_phase(select_mask=mask, use_ant_pos=op[2])
            t = "unp"
        elif op[0] == "totime":
            uv.phase_to_time(jd, select_mask=mask)
            t = "zenith"
        else:
            uv.set_uvws_from_antenna_positions(update_vis=True)
            sel = np.zeros(uv.Nblts, bool)
            t = None
        what = str(op)
        now = snapshot(uv)
        for i in range(uv.Nblts):
            if sel[i]:
                row_t[i] = t
                check_entry(now[i]["entry"], t, what)
                ra, dec, pa = ref_coords(t, name, jd if t == "zenith" else None)
                close(now[i]["ra"], ra[i], 1e-10, f"{what}: apparent ra of row {i}", True)
                close(now[i]["dec"], dec[i], 1e-10, f"{what}: apparent dec of row {i}")
                close(now[i]["pa"], pa[i], 1e-9, f"{what}: frame angle of row {i}", True)
            else:
                for k in ("ra", "dec", "pa"):
                    require(now[i][k] == rows[i][k], "%s: row %d (not selected): %s moved",
                            what, i, k)
                require(
                    rowcanon(now[i]["entry"]) == rowcanon(rows[i]["entry"]),
                    "%s: row %d (not selected): phase center changed to %s", what, i,
                    now[i]["entry"],
                )
        rows = [now[i] for i in range(uv.Nblts)]
        g = geom_uvw(uv)
        en = enu_bl(uv)
        unp = is_unproj(uv)
        ref = np.where(unp[:, None], en, g)
        dev = np.abs(uv.uvw_array - ref).max(axis=1)
        if dev.max() > 1e-6:
            i = int(dev.argmax())
            raise Violation(
                f"{what}: uvw of row {i} {uv.uvw_array[i]} is not the projection "
                f"{ref[i]} of its baseline on its phase center"
            )
        can = canonical(uv)
        if can0 is not None:
            tol = 1e-6 if uv.data_array.dtype == np.complex128 else 0.1
            d = np.abs(can - can0)
            if d.max() > tol:
                i = int(d.max(axis=(1, 2)).argmax())
                raise Violation(
                    f"{what}: data of row {i} is not the original data at its phase center"
                )
            require(uv.data_array.dtype == m0.c["data_array"].dtype, "%s: dtype", what)
        m = UVModel(uv)
        for n in ("time_array", "lst_array", "ant_1_array", "ant_2_array",
                  "baseline_array", "integration_time", "flag_array", "nsample_array",
                  "freq_array", "polarization_array"):
            a, b = m0.c[n], m.c[n]
            require((a is None) == (b is None) and (a is None or np.array_equal(a, b)),
                    "%s: %s changed", what, n)
        require(uv.Nphase == len(uv.phase_center_catalog), "%s: Nphase", what)
        used = set(uv.phase_center_id_array.tolist())
        if op[0] != "setuvw":
            require(set(uv.phase_center_catalog) == used, "%s: unused centers kept", what)
        check_valid(uv, what)
        ctx.state(digest([pc_canon(r["entry"]) for r in rows], np.round(uv.uvw_array, 6)))
    ctx.trace()
    ctx.outcome(sorted({str(t) for t in row_t}))


def is_unp_t(t, row):
    return row["entry"]["cat_type"] == "unprojected"


def snapshot(uv):
    return {
        i: dict(
            ra=float(uv.phase_center_app_ra[i]),
            dec=float(uv.phase_center_app_dec[i]),
            pa=float(uv.phase_center_frame_pa[i]),
            entry={
                k: (v.copy() if isinstance(v, np.ndarray) else v)
                for k, v in uv.phase_center_catalog[int(uv.phase_center_id_array[i])].items()
            },
        )
        for i in range(uv.Nblts)
    }


def close(a, b, tol, what, angle=False):
    d = a - b
    if angle:
        d = (d + np.pi) % (2 * np.pi) - np.pi
    if abs(d) > tol:
        raise Violation(f"{what}: {a} differs from direct phasing {b}")


UVLIM = {"gal": 0.02, "fk4": 1e-3, "npole": 0.5, "spole": 0.5}


def rowcanon(e):
    """the epoch means nothing for horizon-fixed phase centers"""
    drop = ("cat_epoch",) if e["cat_type"] in ("unprojected", "driftscan") else ()
    return pc_canon({k: v for k, v in e.items() if k not in drop})


def run_anchor(t, ctx):
    """uvw against directions computed by astropy alone."""
    from astropy import units as u
    from astropy.coordinates import AltAz, Distance, SkyCoord
    from astropy.time import Time

    uv = gen.uvd(ants="conj", nt=3, nf=2, pols=(-5,), timestep=0.02)
    uv.phase(**target(t))
    ctx.step()
    b = enu_bl(uv)
    kw = target(t)
    for i in range(uv.Nblts):
        tm = Time(uv.time_array[i], format="jd", location=gen.LOC)
        aa = AltAz(obstime=tm, location=gen.LOC)

        def enu_of(lon, lat):
            if kw.get("cat_type") == "driftscan":
                alt, az = lat, lon
            else:
                fr = kw.get("phase_frame", "icrs")
                if fr == "galactic":
                    c = SkyCoord(l=lon * u.rad, b=lat * u.rad, frame="galactic")
                elif "pm_ra" in kw:
                    c = SkyCoord(
                        ra=lon * u.rad, dec=lat * u.rad, frame="icrs",
                        pm_ra_cosdec=kw["pm_ra"] * np.cos(lat) * u.mas / u.yr,
                        pm_dec=kw["pm_dec"] * u.mas / u.yr,
                        distance=Distance(kw["dist"] * u.pc),
                        radial_velocity=kw["vrad"] * u.km / u.s,
                        obstime=Time(2000.0, format="jyear"),
                    ).apply_space_motion(tm)
                else:
                    eq = {} if fr == "icrs" else {
                        "equinox": kw.get("epoch", "J2000")
                    }
                    c = SkyCoord(ra=lon * u.rad, dec=lat * u.rad, frame=fr, **eq)
                h = c.transform_to(aa)
                alt, az = h.alt.rad, h.az.rad
            return np.array(
                [np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)]
            )

        lon, lat = kw["lon"], kw["lat"]
        if t == "ephem":
            lon = np.interp(uv.time_array[i], kw["ephem_times"], lon)
            lat = np.interp(uv.time_array[i], kw["ephem_times"], lat)
        s = enu_of(lon, lat)
        if t == "drift":
            # its v axis points to the celestial pole
            L = gen.LOC.lat.rad
            pole = np.array([0.0, np.cos(L), np.sin(L)])
            n = pole - s * (pole @ s)
        else:
            n = enu_of(lon, lat + 1e-4) - enu_of(lon, lat - 1e-4)
            n = n - s * (n @ s)
        n /= np.linalg.norm(n)
        e = np.cross(n, s)
        exp = np.array([b[i] @ e, b[i] @ n, b[i] @ s])
        d = np.abs(exp - uv.uvw_array[i])
        lim = 1.5e-5 * np.linalg.norm(b[i]) + 1e-6
        # the frame angle is documented to be measured over a 1 degree arc, which is
        # exact only for frames that are nearly aligned with the apparent one
        limuv = lim if t not in ("gal", "fk4", "npole", "spole") else lim + UVLIM[t] * np.linalg.norm(b[i])
        require(d[2] < lim and max(d[:2]) < limuv, "%s row %d: uvw %s, astropy says %s", t, i, uv.uvw_array[i], exp)
    ctx.trace()
    ctx.state(digest(uv.uvw_array))
    ctx.outcome("anchor " + t)
