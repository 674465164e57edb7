"""Small, fully labelled data sets: every cell value encodes where it came from."""

import functools

import numpy as np
from astropy.coordinates import EarthLocation
from pyuvdata import Telescope, UVData, utils

LOC = EarthLocation.from_geodetic(21.42830, -30.72152, 1051.690)
LOCXYZ = np.array([LOC.x.value, LOC.y.value, LOC.z.value])
JD0 = 2459124.31
DT = 10.0 / 86400.0
ENU = np.array(
    [
        [0.0, 0.0, 0.0],
        [14.6, 0.2, 0.1],
        [29.2, 3.0, -0.4],
        [7.3, 12.6, 0.5],
        [-21.0, 30.5, 0.3],
        [44.0, -17.2, 0.2],
    ]
)
# antenna 5 and 12 are in the telescope; which antennas are in the data varies
ANTNUM = [3, 0, 12, 7, 5, 9]
ANTNAME = ["HH3", "alpha", "B12", "ant7", "z5", "Q9"]


@functools.lru_cache(None)
def _telescope(nants, x_orient, diam):
    pos = utils.ECEF_from_ENU(ENU[:nants], center_loc=LOC) - LOCXYZ
    kw = {}
    if diam:
        kw["antenna_diameters"] = np.arange(nants) + 10.5
    return Telescope.new(
        name="mctel",
        location=LOC,
        antenna_positions=pos,
        antenna_names=ANTNAME[:nants],
        antenna_numbers=ANTNUM[:nants],
        instrument="mcinst",
        x_orientation=x_orient,
        **kw,
    )


def telescope(nants=5, x_orient="east", diam=True):
    return _telescope(nants, x_orient, diam).copy()


PC = {
    "unproj": {"cat_name": "unprojected", "cat_type": "unprojected"},
    "sidA": {
        "cat_name": "srcA",
        "cat_type": "sidereal",
        "cat_lon": 0.9,
        "cat_lat": -0.45,
        "cat_frame": "icrs",
        "cat_epoch": 2000.0,
    },
    "sidB": {
        "cat_name": "srcB",
        "cat_type": "sidereal",
        "cat_lon": 1.25,
        "cat_lat": -0.7,
        "cat_frame": "fk5",
        "cat_epoch": 2000.0,
    },
    "sidC": {
        "cat_name": "srcC",
        "cat_type": "sidereal",
        "cat_lon": 0.85,
        "cat_lat": -0.6,
        "cat_frame": "fk5",
        "cat_epoch": 1985.0,
    },
    "drift": {
        "cat_name": "driftZ",
        "cat_type": "driftscan",
        "cat_lon": 0.3,
        "cat_lat": 1.2,
        "cat_frame": "altaz",
    },
    "ephem": {
        "cat_name": "mover",
        "cat_type": "ephem",
        "cat_lon": np.array([0.8, 0.82, 0.85]),
        "cat_lat": np.array([-0.5, -0.52, -0.53]),
        "cat_times": JD0 + np.array([-0.5, 0.0, 0.6]),
        "cat_frame": "icrs",
        "cat_epoch": 2000.0,
        "cat_dist": np.array([0.2, 0.21, 0.22]),
    },
}


def pc_entry(name):
    e = {
        "cat_lon": None,
        "cat_lat": None,
        "cat_frame": None,
        "cat_epoch": None,
        "cat_times": None,
        "cat_pm_ra": None,
        "cat_pm_dec": None,
        "cat_dist": None,
        "cat_vrad": None,
        "info_source": "user",
    }
    e.update(PC[name])
    if PC[name]["cat_type"] == "unprojected":
        e.update(cat_lon=0.0, cat_lat=np.pi / 2, cat_frame="altaz")
    return {
        k: (v.copy() if isinstance(v, np.ndarray) else v)
        for k, v in e.items()
        if v is not None
    }


ANTPAIRS = {
    # ordered as given; both conjugations, autos
    "three": [(3, 3), (3, 0), (3, 12), (0, 0), (0, 12), (12, 12)],
    "conj": [(3, 3), (0, 3), (12, 3), (0, 0), (0, 12), (7, 0)],
    "cross": [(3, 0), (12, 3), (0, 7)],
    "cross4": [(3, 0), (12, 3), (0, 12), (7, 0)],
    "two": [(0, 3), (12, 0)],
    "autos": [(3, 3), (0, 0), (12, 12)],
    "sorted": [(0, 3), (0, 7), (3, 7), (0, 0), (3, 3)],
}


def cell_data(nblt, nf, npol, seed=0, autos=None, pols=None, dtype=np.complex128):
    """Unique values per cell; exactly representable in float32."""
    idx = np.arange(nblt * nf * npol).reshape(nblt, nf, npol)
    re = (idx * 7 + 3 + seed * 1009) % 4093 + 0.5
    im = (idx * 13 + 5 + seed * 2003) % 4091 - 2045.0
    d = re + 1j * im
    if autos is not None and pols is not None:
        # autos must be real for parallel-hand polarizations
        for ip, p in enumerate(pols):
            if p in (-1, -2, -5, -6, 1, 2, 3, 4):
                d[np.asarray(autos), :, ip] = d[np.asarray(autos), :, ip].real
    flags = ((idx * 5 + seed) % 7) == 0
    nsamp = ((idx * 3 + seed) % 11 + 1) / 4.0
    return d.astype(dtype), flags, nsamp.astype(np.float32)


def uvd(
    ants="three",
    nt=3,
    layout="time",
    nf=4,
    spw="one",
    pols=(-5, -6, -7, -8),
    pc="unproj",
    x_orient="east",
    nants=5,
    eq=False,
    extras=True,
    scan=False,
    seed=0,
    inttime="const",
    t0=JD0,
    meta=False,
    f0=1.0e8,
    dtype=np.complex128,
    timestep=DT,
    vis_units="Jy",
    order=None,
    diam=True,
):
    if t0 == "wrap":
        t0 = wrap_t0()
    pairs = ANTPAIRS[ants] if isinstance(ants, str) else [tuple(a) for a in ants]
    times = t0 + np.arange(nt) * timestep
    nb = len(pairs)
    rect = True
    if layout == "time":
        blts = [(t, b) for t in range(nt) for b in range(nb)]
        tfast = False
    elif layout == "bl":
        blts = [(t, b) for b in range(nb) for t in range(nt)]
        tfast = True
    elif layout == "ragged":
        blts = [(t, b) for t in range(nt) for b in range(nb)]
        blts = [x for i, x in enumerate(blts) if i % 5 != 3]
        rect = False
    elif layout == "shuffle":
        blts = [(t, b) for t in range(nt) for b in range(nb)]
        n = len(blts)
        step = next(s for s in (7, 5, 11, 3, 1) if n % s)
        blts = [blts[(i * step + 2) % n] for i in range(n)]
        rect = False
    elif layout == "ragshuf":
        blts = [(t, b) for t in range(nt) for b in range(nb)]
        blts = [x for i, x in enumerate(blts) if i % 4 != 2]
        n = len(blts)
        step = next(s for s in (7, 5, 11, 3, 1) if n % s)
        blts = [blts[(i * step + 1) % n] for i in range(n)]
        rect = False
    else:
        raise ValueError(layout)
    tind = np.array([x[0] for x in blts])
    bind = np.array([x[1] for x in blts])
    tarr = times[tind]
    aparr = np.array(pairs)[bind]
    tel = telescope(nants, x_orient, diam)
    freqs, width, spwid = freq_axis(nf, spw, f0)
    flexpol = None
    pols = list(pols)
    if inttime == "const":
        it = np.full(len(blts), timestep * 86400.0)
    elif inttime == "bybl":
        it = 10.0 + 0.5 * bind
    else:
        it = 5.0 + np.arange(len(blts)) * 0.25
    cat, ids = pc_setup(pc, tind, bind)
    uv = UVData.new(
        freq_array=freqs,
        channel_width=width,
        flex_spw_id_array=spwid,
        polarization_array=np.array(pols),
        times=tarr,
        antpairs=aparr,
        do_blt_outer=False,
        integration_time=it,
        telescope=tel,
        phase_center_catalog=cat,
        phase_center_id_array=ids,
        vis_units=vis_units,
    )
    uv.history = f"mc test object {seed}."
    autos = aparr[:, 0] == aparr[:, 1]
    if not meta:
        d, f, n = cell_data(
            len(blts), nf, len(pols), seed=seed, autos=autos, pols=pols, dtype=dtype
        )
        uv.data_array, uv.flag_array, uv.nsample_array = d, f, n
    if scan:
        uv.scan_number_array = (tind // 2 + 1).astype(int)
    if extras:
        uv.extra_keywords = {"KEYA": "hello", "KEYI": 7, "KEYF": 2.5, "KEYB": True}
        uv.dut1 = 0.25
        uv.earth_omega = 360.98
        uv.gst0 = 12.5
        uv.rdate = "2020-10-01"
        uv.timesys = "UTC"
    if eq:
        uv.eq_coeffs = (
            np.arange(nants * nf, dtype=float).reshape(nants, nf) * 0.125 + 1.0
        )
        uv.eq_coeffs_convention = "divide"
    if spw == "flexpol":
        pass
    uv.set_rectangularity(force=True)
    return uv


_wrap = []


def wrap_t0():
    """A start time such that the LST passes through 0 inside the data set."""
    if not _wrap:
        from pyuvdata.utils import get_lst_for_time

        t = JD0 + np.arange(0, 1.2, 1e-4)
        lst = get_lst_for_time(t, telescope_loc=LOC)
        i = int(np.nonzero(np.diff(lst) < 0)[0][0])
        _wrap.append(float(t[i] + 0.5e-4 - 1.5 * DT))
    return _wrap[0]


def freq_axis(nf, spw, f0=1.0e8):
    """freqs, widths, spw ids (None for a single window)."""
    if spw == "one":
        return f0 + np.arange(nf) * 1e5, np.full(nf, 1e5), None
    if spw == "one_desc":
        return f0 + np.arange(nf)[::-1] * 1e5, np.full(nf, 1e5), None
    h = nf // 2
    if spw == "two":
        # contiguous windows, different widths, window ids not 0-based
        f = np.concatenate([f0 + np.arange(h) * 1e5, f0 + 5e6 + np.arange(nf - h) * 2e5])
        w = np.concatenate([np.full(h, 1e5), np.full(nf - h, 2e5)])
        s = np.concatenate([np.full(h, 2), np.full(nf - h, 5)])
        return f, w, s
    if spw == "two_eqw":
        f = np.concatenate([f0 + np.arange(h) * 1e5, f0 + 5e6 + np.arange(nf - h) * 1e5])
        w = np.full(nf, 1e5)
        s = np.concatenate([np.full(h, 0), np.full(nf - h, 1)])
        return f, w, s
    if spw == "two_rev":
        # window ids descending along the axis and lower window descending
        f = np.concatenate(
            [f0 + 5e6 + np.arange(h) * 1e5, f0 + np.arange(nf - h)[::-1] * 2e5]
        )
        w = np.concatenate([np.full(h, 1e5), np.full(nf - h, 2e5)])
        s = np.concatenate([np.full(h, 7), np.full(nf - h, 1)])
        return f, w, s
    if spw == "inter":
        # interleaved windows
        f = f0 + np.arange(nf) * 1e5
        w = np.full(nf, 1e5)
        s = np.arange(nf) % 2 + 1
        return f, w, s
    if spw == "overlap":
        # both windows contain the same frequencies
        f = np.concatenate([f0 + np.arange(h) * 1e5, f0 + np.arange(nf - h) * 1e5])
        w = np.full(nf, 1e5)
        s = np.concatenate([np.full(h, 1), np.full(nf - h, 2)])
        return f, w, s
    raise ValueError(spw)


def pc_setup(pc, tind, bind):
    if pc == "unproj":
        return {0: pc_entry("unproj")}, np.zeros(len(tind), int)
    if pc in ("sidA", "sidB", "sidC", "drift", "ephem"):
        return {2: pc_entry(pc)}, np.full(len(tind), 2)
    if pc == "multi":
        # phase centre changes with time; ids not contiguous
        return (
            {3: pc_entry("sidA"), 1: pc_entry("sidB")},
            np.where(tind % 2 == 0, 3, 1),
        )
    if pc == "epochs":
        return (
            {0: pc_entry("sidB"), 2: pc_entry("sidC")},
            np.where(tind % 2 == 0, 2, 0),
        )
    if pc == "mixed":
        # four kinds, also varying with baseline at fixed time
        cat = {
            0: pc_entry("unproj"),
            4: pc_entry("sidA"),
            2: pc_entry("drift"),
            7: pc_entry("ephem"),
        }
        ids = np.array([0, 4, 2, 7])[(tind + 2 * bind) % 4]
        cat = {k: v for k, v in cat.items() if k in ids}
        return cat, ids
    if pc == "unused":
        return ({3: pc_entry("sidA"), 1: pc_entry("sidB")}, np.full(len(tind), 3))
    raise ValueError(pc)
