"""C16: operations change only the object they are called on, completely or not at all, and results share nothing with operands."""

import io as _io
import itertools
import os
import warnings
from contextlib import redirect_stdout

import numpy as np
from astropy.coordinates import EarthLocation, SkyCoord
from pyuvdata import UVBeam, UVCal, UVData, UVFlag, utils

from mc import beam, cal, flag, gen, io
from mc.core import Violation, digest, require
from mc.model import Frozen, freeze, _eqimg

ID = "C16"
BOUNDS = (
    "every public operation of UVData (7 configurations), UVCal (6), UVFlag (9) and UVBeam (7) with its argument variants, valid and refused; both in-place forms; "
    "after every operation that gives an object, the sequence of all in-place operations on the result, the operand and the argument with the other two watched."
)
ASSUMPTIONS = ["constructors and setters may keep the arrays the caller hands over", "get_data-like accessors hand out read-only views"]

# ---------------------------------------------------------------- objects


def uv_cfg(n):
    return {
        "plain": lambda: gen.uvd(nt=4, nf=4, extras=True),
        "multi": lambda: gen.uvd(nt=4, nf=4, spw="two", pols=(-5, -7), pc="multi", ants="conj", scan=True, eq=True, layout="bl"),
        "mixed": lambda: gen.uvd(nt=4, nf=4, pc="mixed", pols=(-5, -6), layout="ragged"),
        "meta": lambda: gen.uvd(nt=4, nf=4, pc="sidA", meta=True),
        "drift": lambda: gen.uvd(nt=4, nf=2, pc="drift", pols=(-6, -5), ants="autos", vis_units="uncalib"),
        "ephem": lambda: gen.uvd(nt=3, nf=2, pc="ephem", pols=(1, 2), layout="shuffle", extras=False),
        "flex": lambda: _flexpol(),
    }[n]()


def _flexpol():
    u = gen.uvd(nt=4, nf=2, pols=(-5, -6), extras=False)
    u.convert_to_flex_pol()
    return u


def cal_cfg(n):
    return {
        "gain": lambda: cal.uvc(nf=4, nt=4, ref=True),
        "sky": lambda: cal.uvc(spw="two", style="sky", pc=True, scan=True, trange=True, jones=(-5, -6, -7, -8), tq=True),
        "delay": lambda: cal.uvc(kind="delay", spw="two", quality=False),
        "wide": lambda: cal.uvc(kind="wide", spw="two_rev", trange=True),
        "meta": lambda: cal.uvc(meta=True),
        "flex": lambda: _flexjones(),
    }[n]()


def _flexjones():
    c = cal.uvc(spw="one", nf=2)
    c.convert_to_flex_jones()
    return c


FLAGS = [(k, m) for k in ("bt", "bt.w", "at", "at.w") for m in ("flag", "metric")]
BEAMS = ["ae", "cer", "ce", "hw", "pe", "cx", "aeP", "hs"]
CFG = {
    "UVData": ["plain", "multi", "mixed", "meta", "drift", "ephem", "flex"],
    "UVCal": ["gain", "sky", "delay", "wide", "meta", "flex"],
    "UVFlag": [f"{k}:{m}" for k, m in FLAGS],
    "UVBeam": ["ae", "ce", "hw", "pe", "cx", "aeP", "hs"],
}


def make(cls, cfg):
    if cls == "UVData":
        return uv_cfg(cfg)
    if cls == "UVCal":
        return cal_cfg(cfg)
    if cls == "UVFlag":
        return flag.make(*cfg.split(":"))
    return beam.make(cfg, nf=4) if cfg not in ("hw",) else beam.make(cfg, nf=4)


# ---------------------------------------------------------------- operations
# name -> function(obj, inplace or None, aux) ; class of operation
#   I: has inplace keyword; returns the new object when inplace is False
#   R: returns new things and leaves the object alone
#   M: changes the object


def shift_t(o, k=1.0):
    w = o.copy()
    if w.time_array is not None:
        w.time_array = w.time_array + 0.25 * k
    if getattr(w, "time_range", None) is not None:
        w.time_range = w.time_range + 0.25 * k
    try:
        w.set_lsts_from_time_array()
    except Exception:
        pass
    if isinstance(w, UVData):
        w._set_app_coords_helper()
    w.history = w.history + " shifted"
    return w


def shift_f(o):
    w = o.copy()
    if w.freq_array is not None:
        w.freq_array = w.freq_array + 1e8
    if getattr(w, "freq_range", None) is not None:
        w.freq_range = w.freq_range + 1e8
        w.spw_array = w.spw_array + 20
    return w


def other_pol(o):
    w = o.copy()
    if isinstance(w, UVCal):
        w.jones_array = w.jones_array + (2 if w.jones_array.min() < -6 else -2)
    elif isinstance(w, UVBeam) and w.beam_type == "efield":
        w.feed_array = np.array(["r", "l"][: w.Nfeeds])
    else:
        w.polarization_array = w.polarization_array - 4 if np.max(w.polarization_array) < 0 else w.polarization_array + 2
    return w


def other_tel(o):
    w = shift_t(o)
    w.telescope.name = "elsewhere"
    return w


def bad_half(o):
    """Compatible on the added axis only at first sight."""
    w = shift_t(o)
    if isinstance(w, UVData):
        w.vis_units = "K str"
    elif isinstance(w, UVCal):
        w.gain_convention = "multiply"
    return w


def other_name(o):
    """A different centre with the same name, and an unused one."""
    w = shift_t(o)
    for e in w.phase_center_catalog.values():
        if e["cat_type"] == "sidereal":
            e["cat_lon"] = e["cat_lon"] + 0.1
    return w


def first(p, n=1):
    return list(np.unique(p)[:n])


def uv_ops():
    O = {}

    def I(name, f):
        O[name] = ("I", f)

    def R(name, f):
        O[name] = ("R", f)

    def M(name, f):
        O[name] = ("M", f)

    for nm, kw in {
        "times": lambda o: dict(times=first(o.time_array, 2)),
        "time_range": lambda o: dict(time_range=[o.time_array.min() - 1, o.time_array.min() + 1e-6]),
        "lsts": lambda o: dict(lsts=first(o.lst_array, 2)),
        "chans": lambda o: dict(freq_chans=np.array([0])),
        "freqs": lambda o: dict(frequencies=o.freq_array[:1]),
        "ants": lambda o: dict(antenna_nums=np.array([0, 3])),
        "names": lambda o: dict(antenna_names=np.array(o.telescope.antenna_names[:3])),
        "bls": lambda o: dict(bls=o.get_antpairs()[:2]),
        "rev": lambda o: dict(bls=[(b, a) for a, b in o.get_antpairs()[:2]]),
        "antstr": lambda o: dict(ant_str="cross"),
        "pols": lambda o: dict(polarizations=o.polarization_array[-1:]) if o.flex_spw_polarization_array is None else dict(polarizations=o.flex_spw_polarization_array[:1]),
        "blt": lambda o: dict(blt_inds=np.arange(o.Nblts)[::2]),
        "blt_rev": lambda o: dict(blt_inds=np.arange(o.Nblts)[::-1]),
        "pc": lambda o: dict(phase_center_ids=first(o.phase_center_id_array)),
        "cat": lambda o: dict(catalog_names=[list(o.phase_center_catalog.values())[0]["cat_name"]]),
        "all": lambda o: dict(),
        "many": lambda o: dict(blt_inds=np.arange(o.Nblts - 1), freq_chans=[0], polarizations=o.polarization_array[:1]),
        "bad_time": lambda o: dict(freq_chans=[0], times=[1.0]),
        "bad_freq": lambda o: dict(times=first(o.time_array), frequencies=[1.0]),
        "bad_pol": lambda o: dict(times=first(o.time_array), freq_chans=[0], polarizations=[-2]),
        "bad_ant": lambda o: dict(antenna_nums=[999]),
        "bad_bl": lambda o: dict(bls=[(0, 999)]),
        "bad_blt": lambda o: dict(freq_chans=[0], blt_inds=[0, 10000]),
        "bad_chan": lambda o: dict(times=first(o.time_array), freq_chans=[100]),
        "bad_cat": lambda o: dict(catalog_names=["none such"]),
        "bad_both": lambda o: dict(antenna_nums=[0], antenna_names=["x"]),
        "bad_empty": lambda o: dict(times=first(o.time_array, 1), time_range=[0, 1]),
    }.items():
        I("select." + nm, lambda o, ip, x, kw=kw: o.select(inplace=ip, **kw(o)))
    for nm, g in {"t": shift_t, "f": shift_f, "p": other_pol, "tel": other_tel, "bad": bad_half, "name": other_name, "self": lambda o: o.copy(), "type": lambda o: 3}.items():
        I("add." + nm, lambda o, ip, x: o.__add__(x, inplace=ip))
        O["add." + nm] += (g,)
        if nm in ("t", "name"):
            R("plus." + nm, lambda o, ip, x: o + x)
            O["plus." + nm] += (g,)
        for ax in ("blt", "freq", "polarization", "bogus"):
            I(f"concat.{nm}.{ax}", lambda o, ip, x, ax=ax: o.fast_concat(x, ax, inplace=ip))
            O[f"concat.{nm}.{ax}"] += (g,)
    I("concat.list", lambda o, ip, x: o.fast_concat([x, shift_t(x)], "blt", inplace=ip))
    O["concat.list"] += (shift_t,)
    I("concat.list_bad", lambda o, ip, x: o.fast_concat([shift_t(o), x], "blt", inplace=ip))
    O["concat.list_bad"] += (lambda o: other_tel(shift_t(o)),)
    for nm, g in {"self": lambda o: o.copy(), "t": shift_t, "tel": other_tel, "bad": bad_half}.items():
        I("sum." + nm, lambda o, ip, x: o.sum_vis(x, inplace=ip))
        O["sum." + nm] += (g,)
        I("diff." + nm, lambda o, ip, x: o.diff_vis(x, inplace=ip))
        O["diff." + nm] += (g,)
    I("sum.override", lambda o, ip, x: o.sum_vis(x, inplace=ip, override_params=["vis_units"]))
    O["sum.override"] += (lambda o: bad_half(o),)
    for kw in (dict(method="select"), dict(method="average"), dict(method="average", use_grid_alg=True), dict(method="bogus"), dict(method="average", tol=1000.0)):
        I("compress." + str(kw), lambda o, ip, x, kw=kw: o.compress_by_redundancy(inplace=ip, **kw))
    # results
    R("copy", lambda o, ip, x: o.copy())
    R("metacopy", lambda o, ip, x: o.copy(metadata_only=True))
    R("deepcopy", lambda o, ip, x: __import__("copy").deepcopy(o))
    R("pickle", lambda o, ip, x: __import__("pickle").loads(__import__("pickle").dumps(o)))
    R("eq", lambda o, ip, x: o == x)
    O["eq"] += (shift_t,)
    R("check", lambda o, ip, x: o.check())
    for nm, f in {
        "get_data": lambda o: o.get_data(o.get_antpairs()[0], force_copy=True),
        "get_ENU": lambda o: o.get_enu_data_ants(),
        "redund": lambda o: o.get_redundancies(),
        "redund_ant": lambda o: o.get_redundancies(use_antpos=True, include_conjugates=True),
        "redund_grid": lambda o: o.get_redundancies(use_grid_alg=True, include_autos=False),
        "parse": lambda o: o.parse_ants("all"),
        "parse_bad": lambda o: o.parse_ants("1_99xx"),
        "bad_key": lambda o: o.get_data(55, 66),
        "pairs": lambda o: (o.get_antpairs(), o.get_ants(), o.get_pols(), o.get_antpairpols()),
        "iter": lambda o: [k for k, d in o.antpairpol_iter()],
        "print": lambda o: o.print_phase_center_info(),
        "flags2waterfall": lambda o: __import__("pyuvdata.uvflag.uvflag", fromlist=["x"]).flags2waterfall(o),
        "flag_bt": lambda o: UVFlag(o, mode="metric"),
        "flag_bt_copy": lambda o: UVFlag(o, mode="flag", copy_flags=True),
        "flag_w": lambda o: UVFlag(o, waterfall=True),
        "cal_from": lambda o: UVCal.initialize_from_uvdata(o, gain_convention="divide", cal_style="redundant", jones_array="linear"),
        "cal_from_bad": lambda o: UVCal.initialize_from_uvdata(o, gain_convention="divide", cal_style="redundant", jones_array="linear", cal_type="bogus"),
        "fast_print": lambda o: repr(o),
    }.items():
        R(nm, lambda o, ip, x, f=f: f(o))
    for sf, kw in ((".uvh5", {}), (".uvh5", dict(data_write_dtype="c8")), (".uvfits", {}), (".ms", {}), (".uv", {}), (".uvh5", dict(fix_autos=True)), (".uvfits", dict(use_miriad_convention=True)), (".uvh5", dict(no_such_keyword=1))):
        def w(o, ip, x, sf=sf, kw=kw):
            p = io.path(sf)
            none = sf == ".ms" and o.scan_number_array is None
            try:
                {".uvh5": o.write_uvh5, ".uvfits": o.write_uvfits, ".ms": o.write_ms, ".uv": o.write_miriad}[sf](p, **kw)
            finally:
                io.rm(p)
                if none:  # the upstream tests expect that missing scan numbers are filled in
                    o.scan_number_array = None

        R("write" + sf + str(kw or ""), w)
    R("init_uvh5", lambda o, ip, x: _with_file(o.initialize_uvh5_file, ".uvh5"))
    # changes
    for nm, f in {
        "conj12": lambda o: o.conjugate_bls("ant1<ant2"),
        "conj_u": lambda o: o.conjugate_bls("u<0"),
        "conj_v": lambda o: o.conjugate_bls("v>0", use_enu=False),
        "conj_arr": lambda o: o.conjugate_bls(np.array([0])),
        "conj_bad": lambda o: o.conjugate_bls("bogus"),
        "conj_big": lambda o: o.conjugate_bls(np.array([0, 10000])),
        "rb_time": lambda o: o.reorder_blts("time"),
        "rb_bl": lambda o: o.reorder_blts("baseline", minor_order="time", conj_convention="ant2<ant1"),
        "rb_autos": lambda o: o.reorder_blts("ant1", autos_first=True),
        "rb_arr": lambda o: o.reorder_blts(np.arange(o.Nblts)[::-1]),
        "rb_bad": lambda o: o.reorder_blts("bogus"),
        "rb_bad2": lambda o: o.reorder_blts("time", minor_order="bogus", conj_convention="ant2<ant1"),
        "rb_bad3": lambda o: o.reorder_blts(np.arange(3), conj_convention="ant2<ant1"),
        "rb_bad4": lambda o: o.reorder_blts("time", conj_convention="bogus"),
        "rp_aips": lambda o: o.reorder_pols("AIPS"),
        "rp_casa": lambda o: o.reorder_pols("CASA"),
        "rp_arr": lambda o: o.reorder_pols(np.arange(o.Npols)[::-1]),
        "rp_bad": lambda o: o.reorder_pols("bogus"),
        "rp_bad2": lambda o: o.reorder_pols([0, 1, 2, 3, 4]),
        "rf_rev": lambda o: o.reorder_freqs(channel_order="-freq"),
        "rf_spw": lambda o: o.reorder_freqs(spw_order="-number", channel_order="freq"),
        "rf_arr": lambda o: o.reorder_freqs(channel_order=np.arange(o.Nfreqs)[::-1]),
        "rf_bad": lambda o: o.reorder_freqs(channel_order="bogus"),
        "rf_bad2": lambda o: o.reorder_freqs(spw_order="number", channel_order=np.arange(9)),
        "rf_bad3": lambda o: o.reorder_freqs(spw_order="bogus", channel_order="-freq"),
        "rf_bad4": lambda o: o.reorder_freqs(spw_order=np.array([5, 6]), channel_order="-freq"),
        "phase": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", cat_type="sidereal"),
        "phase_sel": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", cat_type="sidereal", select_mask=np.arange(o.Nblts) < 2),
        "phase_drift": lambda o: o.phase(lon=0.5, lat=1.4, cat_name="x", cat_type="driftscan"),
        "phase_bad": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="bogus", cat_name="x", cat_type="sidereal"),
        "phase_bad2": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", cat_type="bogus"),
        "phase_bad3": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", cat_type="ephem"),
        "phase_bad4": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", select_mask=np.ones(o.Nblts + 3, bool)),
        "phase_bad5": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="fk5", epoch="bogus", cat_name="x"),
        "phase_bad6": lambda o: o.phase(lon=0.5, lat=-0.4, phase_frame="icrs", cat_name="x", ephem_times=np.array([1.0, 2.0]), cat_type="ephem"),
        "phase_bad7": lambda o: o.phase(lookup_name=True, cat_name="none such"),
        "unproject": lambda o: o.unproject_phase(),
        "unproject_sel": lambda o: o.unproject_phase(select_mask=np.arange(o.Nblts) < 2),
        "unproject_bad": lambda o: o.unproject_phase(select_mask=np.ones(o.Nblts + 3, bool)),
        "to_time": lambda o: o.phase_to_time(float(o.time_array[0])),
        "to_time_bad": lambda o: o.phase_to_time("bogus"),
        "to_time_bad2": lambda o: o.phase_to_time(float(o.time_array[0]), phase_frame="bogus"),
        "set_uvws": lambda o: o.set_uvws_from_antenna_positions(),
        "up": lambda o: o.upsample_in_time(6.0, allow_drift=True),
        "up_phase": lambda o: o.upsample_in_time(6.0, allow_drift=False),
        "up_no": lambda o: o.upsample_in_time(1000.0),
        "up_bl": lambda o: o.upsample_in_time(6.0, blt_order="baseline", minor_order="bogus", allow_drift=True),
        "down": lambda o: o.downsample_in_time(n_times_to_avg=2, allow_drift=True),
        "down_phase": lambda o: o.downsample_in_time(min_int_time=20.0, allow_drift=False),
        "down_bad": lambda o: o.downsample_in_time(n_times_to_avg=100, allow_drift=True),
        "down_bad2": lambda o: o.downsample_in_time(n_times_to_avg=2, min_int_time=3.0),
        "down_bad3": lambda o: o.downsample_in_time(min_int_time=1.0),
        "down_bad4": lambda o: o.downsample_in_time(n_times_to_avg=2, allow_drift=True, blt_order="bogus"),
        "resample": lambda o: o.resample_in_time(20.0, allow_drift=True),
        "resample_bad": lambda o: o.resample_in_time(20.0, only_upsample=True, only_downsample=True),
        "favg": lambda o: o.frequency_average(2),
        "favg3": lambda o: o.frequency_average(3, keep_ragged=False),
        "favg_bad": lambda o: o.frequency_average(100),
        "to_flex": lambda o: o.convert_to_flex_pol(),
        "from_flex": lambda o: o.remove_flex_pol(),
        "from_flex2": lambda o: o.remove_flex_pol(combine_spws=False),
        "inflate": lambda o: o.inflate_by_redundancy(),
        "move_ants": lambda o: o.update_antenna_positions(new_positions={0: np.array([1.0, 2.0, 3.0])}, delta_antpos=True),
        "move_bad": lambda o: o.update_antenna_positions(new_positions={999: np.array([1.0, 2.0, 3.0])}),
        "norm": lambda o: o.normalize_by_autos(),
        "eqc": lambda o: o.remove_eq_coeffs(),
        "ren": lambda o: o.rename_phase_center(next(iter(o.phase_center_catalog)), "new name"),
        "ren_bad": lambda o: o.rename_phase_center("none such", "new name"),
        "lst": lambda o: o.set_lsts_from_time_array(),
        "lst_bad": lambda o: o.set_lsts_from_time_array(astrometry_library="bogus"),
        "rect": lambda o: o.set_rectangularity(force=True),
        "set_bad": lambda o: o.set_data(np.zeros((1, 1, 1)), o.get_antpairs()[0]),
        "tel": lambda o: o.set_telescope_params(),
    }.items():
        M(nm, lambda o, ip, x, f=f: f(o))
    return O


def _with_file(f, sf):
    p = io.path(sf)
    try:
        return f(p)
    finally:
        io.rm(p)


def cal_ops():
    O = {}

    def I(name, f):
        O[name] = ("I", f)

    def R(name, f):
        O[name] = ("R", lambda o, ip, x: f(o))

    def M(name, f):
        O[name] = ("M", lambda o, ip, x: f(o))

    def tm(o):
        return dict(times=o.time_array[:2]) if o.time_array is not None else dict(time_range=[o.time_range[0, 0], o.time_range[1, 1]])

    for nm, kw in {
        "times": tm,
        "chans": lambda o: dict(freq_chans=np.array([0])),
        "freqs": lambda o: dict(frequencies=o.freq_array[:1]),
        "ants": lambda o: dict(antenna_nums=np.array([0, 3])),
        "names": lambda o: dict(antenna_names=np.array([o.telescope.antenna_names[0]])),
        "jones": lambda o: dict(jones=o.jones_array[-1:]),
        "spws": lambda o: dict(spws=o.spw_array[:1]),
        "pc": lambda o: dict(phase_center_ids=first(o.phase_center_id_array)),
        "many": lambda o: dict(antenna_nums=[0], jones=o.jones_array[:1], **tm(o)),
        "bad_ant": lambda o: dict(antenna_nums=[0, 999], **tm(o)),
        "bad_time": lambda o: dict(antenna_nums=[0], times=[1.0]),
        "bad_jones": lambda o: dict(antenna_nums=[0], jones=[-1]),
        "bad_freq": lambda o: dict(antenna_nums=[0], frequencies=[1.0]),
        "bad_chan": lambda o: dict(antenna_nums=[0], freq_chans=[1000]),
        "bad_range": lambda o: dict(antenna_nums=[0], time_range=[0.0, 1.0]),
    }.items():
        I("select." + nm, lambda o, ip, x, kw=kw: o.select(inplace=ip, **kw(o)))
    def other_ant(o):
        w = o.copy()
        w.select(antenna_nums=w.ant_array[:1])
        w.ant_array = np.array([5])
        return w

    for nm, g in {"t": shift_t, "f": shift_f, "j": other_pol, "ant": other_ant, "tel": other_tel, "bad": bad_half, "self": lambda o: o.copy(), "type": lambda o: "x"}.items():
        I("add." + nm, lambda o, ip, x: o.__add__(x, inplace=ip))
        O["add." + nm] += (g,)
        for ax in ("time", "freq", "jones", "antenna", "spw", "bogus"):
            I(f"concat.{nm}.{ax}", lambda o, ip, x, ax=ax: o.fast_concat(x, ax, inplace=ip))
            O[f"concat.{nm}.{ax}"] += (g,)
    O["plus"] = ("R", lambda o, ip, x: o + x, shift_t)
    O["eq"] = ("R", lambda o, ip, x: o == x, shift_t)
    R("copy", lambda o: o.copy())
    R("metacopy", lambda o: o.copy(metadata_only=True))
    R("check", lambda o: o.check())
    R("gains", lambda o: (o.get_gains(o.ant_array[0], o.jones_array[0]).copy(), o.get_flags(o.ant_array[0]).copy(), o.get_quality(o.ant_array[0]).copy()))
    R("flag", lambda o: UVFlag(o, mode="metric"))
    R("flag_copy", lambda o: UVFlag(o, mode="flag", copy_flags=True))
    R("flag_w", lambda o: UVFlag(o, waterfall=True))
    for sf, kw in ((".calfits", {}), (".calh5", {}), (".calh5", dict(clobber=True)), (".mscal", {})):
        def w(o, sf=sf, kw=kw):
            p = io.path(sf)
            try:
                {".calfits": o.write_calfits, ".calh5": o.write_calh5, ".mscal": o.write_ms_cal}[sf](p, **kw)
            finally:
                io.rm(p)

        R("write" + sf + str(kw), w)
    for nm, f in {
        "ra": lambda o: o.reorder_antennas("-name"),
        "ra_arr": lambda o: o.reorder_antennas(np.arange(o.Nants_data)[::-1]),
        "ra_bad": lambda o: o.reorder_antennas("bogus"),
        "ra_bad2": lambda o: o.reorder_antennas(np.arange(9)),
        "rf": lambda o: o.reorder_freqs(channel_order="-freq"),
        "rf_spw": lambda o: o.reorder_freqs(spw_order="-number"),
        "rf_bad": lambda o: o.reorder_freqs(spw_order="-number", channel_order="bogus"),
        "rf_bad2": lambda o: o.reorder_freqs(spw_order=np.arange(7)),
        "rt": lambda o: o.reorder_times("-time"),
        "rt_arr": lambda o: o.reorder_times(np.arange(o.Ntimes)[::-1]),
        "rt_bad": lambda o: o.reorder_times("bogus"),
        "rt_bad2": lambda o: o.reorder_times([0, 0, 1]),
        "rj": lambda o: o.reorder_jones("-number"),
        "rj_bad": lambda o: o.reorder_jones("bogus"),
        "to_gain": lambda o: o.convert_to_gain(),
        "to_gain_cw": lambda o: o.convert_to_gain(freq_array=np.array([1.01e8, 1.02e8, 1.11e8, 1.12e8]), channel_width=np.full(4, 1e6)),
        "to_gain_m": lambda o: o.convert_to_gain(delay_convention="plus", freq_array=np.array([1.01e8, 1.02e8]), channel_width=np.full(2, 1e6)),
        "to_gain_bad": lambda o: o.convert_to_gain(delay_convention="bogus", freq_array=np.array([1.01e8]), channel_width=np.array([1e6])),
        "to_gain_bad2": lambda o: o.convert_to_gain(freq_array=np.array([1.01e8, 5e8]), channel_width=np.full(2, 1e6)),
        "to_flex": lambda o: o.convert_to_flex_jones(),
        "from_flex": lambda o: o.remove_flex_jones(),
        "from_flex2": lambda o: o.remove_flex_jones(combine_spws=False),
        "lst": lambda o: o.set_lsts_from_time_array(),
        "lst_bad": lambda o: o.set_lsts_from_time_array(astrometry_library="bogus"),
        "tel": lambda o: o.set_telescope_params(),
    }.items():
        M(nm, f)
    return O


def flag_ops():
    O = {}

    def I(name, f, *g):
        O[name] = ("I", f, *g)

    def R(name, f, *g):
        O[name] = ("R", f, *g)

    def M(name, f, *g):
        O[name] = ("M", f, *g)

    for nm, kw in {
        "times": lambda o: dict(times=first(o.time_array, 2)),
        "chans": lambda o: dict(freq_chans=np.array([0])),
        "freqs": lambda o: dict(frequencies=o.freq_array[:1]),
        "ants": lambda o: dict(antenna_nums=np.array([0, 3])),
        "bls": lambda o: dict(bls=o.get_antpairs()[:2]),
        "antstr": lambda o: dict(ant_str="cross"),
        "pols": lambda o: dict(polarizations=o.polarization_array[-1:]),
        "blt": lambda o: dict(blt_inds=np.array([0, 2])),
        "many": lambda o: dict(times=first(o.time_array), freq_chans=[0], polarizations=o.polarization_array[:1]),
        "bad_time": lambda o: dict(freq_chans=[0], times=[1.0]),
        "bad_freq": lambda o: dict(times=first(o.time_array), frequencies=[1.0]),
        "bad_pol": lambda o: dict(times=first(o.time_array), polarizations=[-40]),
        "bad_ant": lambda o: dict(times=first(o.time_array), antenna_nums=[999]),
        "bad_chan": lambda o: dict(times=first(o.time_array), freq_chans=[1000]),
    }.items():
        I("select." + nm, lambda o, ip, x, kw=kw: o.select(inplace=ip, **kw(o)))

    def oth(o):
        w = o.copy()
        flag.fill(w, 5)
        return w

    for nm, g in {"t": shift_t, "f": shift_f, "tel": other_tel, "type": lambda o: 3, "oth": oth}.items():
        for ax in ("time", "frequency", "baseline", "antenna", "polarization", "bogus"):
            I(f"add.{nm}.{ax}", lambda o, ip, x, ax=ax: o.__add__(x, axis=ax, inplace=ip), g)
        I("or." + nm, lambda o, ip, x: o.__or__(x, inplace=ip), g)
        R("or2." + nm, lambda o, ip, x: o | x, g)
        I("combine." + nm, lambda o, ip, x: o.combine_metrics(x, inplace=ip), g)
        I("combine_l." + nm, lambda o, ip, x: o.combine_metrics([x, x.copy()], inplace=ip, method="absmean"), g)
    R("copy", lambda o, ip, x: o.copy())
    R("eq", lambda o, ip, x: o == x, oth)
    R("eqh", lambda o, ip, x: o.__eq__(x, check_history=False), oth)
    R("check", lambda o, ip, x: o.check())
    R("write", lambda o, ip, x: _with_file(o.write, ".uvflag"))
    R("lists", lambda o, ip, x: (o.get_antpairs(), o.get_ants(), o.get_pols(), o.get_baseline_nums()))
    R("new_w", lambda o, ip, x: UVFlag(o, waterfall=True))

    def uvmate(o):
        d = [k for k in ("bt", "at")]
        return flag.uvdata("bt")

    def calmate(o):
        return flag.uvcal("at")

    for nm, f, g in (
        ("to_bl", lambda o, x: o.to_baseline(x), uvmate),
        ("to_bl_f", lambda o, x: o.to_baseline(x, force_pol=True), uvmate),
        ("to_bl_cal", lambda o, x: o.to_baseline(x), calmate),
        ("to_bl_bad", lambda o, x: o.to_baseline(x), lambda o: shift_t(uvmate(o))),
        ("to_bl_bad2", lambda o, x: o.to_baseline(3), uvmate),
        ("to_ant", lambda o, x: o.to_antenna(x), calmate),
        ("to_ant_f", lambda o, x: o.to_antenna(x, force_pol=True), calmate),
        ("to_ant_bad", lambda o, x: o.to_antenna(x), lambda o: shift_t(calmate(o))),
        ("to_ant_uv", lambda o, x: o.to_antenna(x), uvmate),
        ("sort", lambda o, x: o.sort_ant_metadata_like(x), uvmate),
    ):
        M(nm, lambda o, ip, x, f=f: f(o, x), g)
    for nm, f in {
        "wf": lambda o: o.to_waterfall(),
        "wf_keep": lambda o: o.to_waterfall(keep_pol=False, method="quadmean"),
        "wf_bad": lambda o: o.to_waterfall(method="bogus"),
        "flag": lambda o: o.to_flag(threshold=3.0),
        "flag_bad": lambda o: o.to_flag(threshold="x"),
        "metric": lambda o: o.to_metric(),
        "metric_w": lambda o: o.to_metric(convert_wgts=True),
        "cpol": lambda o: o.collapse_pol(),
        "cpol_bad": lambda o: o.collapse_pol(method="bogus"),
        "clear": lambda o: o.clear_unused_attributes(),
        "lst": lambda o: o.set_lsts_from_time_array(),
        "lst_bad": lambda o: o.set_lsts_from_time_array(astrometry_library="bogus"),
    }.items():
        M(nm, lambda o, ip, x, f=f: f(o))
    return O


def beam_ops():
    O = {}

    def I(name, f, *g):
        O[name] = ("I", f, *g)

    def R(name, f, *g):
        O[name] = ("R", f, *g)

    def M(name, f, *g):
        O[name] = ("M", f, *g)

    for nm, kw in {
        "ax1": lambda o: dict(axis1_inds=[0, 1, 2]),
        "ax2": lambda o: dict(axis2_inds=np.array([1, 2])),
        "pix": lambda o: dict(pixels=o.pixel_array[:3]),
        "chans": lambda o: dict(freq_chans=np.array([0, 1])),
        "freqs": lambda o: dict(frequencies=o.freq_array[:1]),
        "feeds": lambda o: dict(feeds=list(o.feed_array[:1])),
        "pols": lambda o: dict(polarizations=o.polarization_array[:2]),
        "many": lambda o: dict(freq_chans=[0], axis1_inds=[0, 1], feeds=list(o.feed_array[:1])),
        "bad_ax": lambda o: dict(freq_chans=[0], axis1_inds=[0, 1000]),
        "bad_ax2": lambda o: dict(axis1_inds=[0], axis2_inds=[1000]),
        "bad_pix": lambda o: dict(pixels=[10**6], freq_chans=[0]),
        "bad_freq": lambda o: dict(axis1_inds=[0], frequencies=[1.0]),
        "bad_feed": lambda o: dict(freq_chans=[0], feeds=["q"]),
        "bad_pol": lambda o: dict(freq_chans=[0], polarizations=[-40]),
        "bad_chan": lambda o: dict(freq_chans=[1000]),
    }.items():
        I("select." + nm, lambda o, ip, x, kw=kw: o.select(inplace=ip, **kw(o)))

    def ax(o):
        w = o.copy()
        if o.pixel_coordinate_system == "healpix":
            w.select(pixels=o.pixel_array[-2:])
        else:
            w.axis2_array = w.axis2_array + 4 * (o.axis2_array[1] - o.axis2_array[0])
        return w

    def bad(o):
        w = shift_f(o)
        w.feed_name = "other"
        return w

    for nm, g in {"f": shift_f, "p": other_pol, "ax": ax, "bad": bad, "self": lambda o: o.copy(), "type": lambda o: 4}.items():
        I("add." + nm, lambda o, ip, x: o.__add__(x, inplace=ip), g)
        R("plus." + nm, lambda o, ip, x: o + x, g)
    for kw in ({}, dict(calc_cross_pols=False), dict(keep_basis_vector=True)):
        I(f"power{kw}", lambda o, ip, x, kw=kw: o.efield_to_power(inplace=ip, **kw))
    I("pstokes", lambda o, ip, x: o.efield_to_pstokes(inplace=ip))
    for kw in ({}, dict(nside=1), dict(nside=3), dict(interpolation_function="bogus"), dict(interpolation_function="az_za_simple", nside=2)):
        I(f"healpix{kw}", lambda o, ip, x, kw=kw: o.to_healpix(inplace=ip, **kw))
    R("copy", lambda o, ip, x: o.copy())
    R("eq", lambda o, ip, x: o == x, shift_f)
    R("check", lambda o, ip, x: o.check())
    R("area", lambda o, ip, x: (o.get_beam_area(), o.get_beam_sq_area()))
    R("area_bad", lambda o, ip, x: o.get_beam_area("bogus"))
    AZ, ZA = np.array([0.3, 1.1, 1.6]), np.array([0.4, 0.7, 0.9])
    for nm, kw in {
        "pts": dict(az_array=AZ, za_array=ZA),
        "freq": dict(az_array=AZ, za_array=ZA, freq_array=np.array([1.005e8, 1.015e8])),
        "both": dict(az_array=AZ, za_array=ZA, freq_array=np.array([1.005e8])),
        "grid": dict(az_array=AZ, za_array=ZA, az_za_grid=True),
        "grid_new": dict(az_array=np.array([1.1, 1.2, 1.3]), za_array=np.array([0.4, 0.5, 0.6]), az_za_grid=True, new_object=True),
        "freq_new": dict(freq_array=np.array([1.005e8, 1.015e8]), new_object=True),
        "hp_new": dict(healpix_nside=1, healpix_inds=np.arange(4), new_object=True),
        "basis": dict(az_array=AZ, za_array=ZA, return_basis_vector=True, return_coupling=True, return_bandpass=True),
        "bad_az": dict(az_array=AZ, za_array=ZA[:2]),
        "bad_range": dict(az_array=AZ, za_array=ZA + 3),
        "bad_freq": dict(freq_array=np.array([1.0, 2.0])),
        "bad_pol": dict(az_array=AZ, za_array=ZA, polarizations=["pQ"]),
        "bad_fn": dict(az_array=AZ, za_array=ZA, interpolation_function="bogus"),
        "bad_kind": dict(freq_array=np.array([1.005e8]), freq_interp_kind="bogus"),
        "bad_tol": dict(freq_array=np.array([1.0e8, 1.005e8]), freq_interp_kind="nearest", new_object=True, run_check=True, freq_interp_tol=0.5),
        "nearest": dict(freq_array=np.array([1.0e8]), freq_interp_kind="nearest", freq_interp_tol=1e3, new_object=True),
    }.items():
        def itp(o, ip, x, kw=kw):
            a = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in kw.items()}
            r = o.interp(**a)
            for k, v in a.items():
                if isinstance(v, np.ndarray):
                    require(np.array_equal(v, kw[k]), "interp changes its argument %s", k)
                    if kw.get("new_object"):
                        shared(r, v, "interp argument " + k)
            return r

        R("interp." + nm, itp)
    R("write", lambda o, ip, x: _with_file(o.write_beamfits, ".beamfits"))
    M("norm", lambda o, ip, x: o.peak_normalize())
    return O


OPS = {"UVData": uv_ops, "UVCal": cal_ops, "UVFlag": flag_ops, "UVBeam": beam_ops}
_ops = {}


def ops(cls):
    if cls not in _ops:
        _ops[cls] = OPS[cls]()
    return _ops[cls]


def cases(tier):
    out = []
    for cls in CFG:
        for cfg in CFG[cls]:
            for op in ops(cls):
                out.append(["op", cls, cfg, op])
    for cls, cfg in PAIRS if tier == "quick" else [(c, g) for c in CFG for g in CFG[c]]:
        for op in ops(cls):
            if ops(cls)[op][0] != "M":
                out.append(["pair", cls, cfg, op])
    return out


# ---------------------------------------------------------------- oracle


def mutables(v, path, out, seen):
    if isinstance(v, (str, bytes, int, float, complex, bool, type(None), np.generic, tuple)) and not isinstance(v, tuple):
        return
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, (EarthLocation, SkyCoord)) or type(v).__module__.startswith("lunarsky"):
        return
    if isinstance(v, np.ndarray):
        out.append((path, v, True))
        return
    if isinstance(v, dict):
        out.append((path, v, False))
        for k, x in v.items():
            mutables(x, f"{path}[{k!r}]", out, seen)
    elif isinstance(v, (list, set)):
        out.append((path, v, False))
        for i, x in enumerate(v):
            mutables(x, f"{path}[{i}]", out, seen)
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            mutables(x, f"{path}[{i}]", out, seen)
    elif hasattr(v, "__iter__") and hasattr(v, "check"):
        out.append((path, v, False))
        for p in v:
            mutables(getattr(v, p).value, path + "." + p[1:], out, seen)
        for k, x in vars(v).items():
            if isinstance(x, (dict, list, np.ndarray)) and not (isinstance(x, dict) and k.endswith("_dict")):
                mutables(x, f"{path}.{k}", out, seen)


def shared(a, b, what):
    la, lb = [], []
    mutables(a, "result", la, set())
    mutables(b, "operand", lb, set())
    arr = [(p, v) for p, v, is_a in lb if is_a and v.size]
    ids = {id(v): p for p, v, is_a in lb}
    for p, v, is_a in la:
        if id(v) in ids:
            raise Violation(f"{what}: {p} is the very {ids[id(v)]}")
        if is_a and v.size:
            for q, w in arr:
                if np.may_share_memory(v, w) and np.shares_memory(v, w):
                    raise Violation(f"{what}: {p} shares memory with {q}")


def call(f, *a):
    with warnings.catch_warnings(), redirect_stdout(_io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            return None, f(*a)
        except Violation:
            raise
        except Exception as e:
            return e, None


def same_img(a, b, what):
    fa, fb = freeze(a), freeze(b)
    for k in fa:
        require(k in fb and _eqimg(fa[k], fb[k]), "%s: %s differs between the in-place and the other form: %s / %s", what, k, fa[k], fb.get(k))
    require(set(fa) == set(fb), "%s: parameters", what)


def late(cls, cfg, op):
    """Only the check of the finished result refuses these."""
    if cls == "UVBeam":
        return op == "add.p" or cfg == "aeP" and op == "pstokes"
    if cls == "UVCal":
        return op in ("concat.f.freq", "concat.self.freq") and cfg in ("flex", "sky") or op == "concat.self.time"
    if cls == "UVData":
        return op in ("concat.f.freq", "concat.self.freq") and cfg in ("flex", "multi") or cfg == "flex" and op == "concat.self.polarization"
    return op == "add.oth.time"


PAIRS = [("UVData", "multi"), ("UVData", "mixed"), ("UVCal", "sky"), ("UVCal", "delay"), ("UVFlag", "bt:metric"), ("UVFlag", "at.w:flag"), ("UVBeam", "ae"), ("UVBeam", "hw")]


def changers(cls):
    return sorted(((n, v) for n, v in ops(cls).items() if v[0] in "MI" and "bad" not in n), key=lambda q: q[1][0] == "I")


def pair(case, ctx):
    """A result, then every operation that changes the result, the operand or the argument: the other two stay."""
    _, cls, cfg, op = case
    kind, f, *g = ops(cls)[op]
    o = make(cls, cfg)
    try:
        x = g[0](o) if g else None
    except Exception:
        return
    e, r = call(f, o, False if kind == "I" else None, x)
    if e is not None or not hasattr(r, "check"):
        return
    rest = [("result", r), ("operand", o)] + ([("argument", x)] if hasattr(x, "check") else [])
    for name, obj in rest:
        k = [c for c in OPS if type(obj).__name__ == c]
        if not k:
            continue
        others = [(n, w, Frozen(w)) for n, w in rest if w is not obj]
        for op2, (kind2, f2, *g2) in changers(k[0]):
            try:
                y = g2[0](obj) if g2 else None
            except Exception:
                continue
            call(f2, obj, True if kind2 == "I" else None, y)
            for n, w, fr in others:
                fr.check(w, f"{cls} {cfg} {op}, then {op2} on the {name}: {n}")
            ctx.step()
            if getattr(obj, "Nblts", 9) in (1, 0):
                break
    ctx.trace()


def run(case, ctx):
    if case[0] == "pair":
        return pair(case, ctx)
    _, cls, cfg, op = case
    ctx.state(digest(*case))
    kind, f, *g = ops(cls)[op]
    what = f"{cls} {cfg} {op}"
    o = make(cls, cfg)
    try:
        x = g[0](o) if g else None
    except Exception:
        ctx.outcome("no operand")
        return
    fo, fx = Frozen(o), Frozen(x) if hasattr(x, "check") else None
    if kind == "M":
        e, r = call(f, o, None, x)
        if fx:
            fx.check(x, what + " argument")
        if e is not None:
            fo.check(o, f"{what} refused ({type(e).__name__}: {e}) but")
            ctx.outcome(type(e).__name__)
        else:
            if fx:
                shared(o, x, what)
            ctx.outcome("ok")
    else:
        e, r = call(f, o, False, x)
        fo.check(o, what + (f" refused ({e})" if e else ""))
        if fx:
            fx.check(x, what + " argument")
        ctx.outcome("ok" if e is None else type(e).__name__)
        if e is None and r is not None:
            shared(r, o, what)
            if fx:
                shared(r, x, what + " argument")
        if kind == "I":
            p = o.copy()
            fp = Frozen(p)
            e2, r2 = call(f, p, True, x)
            require((e is None) == (e2 is None) and type(e) is type(e2), "%s: in place gives %r, otherwise %r", what, e2, e)
            if fx:
                fx.check(x, what + " in place argument")
            if e2 is not None and not late(cls, cfg, op):
                fp.check(p, f"{what} in place refused ({type(e2).__name__}: {e2}) but")
            elif e2 is None:
                require(r2 is None or r2 is p, "%s: in place returns something", what)
                if r is not None:
                    same_img(r, p, what)
                if fx:
                    shared(p, x, what + " in place argument")
    ctx.step()
    ctx.trace()
