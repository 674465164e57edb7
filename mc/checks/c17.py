"""C17: objects are equal exactly when they describe the same thing, check() rejects the
inconsistent ones, and copies are independent."""

import contextlib
import copy
import io
import itertools

import numpy as np
from pyuvdata.uvbase import UVBase

from mc import beam, cal, flag, gen
from mc.core import Violation, digest, require
from mc.model import Frozen

ID = "C17"
BOUNDS = (
    "17 objects of all five classes (UVData of several layouts, flexible polarization, metadata only; gain, delay and wide-band UVCal; baseline, "
    "antenna and waterfall UVFlag in both modes; efield, power, healpix and phased-array UVBeam; Telescope) x every parameter (and every parameter of the "
    "telescope inside) x every single change: an element at each corner moved to just inside and just outside its tolerance in both directions, "
    "integers, flags, strings, blanks in strings, every field of every catalog entry, keywords added, removed, changed, nested; value "
    "unset or set; one element too many or too few along each axis, another data type, an unacceptable value; 60 inconsistent combinations; copies and metadata-only copies changed in place."
)
ASSUMPTIONS = ["tolerances are those documented for the attributes", "two simultaneous changes are not explored"]

D2R = 1e-3 * np.pi / 180 / 3600
TOL = {
    "freq_array": (0, 1e-3), "freq_range": (0, 1e-3), "channel_width": (0, 1e-3), "integration_time": (0, 1e-3), "time_array": (0, 1e-3 / 86400), "time_range": (0, 1e-3 / 86400), "lst_array": (0, D2R), "lst_range": (0, D2R),
    "uvw_array": (0, 1e-3), "phase_center_app_ra": (0, D2R), "phase_center_app_dec": (0, D2R), "phase_center_frame_pa": (0, 2e-8), "antenna_positions": (0, 1e-3), "antenna_diameters": (0, 1e-3),
}
BTOL = {"freq_array": (0, 1e-3), "data_array": (0, 1e-3), "basis_vector_array": (0, 1e-3), "axis1_array": None, "axis2_array": None, "bandpass_array": (0, 1e-3), "element_location_array": None,
        "delay_array": None, "gain_array": None, "receiver_temperature_array": (0, 1e-3), "loss_array": (0, 1e-3), "mismatch_array": (0, 1e-3), "s_parameters": (0, 1e-3)}


def _uv(**kw):
    return lambda: gen.uvd(**kw)


def _flex():
    u = gen.uvd(spw="two", pols=(-5, -7), pc="multi", nt=2, nf=5)
    u.convert_to_flex_pol()
    return u


def _full():
    u = gen.uvd(spw="two", pols=(-5, -6, -7, -8), pc="multi", scan=True, eq=True, layout="ragged", nf=5)
    u.filename = ["a", "b"]
    u._filename.form = (2,)
    u.pol_convention = "avg"
    u.uvplane_reference_time = 3
    u.extra_keywords = {"A": 1, "B": "text", "L": [1.0, 2.0], "D": {"x": 1.5, "y": "z"}, "N": None, "T": True, "S": ["p", "q"], "E": {}}
    return u


OBJ = {
    "uv.time": _uv(layout="time"),
    "uv.full": _full,
    "uv.bl": _uv(layout="bl", pc="sidA", pols=(1, 2)),
    "uv.meta": _uv(meta=True, layout="shuffle", pc="ephem"),
    "uv.flex": _flex,
    "cal.gain": lambda: cal.uvc(spw="two", quality=True, tq=True, ref=True, scan=True, pc=True, nf=5),
    "cal.sky": lambda: cal.uvc(style="sky", trange=True, jones=(-5, -6, -7, -8)),
    "cal.delay": lambda: cal.uvc(kind="delay", spw="three"),
    "cal.wide": lambda: cal.uvc(kind="wide", spw="two_rev", trange=True),
    "flag.bl": lambda: flag.make("bt", "flag"),
    "flag.met": lambda: flag.make("br", "metric"),
    "flag.ant": lambda: flag.make("ao", "flag"),
    "flag.wf": lambda: flag.make("bs.v", "metric"),
    "beam.az": lambda: beam.make("ae"),
    "beam.pa": lambda: beam.make("aeP"),
    "beam.pow": lambda: beam.make("aw"),
    "beam.hpx": lambda: beam.make("hr"),
    "tel": lambda: gen.telescope(),
}
EQNONE = ("blt_order", "blts_are_rectangular", "time_axis_faster_than_bls")
_made = {}


def obj(n):
    if n not in _made:
        _made[n] = OBJ[n]()
    return copy.deepcopy(_made[n])


def params(o):
    return sorted(p[1:] for p in o)


def cases(tier):
    out = []
    for n in OBJ:
        o = obj(n)
        ps = [(p,) for p in params(o)]
        if n != "tel" and hasattr(o, "telescope") and isinstance(o.telescope, UVBase):
            ps += [("telescope", q) for q in params(o.telescope)]
        for p in ps:
            out.append(["eq", n, list(p)])
            out.append(["check", n, list(p)])
        out.append(["self", n])
        out.append(["copy", n])
    for a, b in itertools.permutations(OBJ, 2):
        out.append(["cross", a, b])
    for n, fs in FAULTS.items():
        for f in fs:
            out.append(["fault", n, f])
    for i in range(len(DICTS)):
        out.append(["dict", i])
    return out


def get(o, p):
    for q in p[:-1]:
        o = getattr(o, q)
    return getattr(o, p[-1])


def put(o, p, v):
    for q in p[:-1]:
        o = getattr(o, q)
    getattr(o, "_" + p[-1]).value = v


def tol_of(n, p):
    if n.startswith("beam") and len(p) == 1 and p[0] in BTOL:
        return BTOL[p[0]]
    return TOL.get(p[-1], (1e-5, 1e-8))


def corners(shape):
    return [tuple(c) for c in itertools.product(*[sorted({0, s - 1}) for s in shape])]


def changes(n, p, v, par):
    """(new value, equal?) for every single change of a value."""
    name = p[-1]
    if v is None:
        return
    if isinstance(v, UVBase) or name in ("location",) or n.startswith("flag") and name == "mode":
        return
    if isinstance(v, (bool, np.bool_)):
        yield (not v), False
        return
    if isinstance(v, str):
        yield v + "x", False
        yield v[:-1] + "~", False
        yield "  " + v + " ", True
        if len(v) > 3:
            yield v[:2] + "\n" + v[2:], True
            yield "Q" + v[1:], False
        return
    if isinstance(v, dict):
        yield from dict_changes(v)
        return
    if isinstance(v, (int, np.integer)):
        yield int(v) + 7, False
        yield int(v) - 1, False
        return
    if isinstance(v, (float, np.floating)):
        rt, at = tol_of(n, p)
        t = at + rt * abs(v)
        for s in (1, -1):
            yield float(v + s * 0.4 * t), True
            yield float(v + s * 3 * t), False
        return
    a = np.array(v)
    if isinstance(v, (list, tuple)) and a.dtype.kind in "iufc":
        for w, e in changes(n, p, a, par):
            if w.shape == a.shape:
                yield type(v)(w.tolist()), e
        return
    if a.dtype.kind in "US":
        for i in range(a.size):
            w = [str(x) for x in a]
            w[i] = w[i] + "Z"
            yield (np.array(w) if isinstance(v, np.ndarray) else type(v)(w)), False
        w = [str(x) + "  " for x in a]
        yield (np.array(w) if isinstance(v, np.ndarray) else type(v)(w)), True
        w = [str(x) for x in a]
        w[0], w[-1] = w[-1], w[0]
        if w[0] != w[-1]:
            yield (np.array(w) if isinstance(v, np.ndarray) else type(v)(w)), False
        return
    if a.dtype.kind not in "biufc":
        return
    t2 = tol_of(n, p)
    for c in corners(a.shape):
        if a.dtype.kind == "b":
            w = a.copy()
            w[c] = ~w[c]
            yield w, False
        elif a.dtype.kind in "iu":
            for d in (1, 7):
                if d > 2e-5 * abs(int(a[c])):
                    w = a.copy()
                    w[c] += d
                    yield w, False
        else:
            big = 1e-2 + 0.1 * abs(a[c])
            if t2 is None:
                for s in (1, -1):
                    w = a.copy()
                    w[c] += s * big
                    yield w, False
                continue
            rt, at = t2
            t = at + rt * abs(a[c])
            eps = np.spacing(np.abs(a[c])) if a.dtype.kind == "f" else np.spacing(max(abs(a[c].real), abs(a[c].imag)))
            for s in (1, -1) + ((1j,) if a.dtype.kind == "c" else ()):
                if eps < 0.1 * t:
                    w = a.copy()
                    w[c] += s * 0.4 * t
                    yield w, True
                    w = a.copy()
                    w[c] += s * 3 * t
                    yield w, False
                w = a.copy()
                w[c] += s * max(big, 10 * t)
                yield w, False
            if a.dtype.kind == "f":
                w = a.copy()
                w[c] = np.nan
                yield w, False
    if a.ndim and a.shape[0] > 1 and not np.allclose(a, a[::-1]):
        yield a[::-1].copy(), False
    if a.ndim:
        yield np.concatenate([a, a[-1:]]), False
        if a.shape[0] > 1:
            yield a[:-1].copy(), False


def dict_changes(v):
    yield {**copy.deepcopy(v), "EXTRA": 1}, False
    if v:
        k0 = list(v)[-1]
        w = copy.deepcopy(v)
        w.pop(k0)
        yield w, False
        yield dict(reversed(list(copy.deepcopy(v).items()))), True
        w = copy.deepcopy(v)
        w["OTHERKEY"] = w.pop(k0)
        yield w, False
    for k, x in v.items():
        for y, e in dvals(x):
            w = copy.deepcopy(v)
            w[k] = y
            yield w, e


def dvals(x):
    if isinstance(x, dict):
        for w, e in dict_changes(x):
            yield w, e
        yield 3, False
        yield None, False
        return
    if x is None:
        yield 0, False
        yield "None", False
        yield [1.0], False
        return
    yield None, False
    if isinstance(x, (bool, np.bool_)):
        yield (not x), False
    elif isinstance(x, str):
        yield x + "x", False
        yield 7, False
    elif isinstance(x, (int, float, np.number)):
        yield x + 1 + abs(x), False
        yield float(x) * (1 + 1e-7), True
        yield "str", False
        yield [1.0, 5.0], False
        yield {"a": 1}, False
    elif isinstance(x, (list, tuple, np.ndarray)):
        a = np.array(x)
        for i in range(len(a)):
            b = copy.deepcopy(a)
            if a.dtype.kind in "US":
                b = [str(q) for q in a]
                b[i] += "Z"
                yield b, False
            else:
                b[i] = b[i] + 1 + abs(b[i])
                yield type(x)(b) if not isinstance(x, np.ndarray) else b, False
        yield [*a, a[-1]], False
        yield 3.0, False
        yield "str", False
        yield np.array(x), True


DICTS = [{"A": 1}, {"B": "t"}, {"L": [1.0, 2.0]}, {"D": {"x": 1.5}}, {"N": None}, {"T": True}, {"S": ["p", "q"]}, {"E": {}}, {"M": np.arange(3.0)}, {"DD": {"d": {"e": [1, 2]}}}, {}]


def equal(a, b, exp, what, **kw):
    for x, y, d in ((a, b, "=="), (b, a, "== reversed")):
        with contextlib.redirect_stdout(io.StringIO()):
            r = x.__eq__(y, **kw) if kw else x == y
            q = x.__ne__(y, **kw) if kw else x != y
        require(bool(r) is exp, "%s: %s gives %s", what, d, r)
        require(bool(q) is (not exp), "%s: != (%s) gives %s", what, d, q)


def rep(v):
    return repr(v)[:60]


def eq(case, ctx):
    _, n, p = case
    p = tuple(p)
    a = obj(n)
    b = obj(n)
    v = get(a, p)
    par = getattr(get(a, p[:-1]) if len(p) > 1 else a, "_" + p[-1])
    fa = Frozen(a)
    ign = p[-1] in ("filename",)
    if p[-1] == "location":
        lvals(a, b, p, n)
        ctx.step(8)
    else:
        for w, e in changes(n, p, v, par):
            put(b, p, w)
            fb = Frozen(b)
            what = f"{n} with {'.'.join(p)} {rep(v)} vs {rep(w)}"
            equal(a, b, True if ign else e, what)
            fb.check(b, "comparison")
            ctx.step()
            if not e and not ign and not isinstance(w, dict) and len(p) == 1:
                if not n.startswith("flag"):
                    equal(a, b, True, what + ", allowed to differ", allowed_failures=[p[0]])
                req = par.required
                if not req:
                    equal(a, b, True, what + ", extra parameters not compared", check_extra=False)
            ctx.state(digest(n, p, rep(w)))
    # set against unset
    other = None if v is not None else {"blt_order": ("time", "baseline"), "scan_number_array": np.arange(3), "extra_keywords": {}}.get(p[-1], 1.5)
    put(b, p, other)
    if not isinstance(v, UVBase) and not (v is None and isinstance(other, dict)) and p[-1] not in ("mode", "cal_type", "type"):
        equal(a, b, ign or p[-1] in EQNONE, f"{n} with {'.'.join(p)} {'unset' if other is None else 'set'}")
    put(b, p, v)
    equal(a, b, True, f"{n} put back")
    fa.check(a, "comparison")
    ctx.trace()


def lvals(a, b, p, n):
    from astropy import units
    from astropy.coordinates import EarthLocation

    v = get(a, p)
    for i, d in itertools.product(range(3), (3e-4, -3e-4, 3e-3, -3e-3, 1e3)):
        x = np.array([q.to_value("m") for q in v.geocentric])
        x[i] += d
        put(b, p, EarthLocation.from_geocentric(*(x * units.m)))
        equal(a, b, abs(d) < 1e-3, f"{n} location moved {d} m")
    put(b, p, v)


def check(case, ctx):
    """Every malformed value of one parameter is refused."""
    _, n, p = case
    p = tuple(p)
    a = obj(n)
    v = get(a, p)
    par = getattr(get(a, p[:-1]) if len(p) > 1 else a, "_" + p[-1])
    name = p[-1]
    req = {"Nants_data", "Nbls", "Nblts", "Nfreqs", "Npols", "Nspws", "Ntimes", "ant_1_array", "ant_2_array", "baseline_array", "freq_array", "channel_width", "history", "integration_time", "lst_array",
           "time_array", "uvw_array", "polarization_array", "spw_array", "vis_units", "phase_center_app_ra", "phase_center_app_dec", "phase_center_catalog", "phase_center_id_array", "flex_spw_id_array", "telescope",
           "gain_array", "delay_array", "flag_array", "jones_array", "ant_array", "cal_type", "cal_style", "gain_convention", "time_range", "lst_range", "freq_range", "Njones", "wide_band", "sky_catalog", "ref_antenna_name",
           "type", "mode", "metric_array", "weights_array", "name", "location", "antenna_names", "antenna_numbers", "antenna_positions", "Nants",
           "data_array", "nsample_array", "basis_vector_array", "beam_type", "antenna_type", "data_normalization", "pixel_coordinate_system", "feed_array", "axis1_array", "axis2_array", "Naxes_vec", "telescope_name", "feed_name",
           "feed_version", "model_name", "model_version", "bandpass_array", "pixel_array", "nside", "ordering", "Nfeeds", "Npixels", "Naxes1", "Naxes2", "Ncomponents_vec"}
    if v is not None and name in req and not (n.startswith("flag") and p[0] == "telescope") and not (name == "data_array" and n == "uv.meta"):
        if not (n.startswith("uv") and name in ("flag_array", "nsample_array", "data_array")) and not (n.startswith("cal") and name in ("gain_array", "delay_array", "flag_array", "telescope", "phase_center_catalog", "phase_center_id_array")):
            bad(a, p, None, f"{n} without {'.'.join(p)}", ctx)
    if isinstance(v, np.ndarray) and v.dtype.kind in "biufc":
        for ax in range(v.ndim):
            bad(a, p, np.concatenate([v, np.take(v, [0], axis=ax)], axis=ax), f"{n}: {name} one too long along axis {ax}", ctx)
            if v.shape[ax] > 1:
                bad(a, p, np.delete(v, 0, axis=ax), f"{n}: {name} one short along axis {ax}", ctx)
        bad(a, p, v[None], f"{n}: {name} with one axis more", ctx)
        if v.dtype.kind in "iu":
            bad(a, p, v.astype(float) + 0.25, f"{n}: {name} of floats", ctx)
        elif v.dtype.kind == "b":
            bad(a, p, v.astype(float) + 0.5, f"{n}: {name} of floats", ctx)
        elif v.dtype.kind == "f" and not n.startswith("beam"):
            bad(a, p, v.astype(complex), f"{n}: {name} complex", ctx)
        if not (n.startswith("flag") and name == "polarization_array"):
            bad(a, p, v.astype(str), f"{n}: {name} of strings", ctx)
        if name in ("polarization_array", "jones_array", "flex_spw_polarization_array", "flex_jones_array"):
            for x in (9, -9, 5):
                w = v.copy()
                w[-1] = x
                bad(a, p, w, f"{n}: {name} {x}", ctx)
    elif isinstance(v, str):
        bad(a, p, 3, f"{n}: {name} a number", ctx)
        if name in ("vis_units", "pol_convention", "cal_type", "cal_style", "gain_convention", "mode", "type", "beam_type", "antenna_type", "pixel_coordinate_system", "data_normalization", "x_orientation", "ordering"):
            bad(a, p, "unheardof", f"{n}: {name} unacceptable", ctx)
    elif isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        bad(a, p, int(v) + 1, f"{n}: {name} too large", ctx, name in ("Nphase", "Nsources", "uvplane_reference_time", "nside"))
        bad(a, p, float(v) + 0.5, f"{n}: {name} fractional", ctx)
        bad(a, p, "x", f"{n}: {name} a string", ctx)
    elif isinstance(v, float):
        bad(a, p, "x", f"{n}: {name} a string", ctx)
    elif isinstance(v, dict):
        bad(a, p, 3, f"{n}: {name} a number", ctx)
    ctx.trace()


def bad(a, p, w, what, ctx, skip=False):
    if skip:
        return
    v = get(a, p)
    put(a, p, w)
    ok = False
    try:
        a.check()
        ok = True
    except Exception:
        pass
    put(a, p, v)
    ctx.step()
    if ok:
        raise Violation("check() accepts " + what)


def same(case, ctx):
    n = case[1]
    a = obj(n)
    f = Frozen(a)
    for kw in ({}, {"check_extra": False}, {"run_check_acceptability": False}):
        require(a.check(**kw) is True, "%s.check(%s)", n, kw)
        f.check(a, f"{n}.check")
        ctx.step()
    equal(a, a, True, n)
    require(a == a and not (a != a), "operators")
    for x in (None, 1, "x", object(), [a]):
        require(not (a == x) and (a != x), "%s equals %r", n, x)
    ctx.trace()


def cross(case, ctx):
    a, b = obj(case[1]), obj(case[2])
    equal(a, b, False, f"{case[1]} and {case[2]}")
    ctx.step()
    ctx.outcome("different")


def arrays(o, pre=""):
    for p in params(o):
        v = getattr(o, p)
        if isinstance(v, UVBase):
            yield from arrays(v, pre + p + ".")
        else:
            yield pre + p, v


def scribble(v):
    if hasattr(v, "geodetic"):
        return
    if isinstance(v, np.ndarray) and v.dtype.kind in "biufc" and v.size:
        v.flat[0] = ~v.flat[0] if v.dtype.kind == "b" else v.flat[0] + 5
    elif isinstance(v, np.ndarray) and v.size:
        v.flat[0] = "ZZ"
    elif isinstance(v, list) and v:
        v[0] = "ZZ"
    elif isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list, np.ndarray)):
                scribble(v[k])
        v["scribble"] = 1


def cpy(case, ctx):
    n = case[1]
    a = obj(n)
    f = Frozen(a)
    b = a.copy()
    equal(a, b, True, f"{n}.copy()")
    f.check(b, f"{n}.copy() differs")
    for q, v in arrays(b):
        scribble(v)
        f.check(a, f"changing {q} of a copy of {n}")
        ctx.step()
    b = a.copy()
    fb = Frozen(b)
    for q, v in arrays(a):
        scribble(v)
        fb.check(b, f"changing {q} of {n} after copying")
        ctx.step()
    a = obj(n)
    if n.startswith(("uv", "cal")):
        m = a.copy(metadata_only=True)
        f.check(a, "copy(metadata_only=True)")
        require(m.metadata_only, "metadata-only copy has data")
        names = ("data_array", "flag_array", "nsample_array", "gain_array", "delay_array", "quality_array", "total_quality_array")
        c = a.copy()
        for q in names:
            if hasattr(m, q):
                require(getattr(m, q) is None, "metadata-only copy has %s", q)
                getattr(c, "_" + q).value = None
        for q, v in arrays(m):
            o = c
            for x in q.split("."):
                o = getattr(o, x)
            require(type(v) is type(o), "%s of the metadata-only copy", q)
        fm = Frozen(c)
        fm.check(m, "metadata-only copy")
        for q, v in arrays(m):
            scribble(v)
            f.check(a, f"changing {q} of a metadata-only copy of {n}")
        ctx.step()
    ctx.trace()


FAULTS = {
    "uv.time": ["nants", "nbls", "ntimes", "spwid", "antmissing1", "antmissing2", "pcid", "pol0", "timefast", "lst", "lst1", "autouvw", "zerouvw", "autoimag", "autoimag1", "uncalibconv", "telname", "telpos", "uvwstrict", "notrect"],
    "uv.full": ["nants", "nbls", "ntimes", "spwid", "antmissing1", "antmissing2", "pcid", "pcid1", "pol0", "lst", "lst1", "autouvw", "zerouvw", "autoimag", "autoimag1", "telname", "uvwstrict"],
    "uv.flex": ["flexpols", "flexpol1", "autoimag", "spwid", "lst", "lst1"],
    "cal.gain": ["bothtimes", "notimes", "nolst", "cantmissing", "spwid", "freqrange", "lst", "telname"],
    "cal.sky": ["overlap", "bothtimes", "notimes", "nolstr", "cantmissing", "nosky"],
    "cal.wide": ["widefreq", "widewidth", "wideid", "widenf"],
    "cal.delay": ["widefreq", "widenf", "lst"],
    "flag.bl": ["nants", "nbls", "ntimes", "spwid", "antmissing1", "antmissing2", "lst", "lst1"],
    "flag.ant": ["cantmissing", "spwid", "lst", "lst1"],
    "beam.az": ["basis"],
    "beam.pow": ["powerimag"],
}


def fault(case, ctx):
    _, n, f = case
    o = obj(n)
    kw = {}
    if f == "nants":
        o.Nants_data += 1
    elif f == "nbls":
        o.Nbls += 1
    elif f == "ntimes":
        o.Ntimes += 1
    elif f == "spwid":
        o.flex_spw_id_array = o.flex_spw_id_array.copy()
        o.flex_spw_id_array[-1] = 99
    elif f in ("antmissing1", "antmissing2"):
        k = "ant_1_array" if f[-1] == "1" else "ant_2_array"
        i = np.nonzero(o.telescope.antenna_numbers == getattr(o, k)[-1])[0][0]
        o.telescope.antenna_numbers[i] = 77
    elif f == "cantmissing":
        o.telescope.antenna_numbers[list(o.telescope.antenna_numbers).index(o.ant_array[-1])] = 77
    elif f == "pcid":
        o.phase_center_id_array[-1] = 99
    elif f == "pcid1":
        o.phase_center_catalog.pop(o.phase_center_id_array[0])
        o.Nphase -= 1
    elif f == "pol0":
        o.polarization_array[-1] = 0
    elif f == "timefast":
        o.time_axis_faster_than_bls = True
    elif f == "notrect":
        o.time_axis_faster_than_bls, o.blts_are_rectangular = True, False
    elif f in ("lst", "lst1"):
        o.lst_array = o.lst_array.copy()
        o.lst_array[0 if f == "lst1" else -1] += 1e-3
        if n.startswith("uv") or n.startswith("cal") or n.startswith("flag"):
            import warnings

            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                o.check()
            require(any("lst_array" in str(w.message) for w in ws), "%s: LSTs that do not belong to the times are not reported", n)
            ctx.step()
            ctx.outcome("warned")
            return
    elif f == "autouvw":
        o.uvw_array[np.nonzero(o.ant_1_array == o.ant_2_array)[0][-1], 1] = 0.01
    elif f == "zerouvw":
        o.uvw_array[np.nonzero(o.ant_1_array != o.ant_2_array)[0][-1]] = 0.0
    elif f in ("autoimag", "autoimag1"):
        r = np.nonzero(o.ant_1_array == o.ant_2_array)[0][-1 if f == "autoimag" else 0]
        k = 0
        if o.flex_spw_polarization_array is not None:
            k = np.nonzero(o.flex_spw_id_array == o.spw_array[list(o.flex_spw_polarization_array).index(-5)])[0][-1]
            o.data_array[r, k, 0] += 1j
        else:
            o.data_array[r, -1 if f == "autoimag" else 0, list(o.polarization_array).index(-6 if f == "autoimag" else -5)] += 1j
        w = o.copy()
        w.check(check_autos=True, fix_autos=True)
        a = w.ant_1_array == w.ant_2_array
        e = o.data_array.copy()
        if o.flex_spw_polarization_array is not None:
            require(w.data_array[r, k, 0].imag == 0, "fix_autos left an imaginary part")
            fl = np.array([dict(zip(o.spw_array, o.flex_spw_polarization_array))[q] in (-5, -6) for q in o.flex_spw_id_array])
            oth = np.ones(e.shape, bool)
            oth[np.ix_(a, fl, [True])] = False
            require(np.array_equal(w.data_array[oth], o.data_array[oth]), "fix_autos changed other samples")
        else:
            sel = np.isin(o.polarization_array, (-5, -6, -1, -2, 1, 2, 3, 4))
            e[np.ix_(a, np.arange(o.Nfreqs), sel)] = np.abs(e[np.ix_(a, np.arange(o.Nfreqs), sel)])
            x = w.data_array[np.ix_(a, np.arange(o.Nfreqs), sel)]
            require(np.all(x.imag == 0), "fix_autos left imaginary parts")
            oth = np.ones(e.shape, bool)
            oth[np.ix_(a, np.arange(o.Nfreqs), sel)] = False
            require(np.array_equal(w.data_array[oth], o.data_array[oth]), "fix_autos changed other samples")
        fr = Frozen(o)
        o2 = o.copy()
        o2.check(check_autos=False)
        fr.check(o2, "check(check_autos=False)")
        kw = dict(check_autos=True, fix_autos=False)
    elif f == "uncalibconv":
        o.vis_units, o.pol_convention = "uncalib", "sum"
    elif f == "telname":
        o.telescope.name = None
    elif f == "telpos":
        o.telescope.antenna_positions = None
    elif f == "uvwstrict":
        o.uvw_array[np.nonzero(o.ant_1_array != o.ant_2_array)[0][-1]] += 30
        kw = dict(strict_uvw_antpos_check=True)
    elif f == "flexpols":
        o.flex_spw_polarization_array = None
    elif f == "flexpol1":
        o.polarization_array = np.array([-5])
    elif f == "bothtimes":
        t = np.stack([gen.JD0 + np.arange(o.Ntimes) * gen.DT, gen.JD0 + (np.arange(o.Ntimes) + 0.4) * gen.DT], axis=1)
        if o.time_range is None:
            o.time_range = t
        else:
            o.time_array = t[:, 0]
    elif f == "notimes":
        o.time_array = o.time_range = None
    elif f == "nolst":
        o.lst_array = None
    elif f == "nolstr":
        o.lst_range = None
    elif f == "overlap":
        o.time_range[0, 1] = o.time_range[1, 1]
        o.set_lsts_from_time_array()
    elif f == "nosky":
        o.sky_catalog = None
    elif f == "freqrange":
        o.freq_range = np.array([[1e8, 1.1e8]] * o.Nspws)
    elif f == "widefreq":
        o.freq_array = np.array([1e8])
    elif f == "widewidth":
        o.channel_width = np.array([1e8])
    elif f == "wideid":
        o.flex_spw_id_array = np.array([o.spw_array[0]])
    elif f == "widenf":
        o.Nfreqs = 2
    elif f == "basis":
        o.basis_vector_array = o.basis_vector_array * 1.5
    elif f == "powerimag":
        o.data_array = o.data_array.astype(complex)
        o.data_array[0, list(o.polarization_array).index(-5), 0] += 1j
        kw = dict(check_auto_power=True, fix_auto_power=False)
    fr = Frozen(o)
    try:
        o.check(**kw)
    except Exception:
        fr.check(o, f"{n}: refused check ({f})")
        ctx.step()
        ctx.outcome("refused")
        return
    raise Violation(f"{n}.check() accepts an object with {f}")


def dct(case, ctx):
    v = DICTS[case[1]]
    for n in ("uv.time", "cal.gain", "flag.bl", "beam.az"):
        a, b = obj(n), obj(n)
        a.extra_keywords = copy.deepcopy(v)
        for w, e in dict_changes(v):
            b.extra_keywords = w
            equal(a, b, e, f"{n} extra_keywords {rep(v)} vs {rep(w)}")
            ctx.step()
    ctx.trace()


def run(case, ctx):
    {"eq": eq, "check": check, "self": same, "copy": cpy, "cross": cross, "fault": fault, "dict": dct}[case[0]](case, ctx)
