"""C21: calibration files hold the object (calfits, calh5, CASA tables), and a partial read
of a calh5 file is the selection of the whole."""

import os

import numpy as np
from pyuvdata import UVCal

from mc import cal, io
from mc.cal import CalImg, compare, structure
from mc.checks import c19
from mc.core import Violation, expect_raises, require
from mc.model import Frozen

ID = "C21"
BOUNDS = (
    "write and read back through calfits, calh5 and MS calibration tables of every object of the product of kinds (gain, "
    "wide-band gain, delay) x window layouts (ascending, descending, two, reversed numbering, overlapping, widths different from the "
    "spacing) x times or time ranges x Jones sets and orders x antenna subsets and orders x optional arrays (quality, total "
    "quality, reference antennas, scans, phase centers, flexible Jones) x styles, conventions, precisions, metadata-only, plus "
    "every optional attribute alone; two generations; every object a format cannot hold; overwriting a file; every selection of "
    "the C19 alphabet (single criteria and pairs) as a partial calh5 read against the selected whole."
)
ASSUMPTIONS = ["values outside the small alphabets are not explored"]

KINDS = [("gain", "one"), ("gain", "one_desc"), ("gain", "two"), ("gain", "two_rev"), ("gain", "overlap"), ("gain", "wide_gap"),
         ("wide", "one"), ("wide", "two_rev"), ("delay", "one"), ("delay", "three")]
JON = [(-5, -6), (-6, -5), (-5,), (-8,), (-1, -2), (-5, -6, -7, -8), (-7, -5), (-8, -7, -6, -5), (-5, -7)]
ANTS = [(3, 0, 12, 7), (12, 3), (0, 3, 5, 7, 12), (7,)]
FMT = ["calfits", "calh5", "ms"]
SETS = [
    {"gain_scale": "K str"}, {"gain_scale": None}, {"pol_convention": "sum"}, {"pol_convention": "avg"}, {"observer": None}, {"git_origin_cal": None},
    {"git_hash_cal": None}, {"extra_keywords": {}}, {"extra_keywords": {"A": "text", "F": -2.5e-11, "I": -3, "B": False}},
    {"extra_keywords": {"LONGKEYNAME": 4}}, {"extra_keywords": {"lower": "x"}}, {"extra_keywords": {"CASA_Version": "6.4", "MSName": "a.ms"}},
    {"baseline_range": None}, {"baseline_range": [0.0, 12.5]}, {"diffuse_model": None}, {"Nsources": None}, {"Nsources": 0},
    {"sky_catalog": "other"}, {"ref_antenna_name": "various"}, {"ref_antenna_name": "nobody"}, {"history": "one line"},
    {"history": "line one\nline two  with spaces\n\n   indented"}, {"history": "x" * 400},
    {"tel:x_orientation": None}, {"tel:x_orientation": "north"}, {"tel:antenna_diameters": None}, {"tel:instrument": None},
    {"tel:name": "A much longer telescope name with spaces"}, {"tel:antenna_names": "long"}, {"loc": "moon"}, {"ints": "const"},
]


def mk(kw):
    kw = dict(kw)
    st = kw.pop("attr", {})
    wg = kw.get("spw") == "wide_gap"
    if wg:
        kw["spw"] = "one"
    even = kw.pop("even", False)
    c = cal.build(kw)
    if wg:
        c.channel_width = c.channel_width * 0.5
    if even:
        c.integration_time = np.full(c.Ntimes, 10.0)
    for a, v in st.items():
        if a == "tel:x_orientation" and v is None:
            continue  # required by the class
        if a == "tel:antenna_names":
            old = c.ref_antenna_name
            i = list(c.telescope.antenna_names).index(old) if old is not None else None
            c.telescope.antenna_names = np.array([f"antenna_number_{n:05d}" for n in c.telescope.antenna_numbers])
            if i is not None:
                c.ref_antenna_name = str(c.telescope.antenna_names[i])
        elif a.startswith("tel:"):
            setattr(c.telescope, a[4:], v)
        elif a == "loc":
            from lunarsky import MoonLocation

            c.telescope.location = MoonLocation.from_selenodetic(lat=10.0, lon=20.0, height=5.0, ellipsoid="SPHERE")
            c.set_lsts_from_time_array()
        elif a == "ints":
            c.integration_time = np.full(c.Ntimes, 20.0)
        else:
            setattr(c, a, np.array(v) if a in ("freq_array", "channel_width") else v)
    c.check()
    return c


def cases(tier):
    out = []
    thorough = tier == "thorough"
    i = 0
    for kind, spw in KINDS:
        for ji, j in enumerate(JON):
            for a in ANTS:
                for tr in (False, True):
                    if not thorough and (i % 3 != 0) and ji > 2:
                        i += 1
                        continue
                    kw = dict(kind=kind, spw=spw, jones=j, ants=a, trange=tr, nf=(4, 5, 2)[i % 3] if spw != "one" else (4, 1, 3)[i % 3],
                              nt=(3, 1, 2)[i % 3], quality=bool(i % 4), tq=bool((i // 2) % 2), ref=bool((i // 3) % 2), scan=bool((i // 4) % 2),
                              pc=bool((i // 2 + ji) % 2), style=("redundant", "sky")[(i // 5) % 2], extras=bool(i % 3), seed=i % 7,
                              x_orient=("east", "north")[i % 2], conv=("divide", "multiply")[i % 5 == 4],
                              dtype=("complex128", "complex64")[(i // 3) % 2], even=True)
                    if (i // 2) % 5 == 4:
                        kw["torder"] = {1: [0], 2: [1, 0], 3: [2, 1, 0]}[kw["nt"]]
                    if i % 7 == 3:
                        kw["even"] = False
                    if i % 9 == 5:
                        kw["t0"] = "wrap"
                    for f in FMT:
                        out.append(["rt", f, dict(kw)])
                    i += 1
    base = [dict(kind="gain", even=True, style="sky"), dict(kind="delay", even=True, style="sky", nt=1, spw="one"), dict(kind="gain", spw="two", nf=4, even=True, nt=2),
            dict(kind="wide", spw="one", nt=2, even=True)]
    for b in base:
        for s in SETS:
            for f in FMT:
                out.append(["rt", f, dict(b, attr=s)])
    for b in base:
        for f in FMT:
            out.append(["rt", f, dict(b, meta=True)])
            if len(b) and b["kind"] == "gain":
                out.append(["rt", f, dict(b, flex=True, jones=(-5, -6), spw=b.get("spw", "one"))])
            out.append(["clobber", f, b])
            out.append(["nodata", f, b])
    out.append(["rt", "ms", dict(kind="wide", spw="two_rev", flex=True, nt=2, even=True)])
    out.append(["rt", "calh5", dict(kind="delay", spw="three", flex=True, nt=2, even=True)])
    out.append(["rt", "ms", dict(kind="delay", spw="three", flex=True, nt=2, even=True)])
    for b in BAD:
        out.append(["bad"] + b)
    # partial reads
    for d in c19.DS:
        if d == "meta":
            continue
        c = c19.dataset(d)
        al = c19.alphabet(d, c)
        n = 0
        for ax in al:
            for at in al[ax]:
                if thorough or at[0] not in ("trange", "lrange") or n % 3 == 0:
                    out.append(["part", d, [at], n % 6])
                n += 1
        red = {ax: al[ax][:: max(1, len(al[ax]) // (14 if thorough else 6))] for ax in al}
        import itertools

        for x, y in itertools.combinations(red, 2):
            for p, q in itertools.product(red[x], red[y]):
                out.append(["part", d, [p, q], n % 6])
                n += 1
        for k in range(12):
            ats = [red[ax][(k * (3 + m)) % len(red[ax])] for m, ax in enumerate(red) if red[ax]]
            out.append(["part", d, ats, k % 6])
        for k in range(len(c19.BAD)):
            out.append(["pbad", d, k])
    return out


BAD = [
    ["calfits", dict(spw="two", nf=4, even=True)],
    ["calfits", dict(spw="overlap", nf=4, even=True)],
    ["calfits", dict(even=False)],
    ["calfits", dict(even=True, trange=True, nt=2)],
    ["calfits", dict(even=True, jones=(-5, -6, -8))],
    ["calfits", dict(even=True, nt=4, torder=(0, 1, 3, 2))],
    ["calfits", dict(even=True, kind="wide", spw="two_rev")],
    ["calfits", dict(even=True, attr={"extra_keywords": {"L": [1, 2]}})],
    ["calfits", dict(even=True, attr={"extra_keywords": {"L": {"a": 1}}})],
    ["calfits", dict(even=True, attr={"freq_array": [1e8, 1.001e8, 1.0025e8, 1.003e8]})],
    ["calfits", dict(even=True, attr={"channel_width": [1e5, 1e5, 2e5, 1e5]})],
    ["ms", dict(jones=(-5, -6, -7, -8))],
    ["ms", dict(jones=(-5, -6, -7))],
    ["ms", dict(conv="multiply")],
]


def write(c, f, p, **kw):
    if f == "calfits":
        c.write_calfits(p, **kw)
    elif f == "calh5":
        c.write_calh5(p, **kw)
    else:
        c.write_ms_cal(p, **kw)


def read(f, p, **kw):
    r = UVCal()
    getattr(r, {"calfits": "read_calfits", "calh5": "read_calh5", "ms": "read_ms_cal"}[f])(p, **kw)
    return r


def p_of(f):
    return io.path("." + f)


def holds(c, f):
    """Can the format hold this object? (else it has to refuse)"""
    if c.gain_array is None and c.delay_array is None:
        return False
    if f == "calh5":
        return True
    if f == "ms":
        return c.Njones <= 2 and c.gain_convention == "divide"
    if c.Nspws > 1 or c.flex_jones_array is not None:
        return False
    if c.wide_band and c.cal_type == "gain":
        return False
    if c.Ntimes > 1 and c.time_range is not None:
        return False
    if c.Ntimes > 1 and len(set(c.integration_time.tolist())) > 1:
        return False
    if c.Njones > 2 and len(set(np.diff(c.jones_array).tolist())) > 1:
        return False
    if c.Ntimes > 2 and np.ptp(np.diff(c.time_array)) > 1e-8:
        return False
    return True


def expected(c, f):
    """Image of what reading the file back must give (same axis order as the file)."""
    e = CalImg(c)
    s = e.scal
    skip = []
    tol = {}
    if f == "calh5":
        tol["quality_array"] = tol["total_quality_array"] = (1e-6, 0)
        if s["baseline_range"] is not None:
            s["baseline_range"] = list(s["baseline_range"])
    elif f == "calfits":
        e.arr["scan_number_array"] = e.arr["ref_antenna_array"] = e.arr["phase_center_id_array"] = None
        e.cat = None
        e.arr["spw_array"] = np.zeros(1, dtype=int)
        if not e.wide:
            e.arr["flex_spw_id_array"] = np.zeros(e.n("f"), dtype=int)
        s["extra_keywords"] = {k[:8].upper(): v for k, v in s["extra_keywords"].items()}
        tol["time_array"] = (0, 2e-9)
        tol["time_range"] = (0, 2e-9)
        tol["lst_array"] = tol["lst_range"] = (0, 2e-8)
        tol["freq_array"] = (1e-12, 1e-3)
        tol["channel_width"] = (1e-12, 0)
        tol["integration_time"] = (1e-12, 0)
        if not c.quality_array is None:
            tol["quality_array"] = (1e-12, 0)
    else:
        o = np.argsort(e.tel["nums"])
        e.tel["pos"] = tuple(np.array(e.tel["pos"]).reshape(-1, 3)[o].ravel().tolist())
        for n in ("nums", "names", "diam"):
            if e.tel[n] is not None:
                e.tel[n] = tuple(e.tel[n][i] for i in o)
        nums = list(e.tel["nums"])
        sh = (len(nums),) + e.arr["flag_array"].shape[1:]
        name = "gain_array" if s["cal_type"] == "gain" else "delay_array"
        q = np.ones(e.arr["flag_array"].shape)
        if e.arr["quality_array"] is not None:
            q = q * e.arr["quality_array"]
        if e.arr["total_quality_array"] is not None:
            q = q * e.arr["total_quality_array"][None]
        e.arr["quality_array"] = q
        e.arr["total_quality_array"] = None
        for n in (name, "flag_array", "quality_array"):
            v = np.zeros(sh, dtype=e.arr[n].dtype) if n != "flag_array" else np.ones(sh, dtype=bool)
            for i, a in enumerate(e.arr["ant_array"]):
                v[nums.index(int(a))] = e.arr[n][i]
            e.arr[n] = v
        e.arr["ant_array"] = np.array(nums)
        if e.arr["scan_number_array"] is None:
            e.arr["scan_number_array"] = np.zeros(e.n("t"), dtype=int)
        ra = e.arr["ref_antenna_array"]
        if ra is not None and len(set(ra.tolist())) == 1:
            e.arr["ref_antenna_array"] = None
            s["ref_antenna_name"] = e.tel["names"][nums.index(int(ra[0]))]
        elif ra is not None:
            s["ref_antenna_name"] = "various"
        elif s["ref_antenna_name"] not in e.tel["names"]:
            s["ref_antenna_name"] = "unknown reference antenna" if s["cal_style"] == "sky" else None
        s["extra_keywords"] = dict({"CASA_Version": "unknown", "MSName": "unknown"}, **s["extra_keywords"])
        for n in ("Nsources", "baseline_range", "diffuse_model", "git_origin_cal", "git_hash_cal"):
            s[n] = None
        tol[name] = (1e-6, 0)
        tol["quality_array"] = (1e-6, 0)
        tol["time_array"] = tol["time_range"] = (0, 1e-8)
        tol["lst_array"] = tol["lst_range"] = (0, 1e-7)
        tol["freq_range"] = tol["freq_array"] = (1e-13, 0)
        e.tel["inst"] = None
        if e.tel["x"] is None:
            e.tel["x"] = "east"
    return e, tol, skip


def casa_order(e, r):
    """The Jones axis may come back in CASA order: align by the terms."""
    a, b = e.arr["jones_array"].tolist(), r.arr["jones_array"].tolist()
    require(sorted(a) == sorted(b), "Jones terms read are %s, written %s", b, a)
    e.take("j", [a.index(x) for x in b])
    # and the windows in the order of the window table
    a, b = e.freq_keys(), r.freq_keys()
    require(sorted(a) == sorted(b), "channels read are %s, written %s", b, a)
    e.take("s" if e.wide else "f", [a.index(x) for x in b])


def align_pos(e, r, what, tol):
    a, b = np.array(e.tel["pos"]), np.array(r.tel["pos"])
    require(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol), "%s: antenna positions moved", what)
    r.tel["pos"] = e.tel["pos"]
    la, lb = np.array(e.tel["loc"]), np.array(r.tel["loc"])
    require(np.allclose(la, lb, rtol=0, atol=1e-3), "%s: telescope moved", what)
    r.tel["loc"] = e.tel["loc"]


def check_rt(c, f, p, what):
    r = read(f, p)
    g = structure(r, what)
    e, tol, skip = expected(c, f)
    if f == "ms":
        casa_order(e, g)
        # antenna rows may be padded with unnamed antennas
    # the order of the windows in the window table is free, the axis order is not
    e.canon_spw()
    g.canon_spw()
    if f == "ms":
        align_pos(e, g, what, 1e-6)
        g.scal["baseline_range"] = g.scal["baseline_range"]
    else:
        align_pos(e, g, what, 1e-8)
    compare(e, g, what, tol=tol, skip=skip)
    h = " ".join(str(r.history).split())
    require(" ".join(c.history.split()).replace(" ", "") in h.replace(" ", ""), "%s: history lost: %r", what, r.history[:200])
    return r, g


def run(case, ctx):
    k = case[0]
    if k in ("rt",):
        f, kw = case[1:]
        c = mk(kw)
        fz = Frozen(c)
        p, p2 = p_of(f), p_of(f)
        if not holds(c, f):
            ctx.step()
            try:
                write(c, f, p)
            except (ValueError, TypeError, NotImplementedError) as ex:
                if "reshape" in str(ex):
                    raise Violation(f"{f}: refused by accident: {ex}") from ex
                fz.check(c, f"refused write {f}")
                ctx.outcome("refused")
                return
            raise Violation(f"{f} wrote an object it cannot hold")
        write(c, f, p)
        fz.check(c, f"write {f}")
        ctx.step()
        try:
            r, g = check_rt(c, f, p, f"{f} round trip")
            ctx.state(g.key())
            # second generation
            write(r, f, p2)
            ctx.step()
            check_rt(r, f, p2, f"{f} second generation")
        finally:
            io.rm(p)
            io.rm(p2)
        ctx.outcome("held")
    elif k == "bad":
        f, kw = case[1:]
        c = mk(kw)
        p = p_of(f)
        fz = Frozen(c)
        ctx.step()
        expect_raises(lambda: write(c, f, p), (ValueError, TypeError), f"{f} of an object it cannot hold")
        fz.check(c, "refused write")
        io.rm(p)
        ctx.outcome("refused")
    elif k == "clobber":
        f, kw = case[1:]
        c = mk(kw)
        if not holds(c, f):
            ctx.outcome("skip")
            return
        big = mk(dict(kw, ants=(3, 0, 12, 7, 5), jones=(-5, -6), seed=3, nt=c.Ntimes))
        p = p_of(f)
        try:
            write(big, f, p)
            ctx.step()
            expect_raises(lambda: write(c, f, p), (IOError, OSError, ValueError), "overwriting without clobber")
            check_rt(big, f, p, f"{f} after refused overwrite")
            write(c, f, p, clobber=True)
            ctx.step()
            r, g = check_rt(c, f, p, f"{f} overwritten")
            ctx.state(g.key())
        finally:
            io.rm(p)
        ctx.outcome("held")
    elif k == "nodata":
        f, kw = case[1:]
        if f == "ms":
            ctx.outcome("skip")
            return
        c = mk(kw)
        if not holds(c, f):
            ctx.outcome("skip")
            return
        p = p_of(f)
        try:
            write(c, f, p)
            r = read(f, p, read_data=False)
        finally:
            io.rm(p)
        ctx.step()
        g = structure(r, "metadata read")
        e, tol, skip = expected(c, f)
        for n in cal.DATA + ("total_quality_array",):
            require(g.arr[n] is None, "metadata read: %s is set", n)
            e.arr[n] = None
        align_pos(e, g, "metadata read", 1e-8)
        compare(e, g, "metadata read", tol=tol)
        ctx.state(g.key())
        ctx.outcome("held")
    elif k == "part":
        part(case, ctx)
    elif k == "pbad":
        pbad(case, ctx)


_files = {}


def dfile(d, ctx):
    if (d, os.getpid()) not in _files:
        p = io.path(".calh5")
        c = c19.dataset(d)
        c.write_calh5(p)
        _files[(d, os.getpid())] = (p, CalImg(c), c)
    p, im, c = _files[(d, os.getpid())]
    if not os.path.exists(p):
        del _files[(d, os.getpid())]
        return dfile(d, ctx)
    return p, im.copy(), c


def part(case, ctx):
    _, d, ats, alt = case
    p, im, _c = dfile(d, ctx)
    kw, e = c19.select_model(im, ats, alt)
    if e is None:
        ctx.step()
        expect_raises(lambda: read("calh5", p, **kw), (ValueError, IndexError), f"partial read {ats} selecting nothing")
        ctx.outcome("refused")
        return
    what = f"calh5 partial read {kw}"
    r = read("calh5", p, **kw)
    ctx.step()
    g = structure(r, what)
    e.canon_spw()
    g.canon_spw()
    compare(e, g, what, tol={"quality_array": (1e-6, 0), "total_quality_array": (1e-6, 0)}, catalog=False)
    if e.cat is not None:
        used = {e.cat[int(i)] for i in e.arr["phase_center_id_array"]}
        require(used <= set(g.cat.values()), "%s: catalog", what)
    ctx.state(g.key())
    ctx.outcome("held")


def pbad(case, ctx):
    _, d, i = case
    p, im, c = dfile(d, ctx)
    kw = c19.bad_kw(i, c)
    if kw is None:
        ctx.outcome("skip")
        return
    ctx.step()
    expect_raises(lambda: read("calh5", p, **kw), (ValueError, TypeError, IndexError, KeyError), f"partial read with {kw}")
    ctx.outcome("refused")
