"""Plain reference models of the data objects (lists of columns, no library code)."""

import copy

import numpy as np

from .core import Violation, digest

BLT = [
    "time_array",
    "lst_array",
    "ant_1_array",
    "ant_2_array",
    "baseline_array",
    "integration_time",
    "uvw_array",
    "phase_center_id_array",
    "phase_center_app_ra",
    "phase_center_app_dec",
    "phase_center_frame_pa",
    "scan_number_array",
]
FREQ = ["freq_array", "channel_width", "flex_spw_id_array"]
POL = ["polarization_array"]
DATA = ["data_array", "flag_array", "nsample_array"]
ANT = ["antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"]
GLOBAL = [
    "vis_units",
    "extra_keywords",
    "gst0",
    "rdate",
    "earth_omega",
    "dut1",
    "timesys",
    "uvplane_reference_time",
    "eq_coeffs_convention",
    "pol_convention",
]


def _cp(x):
    return copy.deepcopy(x)


def pc_canon(entry):
    out = []
    for k in sorted(entry):
        v = entry[k]
        if v is None or k == "info_source":
            continue
        if isinstance(v, np.ndarray):
            v = tuple(np.round(np.asarray(v, float), 12).ravel().tolist())
        elif isinstance(v, (float, np.floating)):
            v = round(float(v), 12)
        out.append((k, v))
    return tuple(out)


class UVModel:
    """Independent image of a UVData object: columns along each axis."""

    def __init__(self, uv):
        self.c = {}
        for n in BLT + FREQ + POL + DATA + ["eq_coeffs"]:
            self.c[n] = _cp(getattr(uv, n))
        self.spw = _cp(np.asarray(uv.spw_array))
        self.fpol = _cp(uv.flex_spw_polarization_array)
        self.ant = {n: _cp(getattr(uv.telescope, n)) for n in ANT}
        self.ant["antenna_names"] = [str(x) for x in self.ant["antenna_names"]]
        self.tel = {
            "name": uv.telescope.name,
            "instrument": uv.telescope.instrument,
            "x_orientation": uv.telescope.x_orientation,
            "loc": tuple(
                float(x.to_value("m")) for x in uv.telescope.location.geocentric
            ),
        }
        self.g = {n: _cp(getattr(uv, n)) for n in GLOBAL}
        self.cat = _cp(uv.phase_center_catalog)

    # ---- transformations, all boring
    def copy(self):
        return copy.deepcopy(self)

    def take_blt(self, inds):
        m = self.copy()
        inds = np.asarray(inds, int)
        for n in BLT + DATA:
            if m.c[n] is not None:
                m.c[n] = np.stack([m.c[n][i] for i in inds])
        return m

    def take_freq(self, inds):
        m = self.copy()
        for n in FREQ:
            if m.c[n] is not None:
                m.c[n] = np.array([m.c[n][i] for i in inds])
        for n in DATA:
            if m.c[n] is not None:
                m.c[n] = np.stack([m.c[n][:, i] for i in inds], axis=1)
        if m.c["eq_coeffs"] is not None:
            m.c["eq_coeffs"] = np.stack([m.c["eq_coeffs"][:, i] for i in inds], axis=1)
        keep = [i for i, s in enumerate(m.spw) if s in set(m.c["flex_spw_id_array"])]
        m.spw = m.spw[keep]
        if m.fpol is not None:
            m.fpol = np.asarray(m.fpol)[keep]
        return m

    def take_pol(self, inds):
        m = self.copy()
        m.c["polarization_array"] = np.array(
            [m.c["polarization_array"][i] for i in inds]
        )
        for n in DATA:
            if m.c[n] is not None:
                m.c[n] = np.stack([m.c[n][:, :, i] for i in inds], axis=2)
        return m

    def take_ant(self, inds):
        m = self.copy()
        for n in ANT:
            v = m.ant[n]
            if v is None:
                continue
            m.ant[n] = (
                [v[i] for i in inds] if isinstance(v, list) else np.asarray(v)[inds]
            )
        if m.c["eq_coeffs"] is not None:
            m.c["eq_coeffs"] = m.c["eq_coeffs"][inds]
        return m

    def counts(self):
        c = self.c
        return {
            "Nblts": len(c["time_array"]),
            "Ntimes": len(set(c["time_array"].tolist())),
            "Nbls": len(set(c["baseline_array"].tolist())),
            "Nants_data": len(
                set(c["ant_1_array"].tolist()) | set(c["ant_2_array"].tolist())
            ),
            "Nfreqs": len(c["freq_array"]),
            "Npols": len(c["polarization_array"]),
            "Nspws": len(self.spw),
        }

    def digest(self):
        return digest(self.c, self.spw, self.fpol, self.ant, self.tel)


def same(a, b, rtol=0.0, atol=0.0):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bool, tuple)) or isinstance(b, (str, bool, tuple)):
        return a == b
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        return set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "USO" or y.dtype.kind in "USO":
        return x.tolist() == y.tolist()
    if x.dtype == bool or y.dtype == bool:
        return bool(np.array_equal(x, y))
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(x, y, equal_nan=True))
    return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))


DEFTOL = {
    "uvw_array": (0, 1e-6),
    "lst_array": (0, 1e-9),
    "time_array": (0, 1e-9),
    "phase_center_app_ra": (0, 1e-9),
    "phase_center_app_dec": (0, 1e-9),
    "phase_center_frame_pa": (0, 1e-9),
    "integration_time": (0, 1e-6),
}


def describe(a, b):
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"shape {x.shape} != {y.shape}"
        bad = np.argwhere(x != y)
        i = tuple(bad[0])
        return f"{len(bad)} entries differ, first at {i}: expected {x[i]} got {y[i]}"
    except Exception:
        return f"expected {str(a)[:80]} got {str(b)[:80]}"


def compare_uv(
    exp,
    uv,
    what="",
    tol=None,
    skip=(),
    cat="keys",
    ants=True,
    glob=True,
    counts=True,
    selfcheck=True,
):
    """The real object must equal the model, axis order included."""
    got = exp_cls(uv)
    tol = tol or {}
    for n in BLT + FREQ + POL + DATA + ["spw_array"]:
        v = getattr(uv, n, None)
        if v is not None and not isinstance(v, np.ndarray):
            raise Violation(f"{what}: {n} is a {type(v).__name__}, not an array")
    for n in BLT + FREQ + POL + DATA + ["eq_coeffs"]:
        if n in skip or n == "phase_center_id_array":
            continue
        rt, at = tol.get(n, tol.get("*", (0, 0)))
        if not same(exp.c[n], got.c[n], rt, at):
            raise Violation(f"{what}: {n}: {describe(exp.c[n], got.c[n])}")
    if "spw" not in skip:
        if exp.spw.tolist() != got.spw.tolist():
            raise Violation(f"{what}: spw_array {exp.spw} != {got.spw}")
        if not same(exp.fpol, got.fpol):
            raise Violation(f"{what}: flex_spw_polarization {exp.fpol} != {got.fpol}")
    if cat is not None:
        e = [pc_canon(exp.cat[i]) for i in exp.c["phase_center_id_array"]]
        try:
            g = [pc_canon(got.cat[i]) for i in got.c["phase_center_id_array"]]
        except KeyError as err:
            raise Violation(f"{what}: phase center id {err} not in the catalog")
        if e != g:
            k = next(i for i in range(len(e)) if e[i] != g[i])
            raise Violation(f"{what}: phase center of blt {k}: {e[k]} != {g[k]}")
        if cat == "keys" and not same(
            exp.c["phase_center_id_array"], got.c["phase_center_id_array"]
        ):
            raise Violation(f"{what}: phase_center_id_array changed")
    if ants:
        for n in ANT:
            rt, at = tol.get(n, (0, 0))
            if not same(exp.ant[n], got.ant[n], rt, at):
                raise Violation(f"{what}: telescope {n} {exp.ant[n]} != {got.ant[n]}")
        if not ants == "noloc":
            for k in exp.tel:
                a, b = exp.tel[k], got.tel[k]
                if k == "loc":
                    if not np.allclose(a, b, rtol=0, atol=1e-3):
                        raise Violation(f"{what}: telescope location {a} != {b}")
                elif a != b and k not in skip:
                    raise Violation(f"{what}: telescope {k} {a} != {b}")
    if glob:
        for n in GLOBAL:
            if n in skip:
                continue
            if not same(exp.g[n], got.g[n], *tol.get(n, (0, 0))):
                raise Violation(f"{what}: {n} {exp.g[n]} != {got.g[n]}")
    if counts:
        for k, v in exp.counts().items():
            if getattr(uv, k) != v:
                raise Violation(f"{what}: {k} is {getattr(uv, k)}, should be {v}")
        if uv.Nphase != len(uv.phase_center_catalog):
            raise Violation(f"{what}: Nphase {uv.Nphase}")
        if uv.telescope.Nants != len(uv.telescope.antenna_numbers):
            raise Violation(f"{what}: telescope Nants")
    if selfcheck:
        check_valid(uv, what)
    return got


def exp_cls(uv):
    return UVModel(uv)


def check_valid(uv, what=""):
    try:
        uv.check()
    except Exception as e:
        raise Violation(f"{what}: resulting object fails its own check(): {e}")
    rect_ok(uv, what)


def rect_ok(uv, what=""):
    """The advertised blt structure must be true of the actual arrays."""
    t, b = np.asarray(uv.time_array), np.asarray(uv.baseline_array)
    nt, nb = len(np.unique(t)), len(np.unique(b))
    rt = nt * nb == len(t) and _is_grid(t, b, nt, nb, fast_time=False)
    rb = nt * nb == len(t) and _is_grid(t, b, nt, nb, fast_time=True)
    if uv.blts_are_rectangular:
        if not (rt or rb):
            raise Violation(f"{what}: blts_are_rectangular is True but they are not")
        if uv.time_axis_faster_than_bls and not rb:
            raise Violation(f"{what}: time_axis_faster_than_bls True but it is not")
        if uv.time_axis_faster_than_bls is False and not rt:
            raise Violation(f"{what}: time_axis_faster_than_bls False but time is")


def _is_grid(t, b, nt, nb, fast_time):
    if fast_time:
        tt, bb = t.reshape(nb, nt), b.reshape(nb, nt)
        return bool((tt == tt[:1]).all() and (bb == bb[:, :1]).all())
    tt, bb = t.reshape(nt, nb), b.reshape(nt, nb)
    return bool((tt == tt[:, :1]).all() and (bb == bb[:1]).all())


class Frozen:
    """Byte-level image of every parameter of a UVBase object (no-mutation oracle)."""

    def __init__(self, obj):
        self.img = freeze(obj)

    def check(self, obj, what=""):
        now = freeze(obj)
        for k in self.img:
            if k not in now or not _eqimg(self.img[k], now[k]):
                raise Violation(f"{what}: parameter {k} of an operand was modified")


def freeze(obj, prefix=""):
    out = {}
    for p in obj:
        par = getattr(obj, p)
        v = par.value
        if hasattr(v, "check") and hasattr(v, "copy") and hasattr(v, "__iter__") and (
            p == "_telescope"
        ):
            out.update(freeze(v, prefix + "telescope."))
        else:
            out[prefix + p] = _img(v)
    return out


def _img(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("a", v.shape, repr(v.tolist()))
        return ("a", v.shape, str(v.dtype), np.ascontiguousarray(v).tobytes())
    if isinstance(v, dict):
        return ("d", tuple((repr(k), _img(v[k])) for k in sorted(v, key=repr)))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(_img(x) for x in v))
    return repr(v)


def _eqimg(a, b):
    return a == b
