"""C25: UVBeam selection, combination and files, against label-addressed images."""

import itertools
import os

import numpy as np
from pyuvdata import UVBeam

from mc import beam, io, malformed
from mc.beam import BeamImg, compare, structure
from mc.core import Violation, require
from mc.model import Frozen

ID = "C25"
BOUNDS = (
    "UVBeam objects on regular azimuth/zenith-angle and orthographic grids and on full and partial healpix maps, E-field (one and two feeds, both "
    "feed orders, circular, two and three components) and power (real and complex, pseudo-Stokes, circular, vector axes kept), simple and phased "
    "array, ascending, descending and uneven frequencies: select by every subset of every axis (every ordered choice of polarizations and feeds, numbers, names "
    "and orientation names) and every pair of criteria of a reduced alphabet, in place and not; every rejected form; "
    "every cut of every axis put back together in both orders, with the parts reordered; cuts along two axes; every refused addition; "
    "write/read twice, every frequency/azimuth/zenith range read, lists of files."
)
ASSUMPTIONS = []

SEL = ("ae", "cf", "aePd", "ar", "hr", "pf", "aw", "ox", "as", "ab", "hw", "pb", "nxd", "aeu", "c1", "htP", "aq", "pwd")
PST = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
PSTX = {-5: "ee", -6: "nn", -7: "en", -8: "ne"}
FX = {"x": "e", "y": "n"}


def get(kind, seed=0, opt=True):
    b = beam.make(kind, seed, opt=opt)
    if b.basis_vector_array is not None:
        beam.label_basis(b, seed)
    return b


def subsets(n, cap=None):
    out = [list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
    return out if cap is None else out[:cap]


def alphabet(kind, red=False):
    im = BeamImg(get(kind))
    out = []
    nf = len(im.freq)
    for s in subsets(nf):
        out += [["chan", s], ["freq", s], ["freq", s[::-1]], ["chan", s[::-1]]]
    out += [["mix", [0], [2]], ["mix", [2], [1, 2]], ["chan1", 1], ["freq1", 2]]
    if im.hpx:
        n = len(im.pix[0])
        ss = [[i] for i in range(n)] + [list(c) for c in itertools.combinations(range(n), 2)] + [list(range(0, n, 2)), list(range(n)), [n - 1, 0, 0]]
        out += [["pix", s] for s in ss]
    else:
        for a, nm in ((0, "ax2"), (1, "ax1")):
            out += [[nm, s] for s in subsets(len(im.pix[a]))]
            out += [[nm, [2, 0]], [nm, [1, 1]]]
    n = len(im.pol)
    for k in range(1, n + 1):
        for p in itertools.permutations(range(n), k):
            out.append(["pol", list(p)])
            out.append(["pstr", list(p)])
            if im.x is not None and im.pol[0] not in (1, 2, 3, 4):
                out.append(["pstrx", list(p)])
    out += [["pol", [0, 0]], ["pol1", 0]]
    if red:
        keep = {}
        for a in out:
            keep.setdefault(a[0], []).append(a)
        out = []
        for k, v in keep.items():
            if k in ("pstrx", "freq1", "chan1", "pol1"):
                continue
            m = [v[0], v[len(v) // 2]]
            if k == "pol" and n > 1:
                m.append(["pol", [1, 0]])
            out += m
    return out


AX = {"chan": "f", "freq": "f", "mix": "f", "chan1": "f", "freq1": "f", "pix": 0, "ax2": 0, "ax1": 1, "pol": "p", "pstr": "p", "pstrx": "p", "pol1": "p"}


def kwargs(im, at):
    k = at[0]
    if k == "chan":
        return {"freq_chans": at[1]}, at[1]
    if k == "chan1":
        return {"freq_chans": at[1]}, [at[1]]
    if k == "freq":
        return {"frequencies": [im.freq[i] for i in at[1]]}, at[1]
    if k == "freq1":
        return {"frequencies": im.freq[at[1]]}, [at[1]]
    if k == "mix":
        return {"frequencies": [im.freq[i] for i in at[1]], "freq_chans": at[2]}, at[1] + at[2]
    if k == "pix":
        return {"pixels": [im.pix[0][i] for i in at[1]]}, at[1]
    if k == "ax1":
        return {"axis1_inds": at[1]}, at[1]
    if k == "ax2":
        return {"axis2_inds": at[1]}, at[1]
    nm = "polarizations" if im.type == "power" else "feeds"
    ii = at[1] if isinstance(at[1], list) else [at[1]]
    labs = [im.pol[i] for i in ii]
    if k == "pstr" and im.type == "power":
        labs = [PST[p] for p in labs]
    elif k == "pstr":
        labs = [p.upper() for p in labs]
    elif k == "pstrx" and im.type == "power":
        labs = [PSTX[p] for p in labs]
    elif k == "pstrx":
        labs = [FX[p] for p in labs]
    if k == "pol1":
        return {nm: labs[0]}, ii
    return {nm: labs}, ii


def expect_sel(im, ats):
    kw, sets = {}, {}
    for at in ats:
        k, ii = kwargs(im, at)
        kw.update(k)
        a = AX[at[0]]
        sets[a] = set(ii)
    exp = im
    for a, s in sets.items():
        exp = exp.take(a, sorted(s))
    if im.type == "power" and beam.CROSS & set(im.pol) and not beam.CROSS & set(exp.pol):
        exp.data = exp.data.real
    return kw, exp


def run_sel(case, ctx):
    _, kind, ats, inpl = case
    b = get(kind)
    im = BeamImg(b)
    kw, exp = expect_sel(im, ats)
    fr = Frozen(b)
    g = b.select(inplace=bool(inpl), **kw)
    if inpl:
        g = b
    else:
        fr.check(b, "select")
        require(not np.shares_memory(g.data_array, b.data_array), "the selection shares data with the original")
    got = structure(g, "select")
    compare(exp, got, f"select {sorted(kw)}", order=True)
    require("made" in g.history, "history lost")
    ctx.step()
    ctx.trace()
    ctx.state(got.key())


BAD = {
    "chan": {"freq_chans": [9]},
    "freq": {"frequencies": [1.0]},
    "freq2": {"frequencies": [1e8, 7.0]},
    "pix": {"pixels": [40]},
    "pix2": {"pixels": [3, 40]},
    "ax1n": {"axis1_inds": [-1]},
    "ax1h": {"axis1_inds": [0, 99]},
    "ax2n": {"axis2_inds": [-1]},
    "ax2h": {"axis2_inds": [0, 99]},
    "pol": {"polarizations": [-9]},
    "feed": {"feeds": ["z"]},
    "polf": {"polarizations": ["xx"]},
    "feedp": {"feeds": ["x"]},
}


def applies(kind, k):
    im = BeamImg(get(kind))
    if k == "freq2" and "u" in kind:
        return False
    if k.startswith("pix") or not k.startswith("ax"):
        return not (k == "polf" and im.type == "power") and not (k == "feedp" and im.type == "efield") and k not in (("pol",) if im.type == "efield" else ("feed",))
    return True


def run_bad(case, ctx):
    _, kind, k = case
    b = get(kind)
    fr = Frozen(b)
    try:
        b.select(inplace=False, **BAD[k])
    except (ValueError, IndexError):
        pass
    else:
        raise Violation(f"select({BAD[k]}) was accepted")
    fr.check(b, "refused select")
    ctx.step()
    ctx.trace()


# ---------------------------------------------------------------- combining
ADD = ("ae", "cf", "aeP", "hr", "pf", "aw", "ox", "as", "ab", "hw", "pb", "nx", "aed", "pwd", "ht", "aeu")


def axes(im):
    return ["p", "f", 0] + ([] if im.hpx else [1])


def seq(b, axis, idx, im):
    """The part of b with the given positions, in that order."""
    nm = {"f": "freq_chans"}.get(axis)
    if axis == "p":
        nm, v = ("polarizations" if im.type == "power" else "feeds"), [im.pol[i] for i in idx]
    elif axis == "f":
        v = list(idx)
    elif im.hpx:
        nm, v = "pixels", [im.pix[0][i] for i in idx]
    else:
        nm, v = ("axis2_inds", "axis1_inds")[axis], list(idx)
    return b.select(inplace=False, **{nm: v})


def rebuild(b, im):
    """Put an image into a copy of object b (shapes and labels set directly)."""
    o = b.copy()
    o.data_array = im.data.copy()
    o.freq_array = np.array(im.freq)
    o.Nfreqs = len(im.freq)
    if im.type == "power":
        o.polarization_array = np.array(im.pol)
        o.Npols = len(im.pol)
    else:
        o.feed_array = np.array(im.pol)
        o.Nfeeds = len(im.pol)
    if im.hpx:
        o.pixel_array = np.array(im.pix[0])
        o.Npixels = len(im.pix[0])
    else:
        o.axis2_array, o.axis1_array = np.array(im.pix[0]), np.array(im.pix[1])
        o.Naxes2, o.Naxes1 = len(im.pix[0]), len(im.pix[1])
    if im.basis is not None:
        o.basis_vector_array = im.basis.copy()
    for k, v in im.f1.items():
        setattr(o, k, None if v is None else v.copy())
    o.s_parameters = None if im.s is None else im.s.copy()
    o.coupling_matrix = None if im.coup is None else im.coup.copy()
    o.check()
    return o


def cutparts(b, im, axis, idx):
    """An operand holding the given positions (in that order); real when it has no cross pols."""
    e = im.take(axis, idx)
    if im.type == "power" and beam.CROSS & set(im.pol) and not beam.CROSS & set(e.pol):
        e.data = e.data.real.copy()
    return rebuild(b, e), e


def run_add(case, ctx):
    _, kind, axis, s, swap, ren, inpl = case
    b = get(kind)
    im = BeamImg(b)
    n = im.size(axis)
    rest = [i for i in range(n) if i not in s]
    if ren:
        s, rest = s[::-1], rest[::-1]
    p, q = cutparts(b, im, axis, s)[0], cutparts(b, im, axis, rest)[0]
    if ren:
        # the second operand also carries every other axis in another order
        e = BeamImg(q)
        for a in axes(e):
            e = e.take(a, list(range(e.size(a)))[::-1])
        q = rebuild(b, e)
    if swap:
        p, q = q, p
    exp = im.copy()
    if axis == "p" and im.coup is not None:
        # documented: coupling between feeds of different operands is not known
        for i in range(n):
            for j in range(n):
                if (i in s) != (j in s):
                    exp.coup[:, :, i, j] = 0
    fq = Frozen(q)
    fp = Frozen(p)
    if inpl:
        p += q
        g = p
    else:
        g = p + q
        fp.check(p, "addition")
    fq.check(q, "addition")
    got = structure(g, "sum")
    compare(exp, got, f"sum along {axis}")
    ctx.step()
    ctx.trace()
    ctx.state(got.key())


def run_add2(case, ctx):
    """Diagonal blocks of two axes: the other blocks are zero."""
    _, kind, a1, a2, swap = case
    b = get(kind)
    im = BeamImg(b)
    n1, n2 = im.size(a1), im.size(a2)
    A = ([0], list(range(1, n1)))
    B = ([0], list(range(1, n2)))
    e = im.copy()
    pos = {"p": 1, "f": 2, 0: 3, 1: 4}
    x1 = np.arange(n1) == 0
    x2 = np.arange(n2) == 0
    sh1 = [1] * im.data.ndim
    sh1[pos[a1]] = n1
    sh2 = [1] * im.data.ndim
    sh2[pos[a2]] = n2
    keep = x1.reshape(sh1) == x2.reshape(sh2)
    e.data = np.where(keep, im.data, 0)
    if {a1, a2} == {0, 1} and e.basis is not None:
        e.basis = np.where(x1.reshape(1, 1, -1, 1) == x2.reshape(1, 1, 1, -1), im.basis, 0)
    if e.coup is not None:
        cp = {"p": None, "f": 4}
        for ax, n in ((a1, n1), (a2, n2)):
            if ax == "p":
                for i in range(n):
                    for j in range(n):
                        if (i == 0) != (j == 0):
                            e.coup[:, :, i, j] = 0
        if {a1, a2} == {"p", "f"}:
            f0 = np.arange(len(im.freq)) == 0
            for i in range(len(im.pol)):
                e.coup[:, :, i, i, f0 != (i == 0)] = 0
    parts = []
    for s1, s2 in zip(A, B):
        m = im.take(a1, s1).take(a2, s2)
        if im.type == "power" and beam.CROSS & set(im.pol) and not beam.CROSS & set(m.pol):
            m.data = m.data.real.copy()
        parts.append(rebuild(b, m))
    if swap:
        parts = parts[::-1]
    g = parts[0] + parts[1]
    compare(e, structure(g, "sum"), f"sum along {a1} and {a2}")
    ctx.step()
    ctx.trace()
    ctx.state(e.key())


def run_opt(case, ctx):
    """Only one operand has an optional array: the sum does not have it."""
    _, kind, nm, which = case
    b = get(kind)
    im = BeamImg(b)
    p, q = cutparts(b, im, "f", [0])[0], cutparts(b, im, "f", [1, 2])[0]
    setattr((p, q)[which], nm, None)
    g = p + q
    e = im.copy()
    if nm == "s_parameters":
        e.s = None
    else:
        e.f1[nm] = None
    compare(e, structure(g, "sum"), f"sum, {nm} on one side")
    ctx.step()
    ctx.trace()


REF = ("overlap", "same", "beam_type", "data_normalization", "telescope_name", "feed_name", "feed_version", "model_name", "model_version", "csys", "ordering", "nside", "antenna_type", "type", "delay")


def run_ref(case, ctx):
    _, kind, why, inpl = case
    b = get(kind)
    im = BeamImg(b)
    p, q = cutparts(b, im, "f", [0])[0], cutparts(b, im, "f", [1, 2])[0]
    if why == "overlap":
        q = cutparts(b, im, "f", [0, 1])[0]
    elif why == "same":
        q = p.copy()
    elif why == "beam_type":
        if im.type != "efield" or im.ant != "simple" or im.pol != ["x", "y"] or "t" in kind:
            return
        q = q.efield_to_power(inplace=False, calc_cross_pols=False, keep_basis_vector=True)
    elif why == "data_normalization":
        q.data_normalization = "peak"
    elif why in ("telescope_name", "feed_name", "feed_version", "model_name", "model_version"):
        setattr(q, why, "other")
    elif why == "csys":
        if im.hpx:
            return
        q.pixel_coordinate_system = "orthoslant_zenith" if im.csys == "az_za" else "az_za"
        q.axis1_array = np.abs(q.axis1_array)
        q.axis2_array = np.abs(q.axis2_array)
    elif why == "ordering":
        if not im.hpx:
            return
        q.ordering = "nested" if q.ordering == "ring" else "ring"
    elif why == "nside":
        if not im.hpx:
            return
        q.nside = 2
    elif why == "antenna_type":
        if im.ant != "phased_array":
            return
        q.antenna_type = "simple"
    elif why == "delay":
        if im.ant != "phased_array":
            return
        q.delay_array = q.delay_array + 1.0
    elif why == "type":
        q = 7
    fp = Frozen(p)
    try:
        if inpl:
            p += q
        else:
            p + q
    except (ValueError, AttributeError, TypeError):
        pass
    else:
        raise Violation(f"objects with different {why} were added")
    fp.check(p, f"refused addition ({why})")
    ctx.step()
    ctx.trace()


# -------------------------------------------------------------------- files
FILES = ("ae", "cf", "ar", "hr", "pf", "aw", "ox", "as", "ab", "hw", "pb", "nx", "aed", "pwd", "ht", "c1", "at", "aq", "hs", "as1", "ax1", "aw1")


def fobj(kind, opt, nf=3):
    if kind.endswith("1") and len(kind) == 3:
        b = get(kind[:-1], opt=opt)
        b.select(polarizations=[BeamImg(b).pol[1]])
        return b
    return get(kind, opt=opt) if nf == 3 else beam.make(kind, nf=nf, opt=opt)


def run_file(case, ctx):
    _, kind, opt, nf = case
    b = fobj(kind, opt, nf)
    im = BeamImg(b)
    fr = Frozen(b)
    p = io.path(".fits")
    try:
        b.write_beamfits(p)
        fr.check(b, "writing")
        size = open(p, "rb").read()
        try:
            b.write_beamfits(p)
        except OSError:
            pass
        else:
            raise Violation("an existing file was overwritten")
        require(open(p, "rb").read() == size, "refused write changed the file")
        ctx.step(2)
        for rnd in range(2):
            if rnd == 0:
                g = UVBeam.from_file(p)
            else:
                g = UVBeam()
                g.read_beamfits(p)
            got = structure(g, "read")
            compare(im, got, "written and read", ltol=1e-13, order=True)
            require("made" in g.history, "history lost")
            require(g.filename == [os.path.basename(p)], "filename")
            ctx.step()
            if rnd == 0:
                g.write_beamfits(p, clobber=True)
    finally:
        io.rm(p)
    ctx.trace()
    ctx.state(im.key())


def run_part(case, ctx):
    """Every contiguous frequency/azimuth/zenith range read is the selection."""
    _, kind = case
    b = get(kind)
    im = BeamImg(b)
    p = io.path(".fits")
    n = len(im.freq)

    def rng(v, lo, hi, step):
        return [v[lo] - step / 3, v[hi] + step / 3]

    try:
        b.write_beamfits(p)
        reqs = []
        for lo in range(n):
            for hi in range(lo, n):
                reqs.append({"f": (lo, hi)})
        if not im.hpx and im.csys == "az_za":
            for a in (0, 1):
                m = len(im.pix[a])
                for lo in range(m):
                    for hi in range(lo, m):
                        reqs.append({a: (lo, hi)})
            reqs += [{0: (1, 2), 1: (0, 2), "f": (1, 1)}, {0: (0, 1), 1: (1, 3)}, {"f": (0, 1), 1: (2, 3)}]
        for r in reqs:
            kw = {}
            e = im
            for a, (lo, hi) in r.items():
                e = e.take(a, range(lo, hi + 1))
                if a == "f":
                    kw["freq_range"] = rng(im.freq, lo, hi, 1e6)
                else:
                    v = im.pix[a]
                    kw["za_range" if a == 0 else "az_range"] = list(np.rad2deg(rng(v, lo, hi, v[1] - v[0])))
            for via in (0, 1):
                g = UVBeam()
                if via:
                    g.read(p, **kw)
                else:
                    g.read_beamfits(p, **kw)
                compare(e, structure(g, "partial read"), f"partial read {kw}", ltol=1e-13, order=True)
                ctx.step()
            ctx.trace()
            ctx.state(e.key())
    finally:
        io.rm(p)


def run_list(case, ctx):
    _, kind, axis, swap = case
    b = get(kind)
    im = BeamImg(b)
    n = im.size(axis)
    cuts = [[0], [1], list(range(2, n))] if n > 2 else [[0], [1]]
    if axis == "p" and n == 4:
        cuts = [[0, 1], [2, 3]]
    paths = []
    try:
        for c in cuts:
            o = cutparts(b, im, axis, c)[0]
            q = io.path(".fits")
            o.write_beamfits(q)
            paths.append(q)
        if swap:
            paths = paths[::-1]
        g = UVBeam.from_file(paths)
        compare(im, structure(g, "read list"), "list of files", ltol=1e-13)
        require(g.filename == sorted(os.path.basename(x) for x in paths), "filename of a list of files")
        ctx.step()
        # a bad file in the list is skipped, or refused
        badp = io.path(".fits")
        from astropy.io import fits

        with fits.open(paths[0]) as h:
            h[0].header["NORMSTD"] = "unknown"
            h.writeto(badp)
        try:
            for pos in (0, 1):
                lst = paths[:pos] + [badp] + paths[pos:]
                g = UVBeam()
                g.read(lst, skip_bad_files=True, file_type="beamfits")
                compare(im, structure(g, "read list"), "list with a bad file", ltol=1e-13)
                try:
                    UVBeam.from_file(lst, file_type="beamfits")
                except Exception:
                    pass
                else:
                    raise Violation("a bad file was ignored")
                ctx.step(2)
        finally:
            io.rm(badp)
    finally:
        for q in paths:
            io.rm(q)
    ctx.trace()


def run_wbad(case, ctx):
    """What the format cannot hold is refused and leaves nothing behind wrong."""
    _, kind, why = case
    b = get(kind)
    im = BeamImg(b)
    if why == "freq":
        b = cutparts(b, im, "f", [0, 2])[0]
        b = rebuild(b, BeamImg(beam.make(kind + "u")) if "u" not in kind else BeamImg(b))
    elif why == "ax1":
        b = cutparts(b, im, 1, [0, 1, 3])[0]
    elif why == "ax2":
        b = cutparts(b, im, 0, [0, 1, 3])[0]
    elif why == "pol":
        b = cutparts(b, im, "p", [0, 1, 3])[0]
    p = io.path(".fits")
    fr = Frozen(b)
    try:
        try:
            b.write_beamfits(p)
        except (ValueError, TypeError):
            fr.check(b, "refused write")
            require(not os.path.exists(p), "refused write left a file")
        else:
            raise Violation(f"write of uneven {why} was accepted")
    finally:
        io.rm(p)
    ctx.step()
    ctx.trace()


MALOBJ = ["ae", "hw", "aw", "he"]


def run_mal(case, ctx):
    o = MALOBJ[case[1]]
    malformed.run(lambda: beam.make(o), malformed.BEAM[case[2]], ctx)


def cases(tier):
    out = []
    for i in range(len(MALOBJ)):
        for j in range(len(malformed.BEAM)):
            out.append(["mal", i, j])
    for k in SEL:
        al = alphabet(k)
        for i, a in enumerate(al):
            if tier == "thorough":
                out += [["sel", k, [a], 0], ["sel", k, [a], 1]]
            else:
                out.append(["sel", k, [a], i % 2])
        rd = alphabet(k, red=True)
        for i, (a, c) in enumerate(itertools.combinations(rd, 2)):
            if AX[a[0]] == AX[c[0]]:
                continue
            out.append(["sel", k, [a, c], i % 2])
        for w in BAD:
            if applies(k, w):
                out.append(["bad", k, w])
    for k in ADD:
        im = BeamImg(get(k))
        for ax in axes(im):
            n = im.size(ax)
            if n < 2:
                continue
            ss = [s for s in subsets(n) if len(s) < n]
            if n > 6:
                ss = [[i] for i in range(n)] + [list(range(0, n, 2)), list(range(n // 2))]
            for s in ss:
                for sw in (0, 1):
                    for ren in (0, 1):
                        out.append(["add", k, ax, s, sw, ren, (sum(s) + sw) % 2])
        for a, c in itertools.combinations(axes(im), 2):
            if im.size(a) > 1 and im.size(c) > 1:
                for sw in (0, 1):
                    out.append(["add2", k, a, c, sw])
        for nm in ("receiver_temperature_array", "loss_array", "mismatch_array", "s_parameters"):
            for w in (0, 1):
                out.append(["opt", k, nm, w])
        for why in REF:
            for inpl in (0, 1):
                out.append(["ref", k, why, inpl])
    for k in FILES:
        for opt in (True, False):
            for nf in (3, 1, 2):
                if len(k) == 3 and k.endswith("1") and nf != 3:
                    continue
                out.append(["file", k, opt, nf])
    for k in ("ae", "cf", "ab", "hw", "pf", "ox", "ax", "cw"):
        out.append(["part", k])
        for ax in ("p", "f", 0):
            for sw in (0, 1):
                out.append(["list", k, ax, sw])
    for k in ("ae", "aw", "hw"):
        out.append(["wbad", k, "freq"])
        if k[0] == "a":
            out += [["wbad", k, "ax1"], ["wbad", k, "ax2"]]
        if k[1] == "w":
            out.append(["wbad", k, "pol"])
    return out


def run(case, ctx):
    {"mal": run_mal, "sel": run_sel, "bad": run_bad, "add": run_add, "add2": run_add2, "opt": run_opt, "ref": run_ref, "file": run_file, "part": run_part, "list": run_list, "wbad": run_wbad}[
        case[0]
    ](case, ctx)
