"""C27: antenna-pair, polarization and Jones labels convert losslessly."""

import itertools

import numpy as np
from pyuvdata import UVData, utils

from mc import gen
from mc.core import digest, expect_raises, require

ID = "C27"
BOUNDS = (
    "antnums_to_baseline and back for every ordered pair of 30 antenna numbers around every boundary (0, 255/256, 2047/2048, 2^16, 2^22, 2^31-1) as scalar, list, tuple "
    "and array of six integer types, alone and in every pair of pairs of 14 numbers, for 5 antenna counts, both options; every pair of 0..300 "
    "against the closed form; flips; every polarization number and string in every capitalisation, orientation and container, in every order of calls up "
    "to three (the conversions are cached), strings of E/N, linear, circular, pseudo-Stokes; Jones terms alike; conjugation, reordering of every ordered "
    "subset of the eight polarizations of up to four, both sorting orders of every ordered subset."
)
ASSUMPTIONS = ["antenna numbers outside the alphabet behave like their neighbours"]

A = [0, 1, 2, 3, 7, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 65535, 65536, 2**22 - 1, 2**22, 2**22 + 2**16, 2**30, 2**31 - 2, 2**31 - 1]
A2 = [0, 1, 254, 255, 256, 257, 2047, 2048, 2049, 65536, 2**22, 2**31 - 2, 2**31 - 1, 5]
NANTS = [1, 5, 2047, 2048, 2049, 2**31]
DT = ["int64", "int32", "uint64", "uint32", "int16", "list", "tuple", "strided"]
LIN = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}
CIR = {"rr": -1, "ll": -2, "rl": -3, "lr": -4}
STO = {"pI": 1, "pQ": 2, "pU": 3, "pV": 4, "I": 1, "Q": 2, "U": 3, "V": 4}
HV = {"hh": -5, "vv": -6, "hv": -7, "vh": -8}
EAST = {"ee": -5, "nn": -6, "en": -7, "ne": -8}
NORTH = {"nn": -5, "ee": -6, "ne": -7, "en": -8}
NUM = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}
XO = [None, "east", "north", "East", "NORTH", "e", "n", "ew", "ns"]
CONJ = {-5: -5, -6: -6, -7: -8, -8: -7, -1: -1, -2: -2, -3: -4, -4: -3, 1: 1, 2: 2, 3: 3, 4: 4}


def cases(tier):
    out = []
    for a1 in A:
        for n in NANTS:
            out.append(["one", a1, n])
    for dt in DT:
        for p in itertools.combinations_with_replacement(range(len(A2)), 2):
            out.append(["two", dt, list(p)])
    for n in NANTS:
        for k in range(0, 300, 60):
            out.append(["dense", n, k])
    for x, y in itertools.product(XO, XO):
        out.append(["pol", x, y])
    for x in XO:
        out.append(["polbad", x])
    for k in range(1, 5):
        for p in itertools.permutations((-5, -6, -7, -8), k):
            out.append(["order", list(p)])
        for p in itertools.permutations((-1, -2, -3, -4), k):
            out.append(["order", list(p)])
        for p in itertools.permutations((1, 2, 3, 4), k):
            out.append(["order", list(p)])
    for p in itertools.permutations((-5, -6, -7, -8, -1, -2, -3, -4), 3):
        out.append(["order", list(p)])
    for b in ("neg", "big", "nants", "blneg", "blbig", "blnants"):
        out.append(["bad", b])
    out.append(["obj"])
    return out


def number(a1, a2, nants, att, mir, mx):
    if mir:
        return 2048 * a1 + a2 + 2**16 if a2 > 255 else 256 * a1 + a2
    if att and mx < 256:
        return 256 * a1 + a2
    if mx < 2048 and nants <= 2048:
        return 2048 * a1 + a2 + 2**16
    return 2**31 * a1 + a2 + 2**16 + 2**22


def one(case, ctx):
    _, a1, n = case
    seen = {}
    for a2, att, mir in itertools.product(A, (False, True), (False, True)):
        b = utils.antnums_to_baseline(a1, a2, Nants_telescope=n, attempt256=att, use_miriad_convention=mir)
        ctx.step()
        e = number(a1, a2, n, att, mir, max(a1, a2))
        require(int(b) == e and np.ndim(b) == 0, "baseline of (%d, %d) with Nants %d, attempt256 %s, miriad %s is %r, not %d", a1, a2, n, att, mir, b, e)
        if not mir:
            r = utils.baseline_to_antnums(b, Nants_telescope=n)
            require(r == (a1, a2) and all(isinstance(x, int) for x in r), "baseline %d gives antennas %s, not (%d, %d)", b, r, a1, a2)
            k = seen.setdefault(int(b), (a1, a2))
            require(k == (a1, a2), "baseline %d stands for two pairs", b)
        if not mir and not att:
            f = utils.bls.baseline_index_flip(b, Nants_telescope=n)
            require(int(f) == number(a2, a1, n, False, False, max(a1, a2)), "flip of (%d, %d)", a1, a2)
    ctx.state(digest(seen and sorted(seen)))
    ctx.trace()


def two(case, ctx):
    _, dt, (i, j) = case
    for k, m in itertools.product(range(len(A2)), repeat=2):
        x1, x2 = [A2[i], A2[k]], [A2[j], A2[m]]
        if dt == "int16" and max(x1 + x2) > 32767 or dt == "int32" and max(x1 + x2) > 2**31 - 1:
            continue
        if dt in ("list", "tuple"):
            c1, c2 = (list, tuple)[dt == "tuple"](x1), (list, tuple)[dt == "tuple"](x2)
        elif dt == "strided":
            c1, c2 = np.array([x1[0], 9, x1[1]])[::2], np.array([x2[0], 9, x2[1]])[::2]
        else:
            c1, c2 = np.array(x1, dtype=dt), np.array(x2, dtype=dt)
        mx = max(x1 + x2)
        for att, mir in ((False, False), (True, False), (False, True)):
            b = utils.antnums_to_baseline(c1, c2, Nants_telescope=5, attempt256=att, use_miriad_convention=mir)
            ctx.step()
            e = [number(p, q, 5, att, mir, mx) for p, q in zip(x1, x2)]
            require([int(v) for v in b] == e, "baselines of %s, %s (%s): %s, not %s", x1, x2, dt, list(b), e)
            require(np.asarray(c1).tolist() == x1 and np.asarray(c2).tolist() == x2, "input changed")
            if mir:
                continue
            for form in (b, list(b), tuple(int(v) for v in b), np.array(b).astype(np.int64)):
                r = utils.baseline_to_antnums(form, Nants_telescope=5)
                require(r[0].tolist() == x1 and r[1].tolist() == x2, "baselines %s give antennas %s, %s, not %s, %s", list(b), r[0], r[1], x1, x2)
    ctx.trace()


def dense(case, ctx):
    _, n, k = case
    a1, a2 = (x.ravel() for x in np.meshgrid(np.arange(k, k + 60), np.arange(300), indexing="ij"))
    b = utils.antnums_to_baseline(a1, a2, Nants_telescope=n)
    e = a1 * 2048 + a2 + 65536 if n <= 2048 else a1 * 2**31 + a2 + 65536 + 2**22
    require(np.array_equal(b.astype(int), e), "dense baselines")
    r = utils.baseline_to_antnums(b, Nants_telescope=n)
    require(np.array_equal(r[0], a1) and np.array_equal(r[1], a2), "dense antennas")
    f = utils.bls.baseline_index_flip(b, Nants_telescope=n)
    require(np.array_equal(utils.bls.baseline_index_flip(f, Nants_telescope=n), b), "flip twice")
    ctx.step(3)
    ctx.trace()


def table(x):
    t = dict(LIN)
    t.update(CIR)
    t.update(STO)
    t.update(HV)
    if x is not None:
        t.update(EAST if x.lower().startswith("e") else NORTH)
    return t


def names(x):
    t = dict(NUM)
    if x is not None:
        t.update({v: k for k, v in (EAST if x.lower().startswith("e") else NORTH).items()})
    return t


def pol(case, ctx):
    # the two orientations in turn: a cached answer for one must not leak into the other
    for rnd, x in enumerate((case[1], case[2], case[1])):
        kw = {} if x is None else {"x_orientation": x}
        t, nm = table(x), names(x)
        for s, v in t.items():
            for form in (s, s.lower(), s.upper(), s.capitalize(), np.str_(s)):
                r = utils.polstr2num(form, **kw)
                ctx.step()
                require(r == v, "polstr2num(%r, %r) is %r", form, x, r)
            require(utils.parse_polstr(s, **kw) == nm[v], "parse_polstr(%r, %r)", s, x)
        ks = list(t)
        for form in (ks, tuple(ks), np.array(ks)):
            r = utils.polstr2num(form, **kw)
            require(r == [t[k] for k in ks], "polstr2num of a container with %r", x)
            r[0] = 99
            r = utils.polstr2num(form, **kw)
            require(r == [t[k] for k in ks], "polstr2num: a result the caller changed comes back")
        for v, s in nm.items():
            for form in (v, np.int64(v), np.int32(v)):
                require(utils.polnum2str(form, **kw) == s, "polnum2str(%r, %r)", form, x)
            ctx.step()
        vs = list(nm)
        for form in (vs, tuple(vs), np.array(vs), np.array(vs, dtype=np.int32)):
            r = utils.polnum2str(form, **kw)
            require(r == [nm[v] for v in vs], "polnum2str of a container with %r", x)
            r.reverse()
            require(utils.polnum2str(form, **kw) == [nm[v] for v in vs], "polnum2str: a result the caller changed comes back")
        # Jones terms: without the pseudo-Stokes numbers
        for v in range(-8, 0):
            s = "J" + nm[v]
            require(utils.jnum2str(v, **kw) == s, "jnum2str(%r, %r) is %r", v, x, utils.jnum2str(v, **kw))
            for form in (s, s.lower(), s.upper(), nm[v], nm[v].upper(), "J" + NUM[v], NUM[v]):
                require(utils.jstr2num(form, **kw) == v, "jstr2num(%r, %r) is %r", form, x, utils.jstr2num(form, **kw))
            if nm[v][0] == nm[v][1]:
                require(utils.jstr2num(nm[v][0], **kw) == v and utils.jstr2num(NUM[v][0], **kw) == v, "one-letter Jones %r, %r", nm[v], x)
            require(utils.parse_jpolstr(NUM[v], **kw) == s, "parse_jpolstr(%r, %r)", NUM[v], x)
            ctx.step()
        vs = list(range(-8, 0))
        for form in (vs, tuple(vs), np.array(vs)):
            r = utils.jnum2str(form, **kw)
            require(r == ["J" + nm[v] for v in vs], "jnum2str of a container")
            q = utils.jstr2num(r, **kw)
            require(q == vs, "jstr2num of a container")
            q[0] = 5
            require(utils.jstr2num(r, **kw) == vs, "jstr2num: a result the caller changed comes back")
    ctx.state(digest(case[1], case[2]))
    ctx.trace()


def polbad(case, ctx):
    x = case[1]
    kw = {} if x is None else {"x_orientation": x}
    for f, bads in (("polstr2num", ["ab", "xz", "J", "", "Jxx"]), ("polnum2str", [0, -9, 5]), ("jstr2num", ["Jab", "I", "pI", ""]), ("jnum2str", [0, 1, 4, -9])):
        for b in bads:
            for form in (b, [b]):
                expect_raises(lambda f=f, form=form: getattr(utils, f)(form, **kw), (KeyError, ValueError), f"{f}({form!r})")
                ctx.step()
    if x is None:
        for s in ("ee", "en", "ne", "nn"):
            expect_raises(lambda s=s: utils.polstr2num(s), KeyError, f"polstr2num({s!r}) without orientation")
            expect_raises(lambda s=s: utils.jstr2num("J" + s), KeyError, f"jstr2num({s!r}) without orientation")
    ctx.outcome("refused")


def order(case, ctx):
    p = case[1]
    for form in (list(p), tuple(p), np.array(p)):
        r = utils.conj_pol(form)
        require([int(v) for v in r] == [CONJ[v] for v in p], "conj_pol(%s) is %s", p, r)
        i = np.asarray(utils.pol.determine_pol_order(form))
        require([p[k] for k in i] == sorted(p, key=abs) or len({abs(v) for v in p}) < len(p), "AIPS order of %s is %s", p, i)
        i = np.asarray(utils.pol.determine_pol_order(form, order="CASA"))
        c = [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]
        require([p[k] for k in i] == sorted(p, key=c.index), "CASA order of %s is %s", p, i)
        ctx.step(3)
        names_ = [NUM[v] for v in p]
        require(list(utils.conj_pol(names_)) == [NUM[CONJ[v]] for v in p], "conj_pol of names %s", names_)
        for q, col in ((form, p), (names_, names_)):
            if all(CONJ[v] in p for v in p):
                r = utils.pol.reorder_conj_pols(q)
                # after conjugating, position k holds the conjugate of the original polarization
                require([CONJ[p[k]] for k in r] == list(p), "reorder_conj_pols(%s) is %s", q, r)
            else:
                expect_raises(lambda q=q: utils.pol.reorder_conj_pols(q), ValueError, f"reorder_conj_pols({q})")
    for v in p:
        require(utils.conj_pol(v) == CONJ[v] and utils.conj_pol(NUM[v]) == NUM[CONJ[v]] and utils.conj_pol(NUM[v].upper()) == NUM[CONJ[v]], "conj_pol(%s)", v)
    expect_raises(lambda: utils.pol.determine_pol_order(p, order="other"), ValueError, "unknown order")
    ctx.trace()


def bad(case, ctx):
    b = case[1]
    f, g = utils.antnums_to_baseline, utils.baseline_to_antnums
    calls = {
        "neg": [lambda: f(-1, 0, Nants_telescope=5), lambda: f([0, 1], [3, -2], Nants_telescope=5)],
        "big": [lambda: f(2**31, 0, Nants_telescope=5), lambda: f(0, 2**31, Nants_telescope=5), lambda: f([0, 2**31], [0, 1], Nants_telescope=5)],
        "nants": [lambda: f(0, 1, Nants_telescope=2**31 + 1)],
        "blneg": [lambda: g(-1, Nants_telescope=5), lambda: g([-1, 7], Nants_telescope=5)],
        "blbig": [lambda: g(4611686018498691073, Nants_telescope=5)],
        "blnants": [lambda: g(66000, Nants_telescope=2**31 + 1)],
    }[b]
    for c in calls:
        expect_raises(c, ValueError, b)
        ctx.step()
    require(f(2**31 - 1, 2**31 - 1, Nants_telescope=5) == 2**31 * (2**31 - 1) + 2**31 - 1 + 2**16 + 2**22, "largest pair")
    ctx.outcome("refused")


def obj(case, ctx):
    u = gen.uvd(meta=True)
    from pyuvdata import UVFlag

    for o in (u, UVFlag(gen.uvd(), mode="flag")):
        for a1, a2 in itertools.product((0, 3, 12, 255, 256, 2047), repeat=2):
            b = o.antnums_to_baseline(a1, a2)
            require(int(b) == 2048 * a1 + a2 + 65536, "object.antnums_to_baseline")
            require(tuple(o.baseline_to_antnums(b)) == (a1, a2), "object.baseline_to_antnums")
            if max(a1, a2) < 256:
                require(int(o.antnums_to_baseline(a1, a2, attempt256=True)) == 256 * a1 + a2, "attempt256")
            ctx.step()
    require(np.array_equal(u.baseline_array, u.antnums_to_baseline(u.ant_1_array, u.ant_2_array)), "baseline_array")
    require(isinstance(u, UVData), "type")
    ctx.trace()


def run(case, ctx):
    {"one": one, "two": two, "dense": dense, "pol": pol, "polbad": polbad, "order": order, "bad": bad, "obj": obj}[case[0]](case, ctx)
