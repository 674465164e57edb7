"""Exploration engine: exhaustive enumeration of cases on the real code.

A check is a module in mc.checks with

    ID, TITLE, BOUNDS (text), ASSUMPTIONS (list of text)
    cases(tier)      -> list of JSON-able case descriptors (the bounded space)
    run(case, ctx)   -> execute the case against the real code; raise Violation

``ctx`` measures coverage: ctx.state(obj_digest) for every distinct canonical
state the implementation was put in, ctx.step() for every transition executed on
the implementation, ctx.trace() for every complete model trace whose predicted
outcome was compared with the implementation's.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(Exception):
    pass


class Ctx:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.cap = None

    def state(self, digest):
        self.states.add(digest)

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, val):
        self.outcomes.add(str(val)[:120])


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, parts)
    return h.digest()


def _feed(h, x):
    import numpy as np

    if isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode() + str(x.shape).encode())
        if x.dtype == object or x.dtype.kind == "U":
            h.update(repr(x.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            _feed(h, y)
    else:
        h.update(repr(x).encode())
    h.update(b"|")


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_raises(func, exc=Exception, what="call"):
    """Call func; it must raise exc."""
    try:
        func()
    except CaseTimeout:
        raise
    except exc:
        return
    raise Violation(f"{what}: expected an error, none was raised")


def _alarm(signum, frame):
    raise CaseTimeout(f"case did not finish in {CASE_TIMEOUT} s")


_MOD = None


def _init_worker(modname):
    global _MOD
    import importlib

    warnings.simplefilter("ignore")
    _MOD = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    # library chatter ("File exists; clobbering") is not the check's output
    devnull = open(os.devnull, "w")
    sys.stdout = devnull


def _one(case, ctx):
    """Return None or a (kind, message, detail) violation."""
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _MOD.run(case, ctx)
        return None
    except Violation as e:
        return ("violation", str(e), traceback.format_exc(limit=-6))
    except CaseTimeout as e:
        return ("timeout", str(e), traceback.format_exc(limit=-6))
    except MemoryError:
        raise
    except Exception as e:  # legal call raised: the operation did not do its job
        return (
            "exception",
            f"{type(e).__name__}: {e}",
            traceback.format_exc(limit=-8),
        )
    finally:
        signal.alarm(0)


def _run_chunk(args):
    idx0, cases, stop_after = args
    ctx = Ctx()
    bad = []
    n = 0
    cur = os.path.join(_journal_dir(), f"cur_{os.getpid()}")
    for i, case in enumerate(cases):
        n += 1
        with open(cur, "w") as f:
            f.write(json.dumps([idx0, i]))
        v = _one(case, ctx)
        if v is not None:
            bad.append((idx0 + i, case, v))
            if len(bad) >= stop_after:
                break
    os.remove(cur)
    return n, ctx.states, ctx.transitions, ctx.traces, ctx.outcomes, bad


def _journal_dir():
    d = os.environ.get("VERIF_SCRATCH") or "/tmp"
    d = os.path.join(d, "journal")
    os.makedirs(d, exist_ok=True)
    return d


def _explore_chunks(work, jobs, modname, stop):
    """Run the chunks in forked workers; a case that kills its process is a violation.

    Yields chunk results.  When a worker dies, the case it was in (known from its
    journal) is reported and its chunk, and those whose results were lost, are resumed
    without it.
    """
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool

    todo = {w[0]: w for w in work}
    jd = _journal_dir()
    deaths = 0
    while todo:
        for f in os.listdir(jd):
            os.remove(os.path.join(jd, f))
        ex = ProcessPoolExecutor(
            jobs,
            mp_context=get_context("fork"),
            initializer=_init_worker,
            initargs=(modname,),
        )
        futs = {ex.submit(_run_chunk, w): w[0] for w in todo.values()}
        broken = False
        try:
            for fu in as_completed(futs):
                try:
                    res = fu.result()
                except BrokenProcessPool:
                    broken = True
                    continue
                todo.pop(futs[fu])
                yield res
                if stop():
                    procs = list((ex._processes or {}).values())
                    for p in procs:
                        p.kill()
                    ex.shutdown(wait=False, cancel_futures=True)
                    for p in procs:
                        p.join(5)
                    return
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
        if not broken:
            break
        deaths += 1
        # several workers were killed when the pool broke: every unfinished chunk's
        # current case is a suspect; run each suspect alone
        for f in os.listdir(jd):
            with open(os.path.join(jd, f)) as fh:
                txt = fh.read()
            if not txt:
                continue
            idx0, i = json.loads(txt)
            if idx0 not in todo:
                continue
            _, cases, st = todo[idx0]
            case = cases[i]
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    _init_worker(modname)
                    _one(case, Ctx())
                finally:
                    os._exit(0 if sys.exc_info()[0] is None else 77)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                todo[idx0] = (idx0, cases[:i] + cases[i + 1 :], st)
                yield (
                    1,
                    set(),
                    0,
                    0,
                    set(),
                    [
                        (
                            idx0 + i,
                            case,
                            ("death", f"the process died (status {status})", ""),
                        )
                    ],
                )
        if deaths > 25:
            raise RuntimeError("too many dead workers")


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def case_key(case):
    return json.dumps(case, sort_keys=True)


def explore(modname, tier, seed, jobs=None, only=None, max_bad=20):
    if os.environ.get("VERIF_GROUP"):
        max_bad = 10**6
    elif os.environ.get("VERIF_FF"):  # development: stop at the first violation
        max_bad = (1 + len(load_known(modname[-3:].upper()))) / 4
    import importlib

    t0 = time.time()
    warnings.simplefilter("ignore")
    mod = importlib.import_module(modname)
    cases = list(mod.cases(tier))
    # JSON normalise so that a replayed case is identical to an explored one
    cases = [json.loads(json.dumps(c)) for c in cases]
    if only:
        cases = [c for c in cases if only in case_key(c)]
    seen = {case_key(c) for c in cases}
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1
    nchunk = max(1, min(len(cases), jobs * 12))
    # interleave so that expensive neighbours are spread over the workers
    chunks = [cases[i::nchunk] for i in range(nchunk)]
    work = [(i * 1000000, ch, max_bad) for i, ch in enumerate(chunks) if ch]
    states, transitions, traces, outcomes, bad, nrun = set(), 0, 0, set(), [], 0
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    for n, st, tr, tc, oc, bd in _explore_chunks(
        work, jobs, modname, lambda: len(bad) >= max_bad * 4
    ):
        nrun += n
        states |= st
        transitions += tr
        traces += tc
        outcomes |= oc
        bad += bd
    known = {case_key(k["case"]): k for k in load_known(mod.ID)}
    bad.sort(key=lambda b: (len(case_key(b[1])), case_key(b[1])))
    new, knownhit = [], []
    for b in bad:
        k = known.get(case_key(b[1]))
        if k is not None and (not k.get("match") or k["match"] in b[2][1]):
            knownhit.append((k, b))
        else:
            new.append(b)
    wall = time.time() - t0
    samples = [cases[0], cases[len(cases) // 2], cases[-1]] if cases else []
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "evaluations": nrun,
            "distinct_nontrivial": len(states),
            "rule": mod.BOUNDS,
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "distinct_cases": len(seen),
            "distinct_outcomes": len(outcomes),
            "exhaustive": nrun == len(cases) and not only,
            "samples": samples,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k, b in knownhit:
        print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    print(
        f"{mod.ID} [{tier}] cases={nrun}/{len(cases)} states={len(states)} "
        f"transitions={transitions} traces={traces} outcomes={len(outcomes)} "
        f"wall={wall:.1f}s new_violations={len(new)}"
    )
    if nrun == 0:
        print("no case explored", file=sys.stderr)
        return 2
    if new and os.environ.get("VERIF_GROUP"):
        import collections
        import re

        grp = collections.defaultdict(list)
        for b in new:
            grp[re.sub(r"[\d.]+", "#", b[2][1].split("]: ")[-1])[:100]].append(b)
        for k, v in sorted(grp.items(), key=lambda kv: -len(kv[1]))[:14]:
            print(f"[{len(v)}] {v[0][2][1][:300]}\n      {case_key(v[0][1])[:400]}")
            if os.environ["VERIF_GROUP"] == "2":
                print(v[0][2][2])
        return 1
    if new:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (idx, case, v) in enumerate(new[:5]):
            h = hashlib.sha1(case_key(case).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{mod.ID}-{h}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": mod.ID,
                        "case": case,
                        "kind": v[0],
                        "message": v[1],
                        "traceback": v[2],
                        "replay_cmd": f"bash {VERIF}/run.sh {mod.ID} --replay {path}",
                    },
                    f,
                    indent=1,
                )
            print(f"  case {case_key(case)[:300]}\n  {v[0]}: {v[1][:600]}")
            if i == 0 or v[0] != "x":
                print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    return 0


def replay(modname, path):
    with open(path) as f:
        rec = json.load(f)
    out = sys.stdout
    _init_worker(modname)
    sys.stdout = out
    v = _one(rec["case"], Ctx())
    v2 = _one(rec["case"], Ctx())
    print("case:", case_key(rec["case"]))
    if v is None:
        print("replay: property holds on this case")
        return 0
    if v2 is None or v2[1] != v[1]:
        print("replay: WARNING, two replays differ")
    print(v[0], v[1])
    print(v[2])
    print(f"VIOLATION property={_MOD.ID} replay={path}")
    return 1
