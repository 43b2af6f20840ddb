"""
Explorer core: deterministic case enumeration, worker pool, counters, replay files

A check is a module with

    LEVEL        'model_checking' or 'exploration'
    RULE         text: how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of texts
    cases(tier)  -> list of JSON-able case descriptions (the bounded space, partitioned)
    run(case, ctx)  explores everything inside the case; ctx.fail(...) on a violation

Nothing here is random.  Every case is self-contained so that a replay file only has to
name the case (and the failing point inside it is described in the violation itself).
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(ROOT, "evidence"))
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")
CASE_TIMEOUT = 300
MAX_SAMPLES = 6


class Violation(Exception):
    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = detail or {}


class CaseTimeout(Exception):
    pass


def jsonable(x):
    import numpy as np

    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    return repr(x)


def h64(key):
    if not isinstance(key, (bytes, bytearray)):
        key = repr(key).encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "little")


class Ctx:
    """Counters for one worker (merged by the parent)"""

    def __init__(self, tier):
        self.tier = tier
        self.quick = tier == "quick"
        self.evaluations = 0
        self.distinct = set()
        self.distinct_bulk = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}

    # exploration counters
    def ev(self, n=1):
        self.evaluations += n

    def seen(self, key):
        self.distinct.add(h64(key))

    def bulk(self, n):
        """n cases known to be pairwise distinct and distinct from all other cases"""
        self.distinct_bulk += int(n)

    # model checking counters
    def state(self, key):
        k = h64(key)
        new = k not in self.states
        self.states.add(k)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, message, **detail):
        raise Violation(message, jsonable(detail))

    def check(self, cond, message, **detail):
        if not cond:
            self.fail(message, **detail)


def _alarm(signum, frame):
    raise CaseTimeout(f"case did not finish within {CASE_TIMEOUT} s")


def import_impl():
    """Import the code under test and make sure it is /repo's working tree"""
    import mpllayout.layout  # noqa
    import mpllayout

    where = os.path.realpath(mpllayout.layout.__file__)
    src = os.path.realpath(os.environ.get("MC_SRC", "/repo/src"))
    if not where.startswith(src + "/"):
        raise SystemExit(f"mpllayout imported from {where}, not from {src}")


def run_case(module, case, ctx):
    """Run one case; return None or a violation dictionary"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        module.run(case, ctx)
        return None
    except Violation as exc:
        return {"case": case, "message": exc.message, "detail": exc.detail}
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as exc:  # the code under test raised on a valid input
        return {
            "case": case,
            "message": f"unexpected {type(exc).__name__}: {exc}"[:800],
            "detail": {"traceback": traceback.format_exc()[-4000:]},
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(modname, tier, tasks, results):
    try:
        import_impl()
        module = importlib.import_module(modname)
        ctx = Ctx(tier)
        cases = module.cases(tier)
        while True:
            idx = tasks.get()
            if idx is None:
                break
            viol = run_case(module, cases[idx], ctx)
            results.put(("case", idx, viol))
        results.put(("done", os.getpid(), ctx.__dict__))
    except BaseException:
        results.put(("error", os.getpid(), traceback.format_exc()))


def run_parallel(modname, tier, ncases, nproc, known=()):
    """Run all cases; return (merged ctx, violations)"""
    mpctx = mp.get_context("spawn")
    tasks, results = mpctx.Queue(), mpctx.Queue()
    nproc = max(1, min(nproc, ncases))
    for i in range(ncases):
        tasks.put(i)
    for _ in range(nproc):
        tasks.put(None)
    tasks.cancel_join_thread()
    procs = [
        mpctx.Process(target=_worker, args=(modname, tier, tasks, results), daemon=True)
        for _ in range(nproc)
    ]
    for p in procs:
        p.start()

    total = Ctx(tier)
    violations, ndone, ncase = [], 0, 0
    while ndone < nproc:
        try:
            kind, a, b = results.get(timeout=5)
        except queue.Empty:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead and results.empty():
                raise RuntimeError(f"worker died with exit code {dead[0].exitcode}")
            continue
        if kind == "error":
            raise RuntimeError(f"worker failed\n{b}")
        if kind == "case":
            ncase += 1
            if b is not None:
                violations.append((a, b))
                if b["detail"].get("sig") not in known:
                    break
        else:
            ndone += 1
            total.evaluations += b["evaluations"]
            total.distinct |= b["distinct"]
            total.distinct_bulk += b["distinct_bulk"]
            total.states |= b["states"]
            total.transitions += b["transitions"]
            total.traces += b["traces"]
            total.samples += b["samples"]
            for k, v in b["extra"].items():
                total.extra[k] = total.extra.get(k, 0) + v
    for p in procs:
        if p.is_alive() and violations:
            p.terminate()
    for p in procs:
        p.join(10)
    violations.sort(key=lambda v: v[0])
    if not violations and ncase != ncases:
        raise RuntimeError(f"only {ncase} of {ncases} cases ran")
    return total, [v for _, v in violations], ncase


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                sig = line.split("sig=", 1)[1].split(" ", 1)
                out.append((sig[0], sig[1] if len(sig) > 1 else ""))
    return out


def write_replay(prop, viol, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    name = f"{prop}-{h64(json.dumps(jsonable(viol), sort_keys=True)):016x}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "replay_cmd": f"bash /verif/run.sh --replay {path}",
                **jsonable(viol),
            },
            f,
            indent=1,
        )
    return path
