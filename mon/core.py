"""Runner, verdicts and evidence for the runtime monitors.

A check module (mon/checks/cNN.py) defines

    PROPERTY, RULE, ASSUMPTIONS
    BUDGET = {"quick": cases, "thorough": cases}   total over all workers
    FLOOR  = {"counter": minimum, ...}             below it the run is inconclusive
    def case(ctx): ...                             one execution under observation

`case` draws everything from ctx.rng, drives the real code and reports what its
monitors saw through ctx: ctx.saw(counter), ctx.distinct(key), ctx.sample(text),
ctx.violation(what, detail).  The verdict is three-valued: 0 held, 1 violated,
2 inconclusive (monitors saw too little, a worker died, or the watchdog fired).
"""
from __future__ import annotations

import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SDK = "/repo/snuba_sdk/"
EVIDENCE = os.path.join(VERIF, "evidence")
MAX_VIOLATIONS = 5


class Abandon(Exception):
    """The case turned out to lie outside the property's domain."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, prop, seed, tier, known):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.known = known
        self.rng = random.Random(0)
        self.counters = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.evaluations = 0
        self.case_id = None
        self.errors = []
        self.hung = False

    # -- what a monitor reports ------------------------------------------------
    def saw(self, name, n=1):
        self.counters[name] += n

    def distinct(self, key):
        if not isinstance(key, (str, bytes)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode("utf-8", "surrogatepass")
        self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(str(text)[:600])

    def violation(self, what, **detail):
        entry = {
            "property": self.prop,
            "what": what,
            "case": self.case_id,
            "seed": self.seed,
            "tier": self.tier,
            "detail": {k: _short(v) for k, v in detail.items()},
        }
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append(entry)
        self.saw("violations")

    def known_finding(self, key, what):
        """A violation by a mechanism listed in known_findings.json."""
        if key in self.known:
            self.known_hits[key] = what
            self.saw("known:" + key)
            return True
        return False


def _short(v, n=4000):
    t = v if isinstance(v, str) else repr(v)
    return t if len(t) <= n else t[:n] + "...[%d chars]" % len(t)


# ------------------------------------------------------------------------------


def case_rng(seed, prop, case_id):
    h = hashlib.blake2b(
        ("%s/%s/%s" % (seed, prop, case_id)).encode(), digest_size=16
    ).digest()
    return random.Random(int.from_bytes(h, "big"))


# Nothing the SDK does may depend on the local time zone, so cases run in several.
ZONES = ["UTC0", "NPT-5:45", "UTC0", "PST8PDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]


def local_zone(n):
    os.environ["TZ"] = ZONES[n % len(ZONES)]
    time.tzset()


def in_sdk(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SDK):
            return True
        tb = tb.tb_next
    return False


def run_one(mod, ctx, case_id, limit_s, again=True):
    ctx.case_id = case_id
    local_zone(case_id if isinstance(case_id, int) else 0)
    ctx.rng = case_rng(ctx.seed, ctx.prop, case_id)
    before = len(ctx.violations)

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit_s)
    try:
        mod.case(ctx)
        ctx.evaluations += 1
    except Abandon:
        ctx.saw("abandoned")
    except CaseTimeout as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if again:  # a busy machine gets a second chance, a case that cannot end does not
            return run_one(mod, ctx, case_id, 2 * limit_s, False)
        ctx.hung = True
        if in_sdk(e) or (e.args and e.args[0]):
            ctx.violation(
                "the SDK did not finish in %s s and, again, in %s s" % (limit_s / 2, limit_s),
                traceback=(e.args[1] if e.args else "".join(traceback.format_tb(e.__traceback__)))[-2500:],
            )
        else:
            ctx.errors.append("case %s did not finish in %ss" % (case_id, limit_s))
    except Exception as e:
        if in_sdk(e):  # the real code failed on an input for which it has to work
            ctx.violation(
                "the SDK raised %s on a legal input" % type(e).__name__,
                error=str(e),
                traceback=traceback.format_exc()[-2500:],
            )
        elif isinstance(e, (OSError, MemoryError, RecursionError)):
            ctx.errors.append("case %s: %s" % (case_id, traceback.format_exc()[-1500:]))
        elif again:  # the monitor stumbled over something the SDK returned: once more, to be sure
            signal.setitimer(signal.ITIMER_REAL, 0)
            return run_one(mod, ctx, case_id, limit_s, False)
        else:
            ctx.violation("the SDK returned something of the wrong kind", error=repr(e)[:500], traceback=traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return len(ctx.violations) > before


def worker(modname, prop, seed, tier, known, ids, deadline, limit_s, out):
    try:
        import importlib

        mod = importlib.import_module(modname)
        ctx = Ctx(prop, seed, tier, known)
        if hasattr(mod, "begin"):
            mod.begin(ctx)
        for i in ids:
            if time.monotonic() > deadline:
                ctx.saw("cut_short")
                break
            run_one(mod, ctx, i, limit_s)
            if len(ctx.violations) >= MAX_VIOLATIONS or len(ctx.errors) > 5 or ctx.hung:
                break
        if hasattr(mod, "end") and not ctx.hung:
            mod.end(ctx)
        out.put(
            dict(
                counters=dict(ctx.counters),
                keys=ctx.keys,
                samples=ctx.samples,
                violations=ctx.violations,
                known_hits=ctx.known_hits,
                evaluations=ctx.evaluations,
                errors=ctx.errors,
            )
        )
    except BaseException:
        out.put({"crash": traceback.format_exc()[-3000:]})


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {k["key"]: k for k in data["findings"] if k["property"] == prop}


def main(argv):
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    modname = "checks." + prop.lower()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, REPO)
    import snuba_sdk

    if not os.path.realpath(snuba_sdk.__file__).startswith(REPO + "/"):
        print("snuba_sdk does not come from /repo:", snuba_sdk.__file__)
        return 2
    import importlib

    mod = importlib.import_module(modname)
    known = load_known(prop)
    limit_s = getattr(mod, "CASE_LIMIT_S", 60)

    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2]) as f:
            rep = json.load(f)
        ctx = Ctx(prop, rep["seed"], rep["tier"], known)
        if hasattr(mod, "begin"):
            mod.begin(ctx)
        if rep["case"] == "known":
            ctx.case_id = "known"
            mod.known_inputs(ctx)
        else:
            run_one(mod, ctx, rep["case"], limit_s)
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
        for e in ctx.errors:
            print(e)
        print("replay: %d violation(s)" % len(ctx.violations))
        return 1 if ctx.violations else 0

    start = time.monotonic()
    # VMON_SCALE, VMON_PROCS: for tools/mutate only
    total = max(8, int(mod.BUDGET[tier] * float(os.environ.get("VMON_SCALE", "1"))))
    cap = getattr(mod, "TIME_CAP_S", {"quick": 300, "thorough": 660})[tier]
    deadline = start + cap
    nproc = max(1, min(8, os.cpu_count() or 1, int(os.environ.get("VMON_PROCS", "8"))))
    mpc = mp.get_context("fork")
    out = mpc.SimpleQueue()
    procs = []
    for w in range(nproc):
        ids = range(w, total, nproc)
        p = mpc.Process(
            target=worker,
            args=(modname, prop, seed, tier, known, ids, deadline, limit_s, out),
        )
        p.start()
        procs.append(p)
    results, dead = [], 0
    hard = deadline + 3 * limit_s + 30
    pending = set(range(nproc))
    while len(results) < nproc:
        if not out.empty():
            results.append(out.get())
            continue
        alive = [p for p in procs if p.is_alive()]
        if not alive and out.empty():
            dead = nproc - len(results)
            break
        if time.monotonic() > hard:
            for p in alive:
                p.kill()
            dead = nproc - len(results)
            break
        time.sleep(0.02)
    for p in procs:
        p.join(5)

    counters = collections.Counter()
    keys, samples, violations, errors, known_hits, evals = set(), [], [], [], {}, 0
    for r in results:
        if "crash" in r:
            errors.append(r["crash"])
            continue
        counters.update(r["counters"])
        keys |= r["keys"]
        samples += r["samples"]
        violations += r["violations"]
        errors += r["errors"]
        known_hits.update(r["known_hits"])
        evals += r["evaluations"]
    if dead:
        errors.append("%d worker process(es) died or were stopped" % dead)
    if hasattr(mod, "known_inputs"):  # the inputs of the listed findings, on every run
        ctx = Ctx(prop, seed, tier, known)
        ctx.case_id = "known"
        try:
            mod.known_inputs(ctx)
        except Exception:
            errors.append(traceback.format_exc()[-3000:])
        violations += ctx.violations
        known_hits.update(ctx.known_hits)
    violations.sort(key=lambda v: (len(json.dumps(v["detail"])), str(v["case"])))

    wall = time.monotonic() - start
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:6] or ["(none)"],
            "observed": {k: v for k, v in sorted(counters.items())},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k, what in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k]["what"], what))
    print(
        "%s %s seed=%d: %d executions, %d distinct, %.1fs; observed %s"
        % (prop, tier, seed, evals, len(keys), wall,
           ", ".join("%s=%d" % kv for kv in sorted(counters.items())))
    )
    if violations:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(violations[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("--- %s\n%s" % (v["what"], json.dumps(v["detail"], indent=1)[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("INCONCLUSIVE: %d error(s)" % len(errors))
        for e in errors[:3]:
            print(e)
        return 2
    for name, least in mod.FLOOR.items():
        got = {"evaluations": evals, "distinct": len(keys)}.get(name, counters[name])
        if got < least:
            print("INCONCLUSIVE: monitor %r saw %d, needs %d" % (name, got, least))
            return 2
    return 0
