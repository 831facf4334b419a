"""C05: results do not depend on what the process did before."""
import dataclasses
import os
import pickle
import subprocess
import sys
import tempfile

import core
import harvest
import spec
import util
import work

PROPERTY = "C05"
RULE = (
    "Per case: target operations from mon/work.py and look-alikes of them (1/True/1.0, other aliases, list/tuple, equal instants in other zones, other operation on the same input). "
    "The reference outcome of each target is computed in a process forked from a worker that has run nothing else. A second forked process runs a history of other operations, "
    "look-alikes, failing operations, operations cut off by an exception (Exception or BaseException) raised at a random line of the real code, scribbles on the results they "
    "returned and bursts of up to 600 equal or similar operations; in a third of the histories equal parts are the very same objects; then it runs the targets in random order, with more history in between, and each outcome must equal its reference. At the end each worker re-runs a sample of "
    "targets in a fresh interpreter with another hash seed. Distinct by (target, outcome); an execution is one history."
)
ASSUMPTIONS = [
    "a process forked from one that has only imported the SDK stands for a fresh process",
    "outcome: result compared field by field, or the class of the error",
]
BUDGET = {"quick": 5000, "thorough": 60000}
FLOOR = {"evaluations": 600, "targets_compared": 4000, "interrupted": 1500, "failing_history_ops": 500, "distinct": 3000, "other_hash_seed": 100}


def scribble(x, r, depth=0):
    """alter an object the SDK handed out, as its owner may"""
    if depth > 4:
        return
    try:
        if isinstance(x, list):
            for y in x:
                scribble(y, r, depth + 1)
            r.choice([x.clear, lambda: x.append(5), x.reverse])()
        elif isinstance(x, dict):
            for y in list(x.values()):
                scribble(y, r, depth + 1)
            r.choice([x.clear, lambda: x.update(zz=1)])()
        elif isinstance(x, tuple):
            for y in x:
                scribble(y, r, depth + 1)
        elif dataclasses.is_dataclass(x) and not isinstance(x, type):
            for f in dataclasses.fields(x):
                scribble(getattr(x, f.name), r, depth + 1)
                if r.random() < 0.5:
                    try:
                        setattr(x, f.name, r.choice([None, True, False, 5, "zz"]))
                    except Exception:
                        pass
    except Exception:
        pass


def history_step(op, how, r, counts):
    if how == "cut":
        at = int(2 ** r.uniform(0, 9.5))
        if util.interrupted(lambda: op.run(op.build()), at, r.choice([util.Interrupt, util.HardInterrupt])):
            counts["interrupted"] += 1
        else:
            counts["ran_through"] += 1
        return
    try:
        inputs = op.build()
        res = op.run(inputs)
        counts["history_ops"] += 1
    except Exception:
        counts["failing_history_ops"] += 1
        return
    if how == "scribble":
        scribble(res, r)
        scribble(inputs, r)
        counts["scribbled"] += 1


def live(script, seed, share):
    import random

    r = random.Random(seed)
    counts = dict(interrupted=0, ran_through=0, history_ops=0, failing_history_ops=0, scribbled=0, bursts=0)
    out = []
    spec.SHARE = {} if share else None
    for what, op, how in script:
        if what == "history":
            history_step(op, how, r, counts)
        elif what == "burst":
            for i in range(how[0]):
                o = op if how[1] == "same" else work.sibling(op, r) if how[1] == "vary" else work.draw(r, op.kind)
                history_step(o, "run", r, counts)
            counts["bursts"] += 1
        else:
            out.append((how, op.full()))
    return out, counts


def case(ctx):
    r = ctx.rng
    n = r.choice([3, 6, 10])
    targets = []
    while len(targets) < n:
        t = work.draw(r)
        targets.append(t)
        for _ in range(r.choice([0, 1, 2])):
            targets.append(work.sibling(t, r))
    refs = [util.in_fork(t.full) for t in targets]
    script = []
    share = r.random() < 0.35  # equal parts are the same objects; then nobody writes to them

    def steps(k):
        for _ in range(k):
            x = r.random()
            t = r.choice(targets)
            op = t if x < 0.3 else work.sibling(t, r) if x < 0.65 else work.draw(r)
            script.append(("history", op, r.choice(["run", "cut", "cut", "run" if share else "scribble"])))

    steps(r.choice([0, 5, 15, 30]))
    if r.random() < 0.12:
        t = r.choice(targets)
        script.append(("burst", t if r.random() < 0.6 else work.sibling(t, r), (harvest.big(r, 600), r.choice(["same", "vary", "draw"]))))
    order = list(range(len(targets))) * r.choice([1, 2])
    r.shuffle(order)
    for i in order:
        steps(r.choice([0, 0, 1, 3]))
        script.append(("target", targets[i], i))
    got, counts = util.in_fork(live, script, r.random(), share)
    for k, v in counts.items():
        ctx.saw(k, v)
    ctx.saw("histories_with_shared_objects", int(share))
    for i, res in got:
        ctx.saw("targets_compared")
        if res != refs[i]:
            ctx.violation("%s gives another result after other operations" % targets[i].label, target=targets[i], fresh=refs[i], later=res)
            return
        ctx.distinct("%s %r" % (targets[i].label, targets[i].data))
    bag = ctx.__dict__.setdefault("bag", [])
    if len(bag) < 150:
        bag += list(zip(targets, refs))[:6]
    if r.random() < 0.01:
        ctx.sample("history of %d steps, target %r" % (len(script), targets[0]))


def end(ctx):
    bag = ctx.__dict__.get("bag", [])
    if not bag or ctx.violations:
        return
    with tempfile.TemporaryDirectory(dir=os.environ.get("VMON_WORK")) as d:
        src, dst = os.path.join(d, "in"), os.path.join(d, "out")
        with open(src, "wb") as f:
            pickle.dump([t for t, _ in bag], f)
        code = (
            "import sys, pickle; sys.path[:0] = %r\n"
            "import work\n"
            "ops = pickle.load(open(%r, 'rb'))\n"
            "pickle.dump([o.full() for o in ops], open(%r, 'wb'))\n" % ([os.path.join(core.VERIF, "mon"), core.REPO], src, dst)
        )
        env = dict(os.environ, PYTHONHASHSEED=str(1 + ctx.seed % 1000 + len(bag)))
        p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=200)
        if p.returncode:
            ctx.errors.append("fresh interpreter failed: " + p.stderr[-1500:])
            return
        with open(dst, "rb") as f:
            got = pickle.load(f)
    ctx.case_id = "hash-seed"
    for (t, ref), res in zip(bag, got):
        ctx.saw("other_hash_seed")
        if res != ref:
            ctx.violation("%s gives another result in a fresh interpreter with another hash seed" % t.label, target=t, here=ref, there=res)
            return
