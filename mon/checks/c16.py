"""C16: concurrent use gives every thread its own correct result."""
import hashlib
import random
import sys
import threading

import util
import work

PROPERTY = "C16"
RULE = (
    "2 to 4 real threads run operations of mon/work.py on separate objects, look-alikes or the very same shared objects. (a) Controlled: a scheduler driven by trace events in the SDK's "
    "own frames (lines, or single bytecodes) lets exactly one thread run and hands over at chosen points (uniformly random, a few pre-emption points, or round robin); "
    "(b) free-running with a 1 microsecond switch interval. Every outcome must equal the one the same operation has alone in a fresh process. Each case runs in its own forked process, "
    "so first-use initialisation is part of every schedule. An execution is one schedule; distinct by the sequence of (thread, file, line) at which control was handed over; non-trivial: at least one hand-over."
)
ASSUMPTIONS = ["pre-emption inside C code and third-party modules (parsimonious, json) is only reached by the free-running part", "CPython with a global interpreter lock"]
BUDGET = {"quick": 4000, "thorough": 60000}
FLOOR = {"evaluations": 600, "distinct": 400, "switches": 5000, "results_compared": 4000, "free_runs": 60}
CASE_LIMIT_S = 90


class Scheduler:
    def __init__(self, n, seed, policy, opcodes):
        self.r = random.Random(seed)
        self.n = n
        self.policy = policy
        self.opcodes = opcodes
        self.gate = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.running = None
        self.events = 0
        self.free = False
        self.trail = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.points = sorted(int(2 ** self.r.uniform(0, policy[1])) for _ in range(policy[2])) if policy[0] == "points" else None

    def wants_switch(self):
        p = self.policy
        if p[0] == "random":
            return self.r.random() < p[1]
        if p[0] == "robin":
            return self.events % p[1] == 0
        if self.points and self.events >= self.points[0]:
            self.points.pop(0)
            return True
        return False

    def wait(self, me):
        seen = self.events
        while not self.gate[me].acquire(timeout=1.0):
            if self.free:
                return
            if self.events == seen:  # the thread in control waits for something a stopped thread holds
                self.free = True
                for g in self.gate:
                    g.release()
                return
            seen = self.events

    def hand_over(self, me, frame):
        others = sorted(self.alive - {me})
        if not others:
            return
        to = self.r.choice(others)
        self.switches += 1
        self.trail.update(("%d>%d %s:%d;" % (me, to, frame.f_code.co_name, frame.f_lineno or 0)).encode())
        self.running = to
        self.gate[to].release()
        self.wait(me)

    def point(self, me, frame):
        if self.free or self.running != me:
            return
        self.events += 1
        if self.wants_switch():
            self.hand_over(me, frame)

    def tracer(self, me):
        kinds = ("opcode",) if self.opcodes else ("line",)

        def local(frame, event, arg):
            if event in kinds:
                self.point(me, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(util.SDK):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def finish(self, me):
        self.alive.discard(me)
        if self.alive and not self.free:
            to = self.r.choice(sorted(self.alive))
            self.running = to
            self.gate[to].release()


def prepare(plan, shared):
    """-> per thread list of (index, thunk)"""
    pool = {}
    jobs = []
    for mine in plan:
        out = []
        for idx, op in mine:
            if idx in shared:
                if idx not in pool:
                    try:
                        pool[idx] = op.build()
                    except Exception as e:
                        pool[idx] = e
                inp = pool[idx]
                if isinstance(inp, Exception):
                    out.append((idx, op.full))
                else:
                    out.append((idx, lambda op=op, inp=inp: util.outcome(op.run, inp)))
            else:
                out.append((idx, op.full))
        jobs.append(out)
    return jobs


def controlled(plan, shared, seed, policy, opcodes):
    jobs = prepare(plan, shared)
    s = Scheduler(len(jobs), seed, policy, opcodes)
    results = [[] for _ in jobs]

    def body(me):
        s.wait(me)
        sys.settrace(s.tracer(me))
        try:
            for idx, job in jobs[me]:
                results[me].append((idx, job()))
        finally:
            sys.settrace(None)
            s.finish(me)

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    first = s.r.randrange(len(jobs))
    s.running = first
    s.gate[first].release()
    for t in threads:
        t.join(60)
    stuck = any(t.is_alive() for t in threads)
    return results, stuck, dict(events=s.events, switches=s.switches, trail=s.trail.hexdigest(), free=s.free)


def free_running(plan, shared, seed, repeat):
    jobs = prepare(plan, shared)
    sys.setswitchinterval(1e-6)
    barrier = threading.Barrier(len(jobs))
    results = [[] for _ in jobs]

    def body(me):
        r = random.Random("%s%s" % (seed, me))
        todo = list(jobs[me]) * repeat
        r.shuffle(todo)
        barrier.wait()
        for idx, job in todo:
            results[me].append((idx, job()))

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
    return results, any(t.is_alive() for t in threads), dict(events=0, switches=0, trail="", free=True)


def case(ctx):
    r = ctx.rng
    nthreads = r.choice([2, 2, 2, 3, 4])
    ops = []
    theme = r.choice([None, None, "query", "query", "metrics", "mql", "legacy", "request"])
    while len(ops) < r.choice([2, 3, 5]):
        op = work.draw(r, theme if r.random() < 0.7 else None)
        ops.append(op)
        if r.random() < 0.5:
            ops.append(work.sibling(op, r))
    refs = [util.in_fork(o.full) for o in ops]
    mode = "free" if r.random() < 0.12 else "controlled"
    plan = []
    for _ in range(nthreads):
        mine = [(i, ops[i]) for i in r.choices(range(len(ops)), k=r.choice([1, 1, 2, 3]))]
        plan.append(mine)
    shared = {i for i in range(len(ops)) if r.random() < 0.4}
    seed = r.random()
    if mode == "free":
        if nthreads < 4:
            plan = plan * 2
        results, stuck, info = util.in_fork(free_running, plan, shared, seed, r.choice([10, 30]))
        ctx.saw("free_runs")
    else:
        policy = r.choice([("random", 0.5), ("random", 0.1), ("random", 0.01), ("robin", 1), ("robin", 7), ("points", 9, 1), ("points", 9, 2), ("points", 10, 3), ("points", 11, 6)])
        results, stuck, info = util.in_fork(controlled, plan, shared, seed, policy, r.random() < 0.25)
        ctx.saw("switches", info["switches"])
        ctx.saw("trace_events", info["events"])
        ctx.saw("released" if info["free"] else "scheduled")
        if info["switches"]:
            ctx.distinct(info["trail"] + "|" + "|".join(o.label for o in ops))
    if stuck:
        ctx.violation("threads did not finish", ops=ops, shared=sorted(shared), mode=mode)
        return
    for t, mine in enumerate(results):
        for idx, res in mine:
            ctx.saw("results_compared")
            if res != refs[idx]:
                ctx.violation("%s gives another result next to other threads" % ops[idx].label, op=ops[idx], alone=refs[idx], concurrent=res, mode=mode, shared=idx in shared,
                              others=[o.label for o in ops])
                return
        if len(mine) < len(plan[t]):
            ctx.violation("a thread died", ops=ops)
            return
    if r.random() < 0.01:
        ctx.sample("%s %s threads=%d %s" % (mode, info, nthreads, [o.label for o in ops]))
