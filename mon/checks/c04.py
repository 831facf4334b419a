"""C04: rendering, validating, converting and building never modify their inputs."""
import dataclasses

import snuba_sdk as S
import util
import work

PROPERTY = "C04"
RULE = (
    "Operations of the catalogue in mon/work.py (render, validate, compare, copy, set, search, convert, parse, fold, build from shared parts; valid and invalid inputs). "
    "Every input is snapshotted field by field (container kinds, literal types, order) before, between and after two runs of the operation and, for half of the cases, "
    "other operations on the same objects; the snapshots must be identical and the two outcomes equal. Every field of every reachable object of an immutable class is "
    "assigned and deleted, which must fail and change nothing. Distinct by (operation, outcome, input); non-trivial: all."
)
ASSUMPTIONS = ["attributes whose name starts with an underscore are not part of an object's observable content", "error messages are not compared, error classes are"]
BUDGET = {"quick": 80000, "thorough": 800000}
FLOOR = {"evaluations": 6000, "distinct": 5000, "snapshots": 20000, "failed_ops": 500, "assignments_refused": 5000}

FROZEN = (
    S.Query, S.Column, S.CurriedFunction, S.Function, S.Identifier, S.Lambda, S.AliasedExpression, S.Condition, S.BooleanCondition, S.And, S.Or, S.OrderBy, S.LimitBy,
    S.Limit, S.Offset, S.Granularity, S.Totals, S.Extrapolate, S.Entity, S.Storage, S.Relationship, S.Join, S.DeleteQuery, S.Formula, S.Metric, S.Rollup,
)


def reach(x, seen, out, depth=0):
    if len(out) > 40 or id(x) in seen or depth > 30:
        return
    if isinstance(x, (list, tuple, set, frozenset)):
        seen.add(id(x))
        for y in x:
            reach(y, seen, out, depth + 1)
    elif isinstance(x, dict):
        seen.add(id(x))
        for y in x.values():
            reach(y, seen, out, depth + 1)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        seen.add(id(x))
        if type(x) in FROZEN:
            out.append(x)
        for f in dataclasses.fields(x):
            reach(getattr(x, f.name), seen, out, depth + 1)


def assigned(ctx, obj):
    """-> description of a field that could be altered, or None"""
    for f in dataclasses.fields(obj):
        if f.name.startswith("_"):
            continue
        before = util.freeze(obj)
        for what in ("set", "delete"):
            try:
                if what == "set":
                    setattr(obj, f.name, ctx.rng.choice([None, 5, "x", getattr(obj, f.name)]))
                else:
                    delattr(obj, f.name)
            except Exception:
                ctx.saw("assignments_refused")
            else:
                if what == "delete":
                    return "%s.%s could be deleted" % (type(obj).__name__, f.name)
                return "%s.%s could be assigned" % (type(obj).__name__, f.name)
            if util.freeze(obj) != before:
                return "%s.%s changed although the assignment failed" % (type(obj).__name__, f.name)
    return None


def changed(a, b, path=""):
    """where two snapshots differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return changed(x, y, "%s/%s" % (path, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
    return "%s: %.300r -> %.300r" % (path, a, b)


def case(ctx):
    r = ctx.rng
    op = work.draw(r)
    if r.random() < 0.1:
        op = work.sibling(op, r)
    try:
        inputs = op.build()
    except Exception:
        ctx.saw("unbuildable")
        return
    snap = util.freeze(inputs)
    steps = [op, op]
    if r.random() < 0.5 and op.kind in ("query", "metrics", "request", "delete"):
        hows = {"query": work.QUERY_HOW, "metrics": work.METRICS_HOW, "request": ["to_dict", "print", "str", "serialize"], "delete": ["serialize", "validate", "request"]}[op.kind]
        for _ in range(r.choice([1, 2, 4])):
            h = r.choice(hows)
            if h != "eq":
                steps.insert(1, work.Op(op.kind, op.data, h))
    first = None
    for i, o in enumerate(steps):
        res = util.outcome(o.run, inputs)
        ctx.saw("snapshots")
        now = util.freeze(inputs)
        if now != snap:
            ctx.violation("%s modified its input" % o.label, where=changed(snap, now), op=op, outcome=res[0])
            return
        if res[0] == "error":
            ctx.saw("failed_ops")
        if i == 0:
            first = res
    if res != first:
        ctx.violation("%s gave another result when repeated" % op.label, first=first, again=res, op=op)
        return
    ctx.saw("op " + op.label)
    if r.random() < 0.3:
        objs = []
        reach(inputs, set(), objs)
        for o in r.sample(objs, min(6, len(objs))):
            why = assigned(ctx, o)
            if why:
                ctx.violation(why, op=op)
                return
    ctx.distinct("%s %s %r" % (op.label, first[0], op.data))
    if r.random() < 0.01:
        ctx.sample(repr(op))
