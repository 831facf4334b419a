"""C15: a delete request is never unbounded and deletes exactly what was asked."""
import collections
import copy
import json

import snuba_sdk as S
import spec
import util
from snuba_sdk.delete_query import InvalidDeleteQueryError

PROPERTY = "C15"
RULE = (
    "Condition dictionaries with 0 to 40 columns and value lists of 0 to 300 strings and integers (falsy, equal-but-different, hostile "
    "values; now and then tuples, which need not be accepted but if they are then under the same rule), with empty lists at any positions; a history of edits (lists emptied, refilled, columns removed or added) runs "
    "between renderings of the same query object. Monitor after every step: validate, serialize, request to_dict, serialize and print "
    "succeed exactly if there is a condition and no list is empty, with the delete error otherwise, and the payload has exactly the "
    "given columns and values in order and type. Distinct by (number of columns, positions of empty lists, step); non-trivial: all."
)
ASSUMPTIONS = ["value lists are lists of str and int, as declared"]
BUDGET = {"quick": 90000, "thorough": 1500000}
FLOOR = {"evaluations": 8000, "accepted": 8000, "rejected": 5000, "distinct": 800}


def value(r, g):
    return r.choice([0, 1, -1, "", "0", "x", True if r.random() < 0.02 else 7, g.integer(), g.string()])


def values(r, g, empty):
    if empty:
        return () if r.random() < 0.15 else []
    n = r.choice([1, 1, 2, 3, 10]) if r.random() < 0.97 else r.choice([100, 300])
    vs = [value(r, g) for _ in range(n)]
    return tuple(vs) if r.random() < 0.05 else vs


def same(a, b):
    if isinstance(a, dict):
        a = {k: list(v) if isinstance(v, tuple) else v for k, v in a.items()}
    b = {k: list(v) if isinstance(v, tuple) else v for k, v in b.items()}
    return util.unset_dicts(util.freeze(a)) == util.unset_dicts(util.freeze(b))


def observe(ctx, q, given, step, where):
    legal = len(given) > 0 and all(len(v) > 0 for v in given.values())
    tuples = any(not isinstance(v, list) for v in given.values())  # not declared, so may be refused; but never unbounded
    req = S.Request("ds", "app", q, tenant_ids={"a": 1})
    calls = {
        "validate": lambda: q.validate(),
        "serialize": lambda: q.serialize(),
        "request.to_dict": lambda: req.to_dict()["query"],
        "request.serialize": lambda: json.loads(req.serialize())["query"],
        "request.print": lambda: json.loads(req.print())["query"],
        "str(request)": lambda: json.loads(str(req))["query"],
        "request.validate": lambda: req.validate(),
    }
    names = list(calls)
    ctx.rng.shuffle(names)
    for n in names:
        try:
            out = calls[n]()
        except InvalidDeleteQueryError:
            if legal and not tuples:
                ctx.violation("%s refused a bounded delete" % n, conditions=given, step=step)
                return False
            continue
        if not legal:
            ctx.violation("%s accepted an unbounded delete" % n, conditions=given, step=step, out=out)
            return False
        if n.endswith("validate"):
            continue
        if not isinstance(out, dict) or set(out) != {"columns"} or not same(out["columns"], given):
            ctx.violation("%s deletes something else" % n, conditions=given, payload=out, step=step)
            return False
        if list(out["columns"]) != list(given) and n == "serialize":
            pass
    for how, fn in (("print", q.print), ("repr", q.__repr__), ("str", q.__str__)):  # legal or not: shows what it is
        out = fn()
        if not isinstance(out, str) or repr(q.storage_name) not in out or repr(q.column_conditions) not in out:
            ctx.violation("%s of a delete query does not show its storage and conditions" % how, conditions=given, out=out)
            return False
    ctx.saw("accepted" if legal else "rejected")
    empties = tuple(i for i, v in enumerate(given.values()) if not v)
    ctx.distinct("%d %s %s %s" % (len(given), empties[:4], min(step, 3), where))
    return True


def case(ctx):
    r = ctx.rng
    g = spec.Gen(r)
    p_empty = r.choice([0, 0, 0.1, 0.5, 1])
    n = r.choice([0, 1, 1, 2, 3, 6, 40])
    conditions = r.choice([dict, dict, dict, collections.OrderedDict])()
    for i in range(n):
        conditions[r.choice(["id", "status", "project_id", "é", "", "c%d" % i, g.string()])] = values(r, g, r.random() < p_empty)
    q = S.DeleteQuery(r.choice(["events", "search_issues", "x"]), conditions)
    if r.random() < 0.2:
        q = copy.copy(q)
    if not observe(ctx, q, copy.deepcopy(conditions), 0, "new"):
        return
    repr(q), q.print()
    for step in range(1, r.choice([1, 1, 3, 6])):
        what = r.choice(["empty", "fill", "remove", "add", "clear", "same"])
        keys = list(conditions)
        if what == "empty" and keys:
            k = r.choice(keys)
            if isinstance(conditions[k], list):
                conditions[k].clear()
            else:
                conditions[k] = ()
        elif what == "fill" and keys:
            for k in keys:
                if not conditions[k]:
                    conditions[k] = conditions[k] + type(conditions[k])([value(r, g)])
        elif what == "remove" and keys:
            del conditions[r.choice(keys)]
        elif what == "add":
            conditions["n%d" % step] = values(r, g, r.random() < p_empty)
        elif what == "clear":
            conditions.clear()
        if not observe(ctx, q, copy.deepcopy(conditions), step, what):
            return
    ctx.sample(repr(q)[:200])
