"""C18: equality, hashing and copying respect content."""
import copy
import dataclasses
import os
import pickle
import subprocess
import sys
import tempfile
from datetime import datetime, timedelta, timezone

import snuba_sdk as S
from snuba_sdk.timeseries import Metric

import mql
import spec
import util
import work

PROPERTY = "C18"
RULE = (
    "Random objects of every public class (columns, entities, storages, functions, lambdas, conditions, joins, orderings, limits, queries, data models, metrics objects, deletes, flags, requests), built twice from the same "
    "arguments, and built with exactly one argument changed somewhere (name, alias, entity, sample, data model, operator, direction, literal, order or number of elements, a clause). Observed before and after use (repr, validate, "
    "rendering, hashing): ==, != in both directions, hash, set membership, copy, deepcopy, pickle (every protocol), dataclasses.replace, and their texts; pickles of used objects are also loaded in another process with another hash seed. "
    "Distinct by (class, kind of change, outcome) and object; non-trivial: an object with at least one argument."
)
ASSUMPTIONS = [
    "not judged: values that Python itself considers equal (1, 1.0 and True; equal instants), a list against a tuple of the same elements, And/Or against BooleanCondition, Function against CurriedFunction",
]
BUDGET = {"quick": 60000, "thorough": 500000}
FLOOR = {"evaluations": 15000, "twins": 15000, "one_change": 15000, "alias_only": 150, "copies": 15000, "hashed": 4000, "other_process": 400, "distinct": 6000}

SCOPE = {"names": None, "entities": None, "loose_entity": True}


# ---- what is built -------------------------------------------------------------------


def build(kind, d):
    if kind == "expr":
        return spec.build(d)
    if kind == "query":
        return spec.build_query(d)
    if kind == "orderby":
        return S.OrderBy(spec.build(d[0]), S.Direction[d[1]])
    if kind == "limitby":
        return S.LimitBy([spec.build(c) for c in d[0]], d[1])
    if kind in ("Limit", "Offset", "Granularity", "Totals", "Extrapolate"):
        return getattr(S, kind)(d[0])
    if kind == "relationship":
        return S.Relationship(spec.build_entity(d[0]), d[1], spec.build_entity(d[2]))
    if kind == "model":
        return spec.build_model(d)
    if kind == "metrics":
        return work.build_metrics(d, "x")[0]
    if kind == "expression":
        return mql.build(d)
    if kind == "metric":
        return Metric(d[0], d[1], d[2])
    if kind == "rollup":
        return S.Rollup(d[0], d[1], S.Direction[d[2]] if d[2] else None, d[3])
    if kind == "scope":
        return S.MetricsScope(list(d[0]), list(d[1]), d[2])
    if kind == "delete":
        return S.DeleteQuery(d[0], {k: list(v) for k, v in d[1]})
    if kind == "flags":
        return S.Flags(**dict(d))
    if kind == "request":
        return S.Request(d["dataset"], d["app_id"], build(*d["query"]), S.Flags(**dict(d["flags"])), d["parent_api"], dict(d["tenant_ids"]))
    raise AssertionError(kind)


FLAGS = ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")


def draw(r):
    g = spec.Gen(r)
    k = r.random()
    if k < 0.30:
        return "expr", r.choice([
            lambda: g.column(SCOPE), lambda: (lambda e: ("col", e[4][0][0][0] if e[4] else g.colname(), e))(g.entity(g.ident())), lambda: g.func(SCOPE, 2), lambda: g.func(SCOPE, 3), lambda: g.condition(SCOPE, 2), lambda: g.or_chain(SCOPE),
            lambda: g.entity(g.ident() if r.random() < 0.5 else None), g.storage, lambda: g.join()[0], lambda: ("ident", g.ident()), lambda: ("aliased", g.column(SCOPE), g.alias()),
            lambda: ("lambda", tuple(g.ident() for _ in range(2)), g.func(SCOPE, 1)),
        ])()
    if k < 0.55:
        return "query", g.query(r.choice([0, 0, 1, 2]))
    if k < 0.60:
        return "orderby", (g.column(SCOPE) if r.random() < 0.5 else g.func(SCOPE, 1), r.choice(["ASC", "DESC"]))
    if k < 0.63:
        return "limitby", (tuple(g.column(SCOPE) for _ in range(r.choice([1, 2, 3]))), g.limit_int())
    if k < 0.66:
        c = r.choice(["Limit", "Offset", "Granularity", "Totals", "Extrapolate"])
        return c, (r.choice([True, False]) if c in ("Totals", "Extrapolate") else g.limit_int(),)
    if k < 0.68:
        return "relationship", g.join()[0][1][0]
    if k < 0.70:
        return "model", spec.Gen(r, 1.0).model()
    if k < 0.78:
        d = work.draw_metrics(r)
        return "metrics", d
    if k < 0.86:
        return "expression", mql.MGen(r).expr()
    if k < 0.88:
        return "metric", r.choice([("x", None, None), ("x", "d:a/b@c", None), (None, "d:a/b@c", 5), ("y", "d:a/b@c", 0)])
    if k < 0.90:
        return "rollup", r.choice([(60, None, None, 60), (None, True, "ASC", 3600), (None, False, None, None), (3600, True, None, 10), (None, True, "DESC", 60)])
    if k < 0.92:
        return "scope", ((1, 2), (3,), r.choice([None, "spans"]))
    if k < 0.94:
        return "delete", (r.choice(["events", "x"]), (("id", (1, 2)), ("status", ("a",))))
    if k < 0.96:
        return "flags", tuple((f, r.choice([True, False])) for f in FLAGS if r.random() < 0.5)
    kind = r.choice(["query", "metrics", "delete"])
    q = g.query(0) if kind == "query" else work.draw_metrics(r) if kind == "metrics" else ("events", (("id", (1,)),))
    return "request", {
        "dataset": r.choice(["events", "ds"]), "app_id": "app", "query": (kind, q), "flags": (("debug", True),) if r.random() < 0.5 else (), "parent_api": r.choice(["x", "y"]),
        "tenant_ids": (("organization_id", r.choice([1, 2])),),
    }


# ---- one change ----------------------------------------------------------------------

NODES = {"lit", "list", "tuple", "col", "fn", "cfn", "ident", "lambda", "aliased", "cond", "bool", "entity", "storage", "join"}


def nodes(x, path=()):
    """all expression nodes of a description"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (k,))
    elif isinstance(x, (tuple, list)):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in NODES and len(x) > 1:
            yield path, x
        for i, v in enumerate(x):
            if isinstance(v, (tuple, list, dict)):
                yield from nodes(v, path + (i,))


def other_value(v, r):
    for _ in range(20):
        w = work.alike(v, r)
        try:
            if not (w == v) and not isinstance(w, bytes) or (isinstance(v, str) and w != v):
                return w
        except TypeError:
            return w
    return "another"


def other_model(m, r):
    if m is None:
        return ((("a", True),), ("timestamp", False))
    cols = m[0]
    k = r.random()
    if k < 0.2:
        return None
    if k < 0.4:
        return (cols + (("zz_new", False),), m[1])
    if k < 0.6:
        i = r.randrange(len(cols))
        return (cols[:i] + ((cols[i][0], not cols[i][1]),) + cols[i + 1 :], m[1])
    if k < 0.8:
        return (cols, (m[1][0] + "x", m[1][1]))
    return (cols, (m[1][0], not m[1][1]))


def strings(x):
    """the names and texts in a description, without the aliases (two curried functions may differ in one and be equal)"""
    if isinstance(x, str):
        return [x]
    if isinstance(x, tuple):
        if x and x[0] in ("fn", "cfn"):
            x = x[:-1]
        return [y for e in x for y in strings(e)]
    return []


def rearranged(xs, r):
    """the same elements in another order, or one of them once more"""
    i = r.randrange(len(xs))
    if r.random() < 0.3:
        return xs[:i] + (xs[i],) + xs[i:], "an element twice"
    others = [j for j in range(len(xs)) if strings(xs[j]) != strings(xs[i])]
    if not others:
        return None
    j = r.choice(others)
    ys = list(xs)
    ys[i], ys[j] = ys[j], ys[i]
    return tuple(ys), "elements swapped"


def other_sample(v, r):
    return r.choice([0.25, None]) if v == 0.5 else r.choice([0.5, (v or 0.1) * 2])


def renamed(n, r):
    """another name, of the same legality"""
    if r.random() < 0.4:
        i = r.randrange(len(n) or 1)
        for new in (n.swapcase(), n[:i] + n[i : i + 1].swapcase() + n[i + 1 :], n.upper()):
            if new != n and n.isascii():
                return new
    return n + r.choice(["x", "b", "X", "xx"])


def change_node(n, r, g):
    """-> (other node, kind of change) or None"""
    k = n[0]
    if k == "lit":
        return ("lit", other_value(n[1], r)), "literal"
    if k in ("list", "tuple"):
        xs = n[1]
        w = r.random()
        if len(xs) > 1 and w < 0.2:
            new = rearranged(xs, r)
            if new:
                return (k, new[0]), new[1]
        if xs and w < 0.4:
            i = r.randrange(len(xs))
            return (k, xs[:i] + xs[i + 1 :]), "element removed"
        if len(xs) > 1 and w < 0.6 and repr(xs[0]) != repr(xs[-1]) and xs[0][0] == "lit" == xs[-1][0] and not xs[0][1] == xs[-1][1]:
            return (k, xs[-1:] + xs[1:-1] + xs[:1]), "elements swapped"
        return (k, xs + (("lit", 4711),)), "element added"
    if k == "col":
        if r.random() < 0.5:
            return ("col", n[1].partition("[")[0] + "x" + (("[" + n[1].partition("[")[2]) if "[" in n[1] else ""), n[2]), "column name"
        if n[2] is None:
            return ("col", n[1], ("entity", "zz", "z", None, None)), "column entity"
        return ("col", n[1], r.choice([None, change_node(n[2], r, g)[0]])), "column entity"
    if k == "fn":
        w = r.random()
        if w < 0.3:
            return ("fn", renamed(n[1], r), n[2], n[3]), "function name"
        if w < 0.6:
            return ("fn", n[1], n[2], renamed(n[3] or "a", r)), "alias"
        return ("fn", n[1], ("list", ()) if n[2] is None else None, n[3]), "parameters"
    if k == "cfn":
        w = r.random()
        if w < 0.4:
            return n[:4] + ((n[4] or "a") + "b",), "CURRIED ALIAS"
        if w < 0.6:
            return (k, renamed(n[1], r)) + n[2:], "function name"
        if w < 0.8:
            return n[:2] + (("list", (("lit", 4711),)) if n[2] is None or n[2][1] != (("lit", 4711),) else None,) + n[3:], "initializers"
        return n[:3] + (("list", ()) if n[3] is None else None, n[4]), "parameters"
    if k == "ident":
        return ("ident", renamed(n[1], r)), "identifier"
    if k == "lambda":
        if len(set(n[1])) > 1 and r.random() < 0.4:
            new = rearranged(n[1], r)
            if new:
                return ("lambda", new[0], n[2]), "lambda identifiers: " + new[1]
        if n[1] and r.random() < 0.5:
            i = r.randrange(len(n[1]))
            return ("lambda", n[1][:i] + (renamed(n[1][i], r),) + n[1][i + 1 :], n[2]), "lambda identifier"
        return ("lambda", n[1] + ("zz",), n[2]), "lambda identifiers"
    if k == "aliased":
        return ("aliased", n[1], renamed(n[2] or "a", r)), "alias"
    if k == "cond":
        if n[2] in spec.UNARY:
            return n[:2] + ("IS_NULL" if n[2] == "IS_NOT_NULL" else "IS_NOT_NULL",) + n[3:], "operator"
        return n[:2] + (r.choice([o for o in spec.OPS if o not in spec.UNARY and o != n[2]]),) + n[3:], "operator"
    if k == "bool":
        if r.random() < 0.3:
            new = rearranged(n[2], r)
            if new:
                return n[:2] + (new[0],) + n[3:], "conditions: " + new[1]
        if r.random() < 0.5 and len(n[2]) > 2:
            return n[:2] + (n[2][:-1],) + n[3:], "condition removed"
        if n[3] == "short":
            return n[:2] + (n[2] + (("cond", ("col", "zz", None), "EQ", ("lit", 1)),),) + n[3:], "condition added"
        return ("bool", "OR" if n[1] == "AND" else "AND") + n[2:], "operator"
    if k == "entity":
        w = r.random()
        if w < 0.25:
            return (k, renamed(n[1], r)) + n[2:], "entity name"
        if w < 0.5:
            return n[:2] + (renamed(n[2] or "a", r),) + n[3:], "entity alias"
        if w < 0.75:
            return n[:3] + (other_sample(n[3], r), n[4]), "sample"
        return n[:4] + (other_model(n[4], r),), "data model"
    if k == "storage":
        w = r.random()
        if w < 0.4:
            return (k, renamed(n[1], r)) + n[2:], "storage name"
        if w < 0.7:
            return n[:2] + (other_sample(n[2], r), n[3]), "sample"
        return n[:3] + (other_model(n[3], r),), "data model"
    if k == "join":
        rels = n[1]
        if r.random() < 0.4:
            new = rearranged(rels, r)
            if new:
                return (k, new[0]), "relationships: " + new[1]
        i = r.randrange(len(rels))
        a, nm, b = rels[i]
        return (k, rels[:i] + ((a, renamed(nm, r), b),) + rels[i + 1 :]), "relationship"
    return None


def change_mql(s, r):
    """one change in a metrics expression"""
    if s[0] == "num":
        return ("num", s[1] + 1), "number"
    w = r.random()
    if r.random() < 0.25:
        i = r.choice([i for i in (2, 4, 5) if isinstance(s[i], tuple) and s[i]] or [0])
        if i and not (i == 2 and s[0] == "ts"):
            new = rearranged(s[i], r)
            if new:
                return s[:i] + (new[0],) + s[i + 1 :], "%s: %s" % ({2: "parameters", 4: "filters", 5: "groupby"}[i], new[1])
    if s[0] == "fm" and w < 0.4:
        i = r.randrange(len(s[2]))
        if s[2][i][0] != "num" and r.random() < 0.7:
            n, what = change_mql(s[2][i], r)
        else:
            n, what = ("num", 4711), "parameter"
        return s[:2] + (s[2][:i] + (n,) + s[2][i + 1 :],) + s[3:], "in formula: " + what
    if w < 0.55:
        if s[0] == "ts":
            m = s[1]
            return ("ts", (m[0], m[1] + "x")) + s[2:], "metric"
        return ("fm", s[1] + "x") + s[2:], "function"
    if w < 0.65 and s[0] == "ts":
        return s[:2] + (s[2] + "x",) + s[3:], "aggregate"
    if w < 0.75:
        return s[:3] + ((4711,) if s[3] != (4711,) else None,) + s[4:], "aggregate params"
    if w < 0.9:
        fs = s[4] or ()
        return s[:4] + (fs + (("cond", "zz", "EQ", "v"),),) + s[5:], "filters"
    return s[:5] + ((s[5] or ()) + ("zz",),), "groupby"


def change(kind, d, r):
    """-> other description, what changed"""
    g = spec.Gen(r)
    if kind == "expression":
        return change_mql(d, r)
    if kind == "metrics":
        f = r.choice(["query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings"])
        d = dict(d)
        if f == "query":
            if d.get("mql") is not None and d.get("text") is None:
                d["mql"], what = change_mql(d["mql"], r)
                return d, what
            d["text"] = (d.get("text") or "") + " "
        elif f in ("start", "end"):
            d[f] = None if d.get(f) is not None and r.random() < 0.3 else (d.get(f) or datetime(2024, 1, 1)) + timedelta(microseconds=1)
        elif f == "rollup":
            x = d.get("rollup")
            d["rollup"] = (60, None, None, 10) if x != (60, None, None, 10) else (60, None, None, 60)
        elif f == "scope":
            a, b, c = d.get("scope") or ((), (), None)
            d["scope"] = r.choice([(a + (99,), b, c), (a, b + (99,), c), (a, b, (c or "") + "x")])
        elif f == "extrapolate":
            d[f] = not d[f] if d.get(f) is not None else r.choice([True, False])
        elif f == "indexer_mappings":
            d[f] = dict(d.get(f) or {}, zz=1)
        else:
            d[f] = (d.get(f) or 10) + 1
        return d, f
    if kind == "query":
        if r.random() < 0.45:
            d = dict(d)
            f = r.choice(spec.FIELDS[1:])
            v = d[f]
            if f in ("select", "groupby", "array_join", "where", "having", "orderby", "limitby") and v and r.random() < 0.4:
                new = rearranged(v[0] if f == "limitby" else v, r)
                if new:
                    d[f] = (new[0], v[1]) if f == "limitby" else new[0]
                    return d, "clause %s: %s" % (f, new[1])
            if f in ("limit", "offset", "granularity"):
                d[f] = v + 1 if v is not None and v < 10000 else 5 if v is None else 6
            elif f == "totals":
                d[f] = r.choice([True, False]) if v is None else r.choice([None, not v])
            elif f == "limitby":
                d[f] = ((("col", "zz", None),), 5) if v is None else (v[0], v[1] % 10000 + 1)
            elif f == "orderby":
                if v and r.random() < 0.6:
                    i = r.randrange(len(v))
                    d[f] = v[:i] + ((v[i][0], "ASC" if v[i][1] == "DESC" else "DESC"),) + v[i + 1 :]
                else:
                    d[f] = (v or ()) + ((("col", "zz", None), "ASC"),)
            elif f in ("where", "having"):
                d[f] = v[:-1] if v and r.random() < 0.5 else (v or ()) + (("cond", ("col", "zz", None), "EQ", ("lit", 1)),)
            else:
                d[f] = v[:-1] if v and r.random() < 0.5 else (v or ()) + (("col", "zz", None),)
            return d, "clause " + f
    if kind in ("orderby",) and r.random() < 0.4:
        return (d[0], "ASC" if d[1] == "DESC" else "DESC"), "direction"
    if kind == "limitby" and r.random() < 0.4:
        new = rearranged(d[0], r)
        if new:
            return (new[0], d[1]), "limit by: " + new[1]
    if kind == "limitby" and r.random() < 0.6:
        return (d[0], d[1] % 10000 + 1) if r.random() < 0.5 else (d[0] + (("col", "zz", None),), d[1]), "limit by"
    if kind in ("Limit", "Offset", "Granularity"):
        return (d[0] % 10000 + 1,), kind
    if kind in ("Totals", "Extrapolate"):
        return (not d[0],), kind
    if kind == "relationship":
        return (d[0], d[1] + "x", d[2]), "relationship name"
    if kind == "model":
        m = other_model(d, r)
        while m is None:
            m = other_model(d, r)
        return m, "data model"
    if kind == "metric":
        i = r.choice([0, 1, 2])
        v = d[i]
        return d[:i] + ((v or 0) + 1 if i == 2 else (v or "") + "x",) + d[i + 1 :], "metric"
    if kind == "rollup":
        return r.choice([x for x in ((60, None, None, 60), (60, True, None, 60), (60, False, None, 60), (61, None, None, 60), (60, None, None, 10), (60, None, None, None), (None, True, "ASC", 60), (None, True, "DESC", 60), (None, True, None, 60), (None, True, "ASC", 10)) if x != d]), "rollup"
    if kind == "scope":
        return r.choice([(d[0] + (9,), d[1], d[2]), (d[0][::-1], d[1], d[2]), (d[0], (), d[2]), (d[0], d[1], (d[2] or "") + "x")]), "scope"
    if kind == "delete":
        return r.choice([(d[0] + "x", d[1]), (d[0], d[1][:1]), (d[0], d[1] + (("zz", (1,)),)), (d[0], ((d[1][0][0], d[1][0][1] + (3,)),) + d[1][1:]), (d[0], ((d[1][0][0], d[1][0][1][:-1] + ("y",)),) + d[1][1:])]), "delete"
    if kind == "flags":
        m = dict(d)
        f = r.choice(FLAGS)
        m[f] = r.choice([True, False]) if m.get(f) is None else r.choice([None, not m[f]])
        return tuple(m.items()), "flags"
    if kind == "request":
        f = r.choice(["dataset", "app_id", "query", "flags", "parent_api", "tenant_ids"])
        d = dict(d)
        if f == "query":
            q, what = change(*d["query"], r)
            d["query"] = (d["query"][0], q)
            return d, "query: " + what
        if f == "flags":
            d[f], _ = change("flags", d[f], r)
        elif f == "tenant_ids":
            d[f] = d[f] + (("zz", 1),)
        else:
            d[f] += "x"
        return d, f
    places = list(nodes(d))
    if not places:
        return None
    path, n = r.choice(places)
    if r.random() < 0.25:
        path, n = r.choice([x for x in places if x[1][0] == "cfn"] or [(path, n)])
    c = change_node(n, r, g)
    if c is None:
        return None
    what = c[1]
    if what == "CURRIED ALIAS" and kind == "query" and any(path[i] == "match" for i in range(len(path))):
        return None  # an outer query may use the alias
    if path:
        return work.put(d, path, c[0]), what
    return c[0], what


# ---- the laws ------------------------------------------------------------------------


def texts(o):
    """every rendering of the object"""
    out = [util.outcome(repr, o) if not isinstance(o, S.Request) else None]
    for m in ("serialize", "print", "validate"):
        if hasattr(o, m):
            out.append(util.outcome(getattr(o, m)))
    if not isinstance(o, (S.Query, S.MetricsQuery)):
        out.append(util.outcome(str, o))
    return out


def texts_of_sets(t):
    return [t[1:]] if "DataModel" in str(t[0]) else [t]  # a set prints in any order


def try_hash(o):
    try:
        return hash(o)
    except TypeError:
        return None


def law(ctx, ok, what, **kw):
    if not ok:
        ctx.violation(what, **kw)
        raise Stop()


class Stop(Exception):
    pass


def equal(ctx, a, b, what, **kw):
    law(ctx, (a == b) is True and (b == a) is True, "%s are not equal" % what, **kw)
    law(ctx, (a != b) is False and (b != a) is False, "%s are equal and also unequal (!=)" % what, **kw)
    ha, hb = try_hash(a), try_hash(b)
    law(ctx, (ha is None) == (hb is None), "of %s only one can be hashed" % what, **kw)
    if ha is not None:
        law(ctx, ha == hb, "%s are equal and have different hashes" % what, **kw)
        law(ctx, b in {a} and {a: 1}.get(b) == 1 and len({a, b}) == 1, "%s are not the same element of a set" % what, **kw)
        ctx.saw("hashed")


def unequal(ctx, a, b, what, **kw):
    law(ctx, (a == b) is False and (b == a) is False, "%s are equal" % what, **kw)
    law(ctx, (a != b) is True and (b != a) is True, "%s are neither equal nor unequal" % what, **kw)
    if try_hash(a) is not None and try_hash(b) is not None:
        law(ctx, len({a, b}) == 2, "%s are one element of a set" % what, **kw)


KEEP = []


def case(ctx):
    try:
        judge(ctx)
    except Stop:
        pass


def judge(ctx):
    r = ctx.rng
    kind, d = draw(r)
    try:
        a = build(kind, d)
    except Exception as e:
        if util.is_sdk_error(e) and kind in ("metrics", "request"):
            return
        raise
    used_first = r.random() < 0.5
    if used_first:
        texts(a), try_hash(a)
    b = build(kind, d)
    info = dict(kind=kind, spec=d)
    equal(ctx, a, a, "an object and itself", **info)
    equal(ctx, a, b, "two objects built from the same arguments", **info)
    for other in (None, 0, "x", (), object()):
        law(ctx, (a == other) is False and (a != other) is True, "an object equals %r" % (other,), **info)
    ctx.saw("twins")

    ch = change(kind, d, r)
    if ch is not None and repr(ch[0]) != repr(d):
        d2, what = ch
        try:
            c = build(kind, d2)
        except Exception as e:
            if not util.is_sdk_error(e):
                raise
            c = None  # not legal
        if c is not None:
            if what.endswith("CURRIED ALIAS"):
                equal(ctx, a, c, "objects that differ only in the alias of a curried function", **info, other=d2)
                ctx.saw("alias_only")
            else:
                unequal(ctx, a, c, "objects that differ in one argument (%s)" % what, **info, other=d2)
                ctx.saw("one_change")
            ctx.distinct((kind, what))

    before, h0, want = util.unset_dicts(util.freeze(a)), try_hash(a), texts(b)
    ways = [("copy", copy.copy), ("deepcopy", copy.deepcopy), ("replace", None)]
    ways += [("pickle%d" % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in (4, pickle.HIGHEST_PROTOCOL)]  # older protocols lose a datetime's fold
    for name, fn in ways if r.random() < 0.2 else [r.choice(ways), r.choice(ways)]:
        if fn is None:
            if not dataclasses.is_dataclass(a) or kind in ("model",):
                continue
            fn = dataclasses.replace
        x = fn(a)
        law(ctx, type(x) is type(a), "%s gives another class" % name, **info)
        equal(ctx, a, x, "an object and its %s" % name, **info)
        law(ctx, util.unset_dicts(util.freeze(x)) == before, "the %s has other content" % name, **info, copy=repr(x))
        if kind != "model":
            t = texts(x)
            law(ctx, t == want, "the %s renders differently" % name, **info, original=want, copy=t)
        ctx.saw("copies")
    texts(a), repr(a)
    equal(ctx, a, b, "after use, two objects built from the same arguments", **info)
    law(ctx, try_hash(a) == h0, "the hash changed by use", **info)
    law(ctx, util.unset_dicts(util.freeze(a)) == before, "the content changed by use", **info)
    ctx.distinct((kind, repr(d)))
    if len(repr(d)) < 120:
        ctx.sample("%s %r" % (kind, d))
    if len(KEEP) < 150 and r.random() < 0.05:
        try:
            KEEP.append((kind, d, pickle.dumps(a), pickle.dumps((kind, d)), ctx.case_id))
        except Exception:
            pass  # a description that cannot be sent


def end(ctx):
    """the used objects, as seen by another process with another hash seed"""
    if not KEEP:
        return
    fd, path = tempfile.mkstemp(prefix="c18")
    with os.fdopen(fd, "wb") as f:
        pickle.dump([(obj, desc) for _, _, obj, desc, _ in KEEP], f)
    mon = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH=mon + ":/repo", PYTHONHASHSEED=str(1 + ctx.rng.randrange(10**6)))
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), path], env=env, capture_output=True, text=True, timeout=300)
    finally:
        os.unlink(path)
    lines = p.stdout.splitlines()
    if p.returncode != 0 or not lines or not lines[-1].startswith("checked "):
        ctx.errors.append("the other process failed: %s" % (p.stdout + p.stderr)[-1500:])
        return
    for l in lines[:-1]:
        i, _, what = l.partition(" ")
        kind, d, _, _, cid = KEEP[int(i)]
        ctx.case_id = cid
        ctx.violation("a pickled object loaded in another process: %s" % what, kind=kind, spec=d)
    ctx.saw("other_process", len(KEEP))


def elsewhere(path):
    with open(path, "rb") as f:
        items = pickle.load(f)
    n = 0
    for i, (obj, desc) in enumerate(items):
        kind, d = pickle.loads(desc)
        try:
            x, b = pickle.loads(obj), build(kind, d)
            if not (x == b and b == x) or x != b:
                print(i, "not equal to the same object built there")
            elif try_hash(x) != try_hash(b):
                print(i, "equal to the same object built there, with another hash")
            elif kind != "model" and texts(x) != texts(b):
                print(i, "renders differently")
        except Exception as e:
            print(i, "%s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:200]))
        n += 1
    print("checked", n)


if __name__ == "__main__":
    elsewhere(sys.argv[1])
