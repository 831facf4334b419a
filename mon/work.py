"""The catalogue of operations used by the history, mutation and concurrency monitors.

An Op is a description (plain data) with
    build() -> list of inputs (SDK objects, lists, dictionaries, strings)
    run(inputs) -> result
both functions of the description alone, so the same operation can be repeated in
another process, after another history or in another thread."""
from __future__ import annotations

import copy
from datetime import datetime, timedelta, timezone

import snuba_sdk as S
from snuba_sdk.legacy import json_to_snql
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
from snuba_sdk.query_validation import validate_required_columns
from snuba_sdk.query_visitors import ExpressionSearcher, find_column_in_function, is_aggregate
from snuba_sdk.snuba import is_aggregation_function
from snuba_sdk.timeseries import Metric

import harvest
import legacy
import mql
import mqltext
import spec
import util


class Op:
    __slots__ = ("kind", "data", "how")

    def __init__(self, kind, data, how):
        self.kind, self.data, self.how = kind, data, how

    @property
    def label(self):
        return "%s.%s" % (self.kind, self.how)

    def build(self):
        return BUILD[self.kind](self.data, self.how)

    def run(self, inputs):
        return RUN[self.kind](inputs, self.how)

    def full(self):
        """outcome of building and running, as plain data"""
        return util.outcome(lambda: self.run(self.build()))

    def __repr__(self):
        return "Op(%s, %r)" % (self.label, self.data)


# ------------------------------------------------------------------- SnQL

QUERY_HOW = ["serialize", "serialize", "print", "str", "validate", "repr", "request", "search", "required", "hash", "eq", "copy", "fields", "request_str"]


def search(q):
    return {util.freeze(c) for c in ExpressionSearcher(S.Column).visit(q)}


def run_query(inp, how):
    q = inp[0]
    if how == "str":
        return str(q)
    if how == "repr":
        return repr(q)
    if how == "request":
        return S.Request("ds", "app", q).to_dict()
    if how == "request_str":
        return str(S.Request("ds", "app", q, S.Flags(debug=True)))
    if how == "search":
        return search(q)
    if how == "required":
        return validate_required_columns(q)
    if how == "hash":
        try:
            return hash(q) and "hashed"
        except TypeError:
            return "unhashable"
    if how == "eq":
        return (q == inp[0], q == inp[1], q != inp[1], inp[1] == q)
    if how == "copy":
        return copy.deepcopy(q)
    if how == "fields":
        return q.get_fields()
    return getattr(q, how)()


def build_query(data, how):
    q = spec.build_query(data)
    return [q, spec.build_query(data)] if how == "eq" else [q]


def draw_query(r):
    g = spec.Gen(r)
    q = g.query(r.choice([0, 0, 1, 2]))
    k = r.random()
    if k < 0.2:
        q = dict(q)
        w = r.random()
        if w < 0.3:
            q["select"] = r.choice([None, ()])
        elif w < 0.5:
            q["totals"], q["groupby"] = True, None
        elif w < 0.65:  # valid, but rendering fails half way
            q["having"] = (q["having"] or ()) + (("cond", ("fn", "ff", ("list", (("lit", b"\xff"),)), None), "EQ", ("lit", 1)),)
        else:  # a reference that may not exist
            q["where"] = (q["where"] or ()) + (("cond", ("fn", "ff", ("list", (("col", "zz_missing", None),)), None), "EQ", ("lit", 1)),)
    return q


# ----------------------------------------------------------------- setters

SETTERS = ("match", "select", "groupby", "array_join", "where", "having", "orderby", "limitby", "limit", "offset", "granularity", "totals")


def build_setter(data, how):
    q, name, v, bad = data
    query = spec.build_query(q)
    if bad is not None:
        return [query, getattr(query, name) if bad == "OWN" else bad]
    if name in spec.SETTER_PLAIN:
        return [query, v]
    return [query, spec.build_field(name, v)]


def run_setter(inp, how):
    out = getattr(inp[0], "set_" + how)(inp[1])
    return [out, util.outcome(str, out)]


def draw_setter(r):
    q, q2 = spec.Gen(r).query(0), spec.Gen(r).query(r.choice([0, 0, 1]))
    name = r.choice([f for f in SETTERS if q2[f] is not None])
    bad = r.choice(["x", 5, ["x"], [5], (), {"a": 1}, [None], -1, 10**9]) if r.random() < 0.25 else None
    if bad is None and name not in spec.SETTER_PLAIN and q[name] is not None and r.random() < 0.15:
        bad = "OWN"
    return (q, name, q2[name], bad), name


# -------------------------------------------------------------- expressions

EXPR_HOW = ["repr", "eq", "validate", "copy", "aggregate", "finder"]


def build_expr(data, how):
    if how in ("aggregate", "finder"):
        return [spec.build(data[0]), set(data[1]), spec.build(data[2])]
    return [spec.build(data)]


def run_expr(inp, how):
    e = inp[0]
    if how == "repr":
        return repr(e)
    if how == "eq":
        return e == e
    if how == "copy":
        return copy.copy(e)
    if how == "aggregate":
        return (is_aggregate(e), is_aggregate(e, inp[1]), is_aggregation_function(e.function, inp[1]), is_aggregation_function(e.function))
    if how == "finder":
        return find_column_in_function(inp[2], e)
    return e.validate()


def draw_expr(r):
    g = spec.Gen(r)
    scope = {"names": None, "entities": None, "loose_entity": True}
    how = r.choice(EXPR_HOW)
    if how in ("aggregate", "finder"):
        f = g.func(scope, 3)
        names = names_in(f)
        if r.random() < 0.3:  # a raw function, as the legacy API sends them
            inner = r.choice(["plus", "uniq", "cc", "countIf", "x1"])
            raw = "%s(%s, %s)" % (inner, r.choice(names), r.choice(names))
            if all(c.isalnum() or c in "_().,+'\": []-" for c in raw):
                f = f[:1] + (raw,) + f[2:]
        aliases = tuple({r.choice(names) for _ in range(r.choice([0, 1, 1, 2]))})
        col = ("col", r.choice(["a", "zz", "b"]), None)
        cols = [x for x in nodes(f) if x[0] == "col"]
        return (f, aliases, r.choice(cols) if cols and r.random() < 0.6 else col), how
    return r.choice([lambda: g.func(scope, 2), lambda: g.condition(scope, 2), lambda: g.selectable(scope)])(), how


def nodes(x):
    """the descriptions inside a description"""
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("col", "fn", "cfn"):
            yield x
        for y in x:
            yield from nodes(y)


def names_in(f):
    return ["a", "cnt", "count()", "zz"] + [x[1] for x in nodes(f) if x[0] == "col" and isinstance(x[1], str)]


def build_fold(data, how):
    return [[spec.build(c) for c in data]]


def run_fold(inp, how):
    return OrOptimizer().optimize(inp[0])


def draw_fold(r):
    g = spec.Gen(r)
    scope = {"names": None, "entities": None}
    return g.conditions(scope) + (g.or_chain(scope),), "optimize"


# -------------------------------------------------------------------- metrics

METRICS_HOW = ["serialize", "serialize", "serialize", "print", "str", "validate", "repr", "request", "eq", "copy", "set_limit", "set_query", "request_print"]


def build_metrics(d, how):
    kw = {}
    if d.get("text") is not None:
        kw["query"] = d["text"]
    elif d.get("mql") is not None:
        kw["query"] = mql.build(d["mql"])
    for f in ("start", "end", "indexer_mappings"):
        if d.get(f) is not None:
            kw[f] = copy.deepcopy(d[f])
    if d.get("rollup") is not None:
        i, t, o, g = d["rollup"]
        kw["rollup"] = S.Rollup(interval=i, totals=t, orderby=S.Direction[o] if o else None, granularity=g)
    if d.get("scope") is not None:
        a, b, c = d["scope"]
        kw["scope"] = S.MetricsScope(list(a), list(b), c)
    for f, c in (("limit", S.Limit), ("offset", S.Offset), ("extrapolate", S.Extrapolate)):
        if d.get(f) is not None:
            kw[f] = c(d[f])
    if how == "build":
        return [kw]
    m = S.MetricsQuery(**kw)
    return [m, mql.build(d["mql"]) if d.get("mql") is not None else "sum(x)"]


def run_metrics(inp, how):
    m = inp[0]
    if how == "build":
        return S.MetricsQuery(**m)
    if how == "str":
        return str(m)
    if how == "repr":
        return repr(m)
    if how == "request":
        return S.Request("ds", "app", m).to_dict()
    if how == "request_print":
        return S.Request("ds", "app", m, S.Flags(turbo=False)).print()
    if how == "eq":
        return (m == m, m == copy.deepcopy(m))
    if how == "copy":
        return copy.deepcopy(m)
    if how == "set_limit":
        out = m.set_limit(7)
        return [out, util.outcome(out.serialize)]
    if how == "set_query":
        out = m.set_query(inp[1])
        return [out, util.outcome(out.serialize)]
    return getattr(m, how)()


def draw_metrics(r):
    d = {}
    if r.random() < 0.5:
        d["mql"] = mql.MGen(r).expr()
    else:
        d["text"] = draw_text(r)[0]
    base = datetime(2024, 1, 2, 3, 4, 5)
    for f in ("start", "end"):
        t = base + timedelta(seconds=r.randint(0, 10**6))
        if r.random() < 0.5:
            t = t.replace(tzinfo=timezone(timedelta(hours=r.choice([0, 0, 2, -8]))))
        d[f] = t
    k = r.random()
    g = r.choice([10, 60, 3600, 86400])
    d["rollup"] = (g * r.choice([1, 5]), r.choice([None, True]), None, g) if k < 0.6 else (None, r.choice([True, False]), r.choice([None, "ASC", "DESC"]), g)
    if r.random() < 0.08:  # no granularity yet
        d["rollup"] = d["rollup"][:3] + (None,)
    d["scope"] = (tuple(range(1, 1 + r.choice([1, 3]))), tuple(range(5, 5 + r.choice([0, 1, 4]))), r.choice([None, "transactions", ""]))
    for f, v in (("limit", r.choice([1, 100, 10000])), ("offset", r.choice([0, 5, 10**6])), ("extrapolate", r.choice([True, False]))):
        if r.random() < 0.4:
            d[f] = v
    if r.random() < 0.92:
        d["indexer_mappings"] = r.choice([{}, {"a": 1}, {harvest.word(r): r.choice([0, 1, "x"]) for _ in range(3)}, {"transaction.duration": "d:transactions/duration@millisecond", "x": 5}])
    if r.random() < 0.15:
        d[r.choice(["start", "rollup", "scope", "mql", "text"])] = None
    return d


# ------------------------------------------------------------------------ MQL


def draw_text(r):
    t = mqltext.Text(r, depth=r.choice([0, 1, 1, 2, 3]))
    toks, _ = t.query()
    if r.random() < 0.2:
        return mqltext.broken(toks, r)[0], "bad"
    return mqltext.layout(toks, r), "good"


def run_text(inp, how):
    return parse_mql(inp[0])


# --------------------------------------------------------------------- legacy


def build_legacy(data, how):
    return [copy.deepcopy(data[0]), data[1]]


def run_legacy(inp, how):
    req = json_to_snql(inp[0], inp[1])
    return req.to_dict() if how == "to_dict" else req.print() if how == "print" else req


def draw_legacy(r):
    body, entity, _, _ = legacy.LGen(r).body()
    if r.random() < 0.1:
        body[r.choice(["limit", "granularity", "offset"])] = r.choice([-1, 0, "x"])
    return (body, entity), r.choice(["to_dict", "to_dict", "convert", "print"])


# --------------------------------------------------------------------- deletes


def build_delete(data, how):
    return [S.DeleteQuery(data[0], copy.deepcopy(data[1]))]


def run_delete(inp, how):
    q = inp[0]
    if how == "request":
        return S.Request("ds", "app", q).to_dict()
    if how == "request_str":
        return str(S.Request("ds", "app", q))
    if how == "repr":
        return repr(q)
    return getattr(q, how)()


def draw_delete(r):
    c = {}
    for _ in range(r.choice([0, 1, 2, 3])):
        c[r.choice(["id", "status", "a", "b", "project_id"])] = [r.choice([1, 0, "x", "", 5, 2, True]) for _ in range(r.choice([0, 1, 1, 2, 4]))]
    return (r.choice(["events", "search_issues"]), c), r.choice(["serialize", "validate", "print", "request", "request_str", "repr"])


# -------------------------------------------------------------------- requests


def build_request(d, how):
    q = build_query(d["query"], "x")[0] if d["kind"] == "snql" else build_metrics(d["query"], "x")[0] if d["kind"] == "metrics" else build_delete(d["query"], "x")[0]
    flags = S.Flags(**d["flags"]) if d["flags"] is not None else None
    kw = {"flags": flags, "parent_api": d["parent_api"], "tenant_ids": copy.deepcopy(d["tenant_ids"])}
    for f in d.get("defaults", ()):
        kw.pop(f, None)
    return [S.Request(d["dataset"], d["app_id"], q, **kw)]


def run_request(inp, how):
    if how == "str":
        return str(inp[0])
    if how == "repr":
        return repr(inp[0])
    return getattr(inp[0], how)()


def draw_request(r):
    kind = r.choice(["snql", "metrics", "delete"])
    d = {"kind": kind, "query": draw_query(r) if kind == "snql" else draw_metrics(r) if kind == "metrics" else draw_delete(r)[0]}
    d["dataset"] = r.choice(["events", "metrics", "a b", ""]) if r.random() < 0.3 else "events"
    d["app_id"] = r.choice(["app", "app", "app", "a\nb"])
    d["parent_api"] = r.choice(["<unknown>", "api", "/x", ""]) if r.random() < 0.3 else "api"
    d["tenant_ids"] = r.choice([{}, {"organization_id": 1}, {"referrer": "x", "n": 2}, {harvest.word(r): r.choice([0, 1, "x", ""]) for _ in range(3)}])
    fl = {f: r.choice([True, False]) for f in ("totals", "consistent", "turbo", "debug", "dry_run", "legacy") if r.random() < 0.3}
    if r.random() < 0.1:
        fl["debug"] = "yes"
    d["flags"] = None if r.random() < 0.1 else fl
    if r.random() < 0.4:
        d["defaults"] = {f: 1 for f in ("flags", "parent_api", "tenant_ids") if r.random() < 0.6}
    return d, r.choice(["to_dict", "serialize", "print", "str", "validate", "repr", "serialize_mql"])


# ------------------------------------------------------- building from parts


def build_parts(data, how):
    k, d = data
    if k == "query":
        return [S.Query, {f: spec.build_field(f, d[f]) for f in spec.FIELDS if d[f] is not None}]
    if k == "fn":
        return [S.Function, {"function": d[1], "parameters": spec.build(d[2]) if d[2] is not None else None, "alias": d[3]}]
    if k == "cond":
        kw = {"lhs": spec.build(d[1]), "op": S.Op[d[2]]}
        if d[3] is not None:
            kw["rhs"] = spec.build(d[3])
        return [S.Condition, kw]
    if k == "bool":
        return [S.BooleanCondition, {"op": S.BooleanOp[d[1]], "conditions": spec.wrap(d[4], [spec.build(x) for x in d[2]])}]
    if k == "join":
        return [S.Join, {"relationships": [S.Relationship(spec.build_entity(a), n, spec.build_entity(b)) for a, n, b in d[1]]}]
    if k == "ts":
        t = mql.build(d)
        return [S.Timeseries, {"metric": t.metric, "aggregate": t.aggregate, "aggregate_params": t.aggregate_params, "filters": t.filters, "groupby": t.groupby}]
    if k == "fm":
        f = mql.build(d)
        return [S.Formula, {"function_name": f.function_name, "parameters": f.parameters, "aggregate_params": f.aggregate_params, "filters": f.filters, "groupby": f.groupby}]
    raise AssertionError(k)


def run_parts(inp, how):
    o = inp[0](**inp[1])
    if how == "two":  # two objects around the same parts, both used
        p = inp[0](**inp[1])
        a, b = util.outcome(str, o), util.outcome(str, p)
        return [o == p, a, b, util.outcome(str, o)]
    return o


def draw_parts(r):
    g = spec.Gen(r)
    scope = {"names": None, "entities": None, "loose_entity": True}
    k = r.choice(["query", "query", "fn", "cond", "bool", "join", "ts", "fm"])
    how = r.choice(["one", "two"])
    if k == "query":
        return (k, g.query(r.choice([0, 1]))), how
    if k == "fn":
        f = g.func(scope, 2)
        if f[0] == "cfn":
            f = ("fn", f[1], f[3], f[4])
        if r.random() < 0.2:
            f = ("fn", "", f[2], f[3])
        return (k, f), how
    if k == "cond":
        return (k, g.simple_cond(scope)), how
    if k == "bool":
        b = g.or_chain(scope)
        if r.random() < 0.2:
            b = b[:2] + (b[2][:1],) + b[3:]
        return (k, b), how
    if k == "join":
        return (k, g.join()[0]), how
    m = mql.MGen(r)
    if k == "ts":
        return (k, m.ts()), how
    s = m.expr()
    return (s[0], s), how


# ------------------------------------------- setters of the metrics objects


def build_mset(data, how):
    s, v = data
    if how.startswith("metric"):
        m = mql.build(s).metric
        return [m, v]
    if how.startswith("scope"):
        return [S.MetricsScope([1, 2], [3], None), v]
    o = mql.build(s)
    if v == "OWN":  # what the object has already
        return [o, {"filters": "filters", "groupby": "groupby", "parameters": "parameters", "metric": "metric", "aggregate": "aggregate_params"}[how.partition(".")[2]]]
    if v is None or isinstance(v, (int, str)):
        return [o, v]
    if how.endswith("filters"):
        v = [mql.build_filter(f) for f in v]
    elif how.endswith("groupby"):
        v = [S.Column(c) for c in v]
    elif how.endswith("parameters"):
        v = [mql.build(x) for x in v]
    elif how.endswith(".metric"):
        v = mql.build(v).metric
    elif how.endswith("aggregate"):
        v = list(v)
    return [o, v]


def run_mset(inp, how):
    o, v = inp
    name = how.partition(".")[2]
    if isinstance(v, str) and not how.startswith(("metric", "scope")) and v != "x":
        v = getattr(o, v)
    if name == "aggregate":
        return o.set_aggregate("p95", v)
    return getattr(o, "set_" + name)(v)


def draw_mset(r):
    m = mql.MGen(r)
    how = r.choice(["ts.filters", "ts.groupby", "ts.metric", "ts.aggregate", "fm.filters", "fm.groupby", "fm.parameters", "metric.mri", "metric.public_name", "metric.id", "scope.use_case_id"])
    s = m.ts()
    if how.startswith("fm"):
        s = ("fm", "plus", (m.ts(), m.ts()), None, m.filters(), None)
    v = {
        "filters": lambda: m.filters() or (), "groupby": lambda: m.group() or (), "metric": lambda: m.ts(), "aggregate": lambda: (0.5, "x", 3),
        "parameters": lambda: (m.ts(), ("num", 5), m.ts()), "mri": lambda: "d:a/b@c", "public_name": lambda: "nn", "id": lambda: 7, "use_case_id": lambda: "u",
    }[how.partition(".")[2]]()
    if r.random() < 0.2:
        v = r.choice([5, "x", None])
    elif not how.startswith(("metric", "scope")) and r.random() < 0.3:
        v = "OWN"
    return (s, v), how


BUILD = {
    "query": build_query, "set": build_setter, "expr": build_expr, "fold": build_fold, "metrics": build_metrics, "mql": lambda d, h: [d],
    "legacy": build_legacy, "delete": build_delete, "request": build_request, "parts": build_parts, "mset": build_mset,
}
RUN = {
    "query": run_query, "set": run_setter, "expr": run_expr, "fold": run_fold, "metrics": run_metrics, "mql": run_text,
    "legacy": run_legacy, "delete": run_delete, "request": run_request, "parts": run_parts, "mset": run_mset,
}
KINDS = {"query": 6, "set": 2, "expr": 1, "fold": 1, "metrics": 4, "mql": 3, "legacy": 3, "delete": 1, "request": 2, "parts": 2, "mset": 1}


def draw(r, kind=None):
    k = kind or r.choices(list(KINDS), list(KINDS.values()))[0]
    if k == "query":
        return Op(k, draw_query(r), r.choice(QUERY_HOW))
    if k == "metrics":
        return Op(k, draw_metrics(r), r.choice(METRICS_HOW))
    data, how = {
        "set": draw_setter, "expr": draw_expr, "fold": draw_fold, "mql": draw_text, "legacy": draw_legacy, "delete": draw_delete,
        "request": draw_request, "parts": draw_parts, "mset": draw_mset,
    }[k](r)
    return Op(k, data, how)


# ------------------------------------------------------------------ look-alikes


def alike(v, r):
    """a different value that is easily taken for v"""
    if isinstance(v, bool):
        return r.choice([int(v), float(v), not v, "true" if v else "false"])
    if isinstance(v, int):
        c = [v + 1, str(v), -v]
        if abs(v) < 2**53:
            c += [float(v), float(v)]
        if v in (0, 1):
            c += [bool(v), bool(v)]
        return r.choice(c)
    if isinstance(v, float):
        c = [-v, v + 1]
        if v == int(v) if abs(v) < 1e15 else False:
            c += [int(v), int(v)]
        return r.choice(c)
    if isinstance(v, datetime):
        if v.tzinfo is not None and 1000 < v.year < 9000:
            return r.choice([v.astimezone(timezone(timedelta(hours=r.choice([1, -5, 0])))), v.replace(tzinfo=None)])
        return r.choice([v.replace(microsecond=(v.microsecond + 1) % 10**6), v.replace(tzinfo=timezone.utc) if 1 < v.year < 9999 else v])
    if isinstance(v, str):
        return r.choice([v + "x", v.upper(), v.lower(), v + " ", v.encode(), "'" + v, v[:-1]])
    if isinstance(v, bytes):
        return v.decode("utf-8", "replace")
    if v is None:
        return r.choice([False, "NULL", 0, ""])
    return v


def spots(x, path=()):
    """places of a description where a look-alike may be put"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from spots(v, path + (k,))
    elif isinstance(x, (list, tuple)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            if x[0] == "lit" and len(x) == 2:
                yield path + (1,), "lit"
                return
            if x[0] in ("list", "tuple") and len(x) == 2 and isinstance(x[1], tuple):
                yield path + (0,), "seq"
            if x[0] == "col" and len(x) == 3 and isinstance(x[1], str):
                yield path + (1,), "col"
            if x[0] in ("fn", "cfn") and len(x) > 3:
                yield path + (len(x) - 1,), "alias"
            if x[0] == "entity" and len(x) == 5 or x[0] == "storage" and len(x) == 4:
                # a look-alike that differs in nothing but its data model
                if x[-1] is not None:
                    yield path + (len(x) - 1,), "model"
                    yield path + (len(x) - 1,), "model"
                if x[-2] is not None:
                    yield path + (len(x) - 2,), "lit"
                yield path + (1,), "name"
                return
            if x[0] == "num":
                yield path + (1,), "lit"
        for i, v in enumerate(x):
            if isinstance(v, (dict, list, tuple)):
                yield from spots(v, path + (i,))
            elif isinstance(x, list) or isinstance(v, (int, float, datetime)):
                yield path + (i,), "lit"
    elif isinstance(x, (int, float, datetime)):
        yield path, "lit"


def put(x, path, new):
    if not path:
        return new
    if isinstance(x, dict):
        y = dict(x)
        y[path[0]] = put(x[path[0]], path[1:], new)
        return y
    y = list(x)
    y[path[0]] = put(x[path[0]], path[1:], new)
    return tuple(y) if isinstance(x, tuple) else y


def get(x, path):
    for p in path:
        x = x[p]
    return x


def sibling(op, r):
    """the same operation on a look-alike input, or another operation on the same input"""
    k = r.random()
    if k < 0.25:
        if op.kind == "query":
            return Op("query", op.data, r.choice(QUERY_HOW))
        if op.kind == "metrics":
            return Op("metrics", op.data, r.choice(METRICS_HOW))
        if op.kind == "request":
            return Op("request", op.data, r.choice(["to_dict", "serialize", "print", "str"]))
    if op.kind == "mql":
        s = op.data
        i = r.randint(0, len(s))
        return Op("mql", r.choice([s + " ", " " + s, s[:i] + s[i + 1 :], s[:i] + r.choice(["(", ")", "{", "*", '"', " ", "1"]) + s[i:], "(" + s + ")"]), op.how)
    places = list(spots(op.data))
    if op.kind == "expr" and op.how in ("aggregate", "finder"):
        places += [((1,), "aliases")] * 4
    models = [p for p in places if p[1] == "model"]
    if models and r.random() < 0.3:
        places = models
    if not places:
        return op
    data = op.data
    for _ in range(r.choice([1, 1, 2])):
        path, what = r.choice(places)
        try:
            v = get(data, path)
        except (KeyError, IndexError, TypeError):
            continue
        if what == "model":
            if not isinstance(v, tuple):
                continue
            cols, time = v
            i = r.randrange(len(cols))
            k = r.random()
            if k < 0.5:
                new = (cols[:i] + cols[i + 1 :] or (("zz", False),), time)
            elif k < 0.8:
                new = (cols[:i] + ((cols[i][0], not cols[i][1]),) + cols[i + 1 :], time)
            else:
                new = r.choice([(cols, (cols[i][0], time[1])), None])
        elif what == "name":
            new = r.choice(["events", "errors", v + "x", v.swapcase()])
        elif what == "aliases":
            new = tuple({r.choice(names_in(data[0])) for _ in range(r.choice([0, 1, 2]))})
        elif what == "seq":
            new = "tuple" if v == "list" else "list"
        elif what == "col":
            new = r.choice(["zz_missing", v + "x", v.partition("[")[0], v.swapcase() if v.swapcase() not in spec.KEYWORDS else "zz"])
        elif what == "alias":
            new = r.choice(["a", "zz", None]) if v is None else r.choice([None, v + "x"])
        else:
            new = alike(v, r)
        data = put(data, path, new)
    return Op(op.kind, data, op.how)
