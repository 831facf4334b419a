"""C20: setters replace exactly one part, in any order, and check what they are given."""
from datetime import date, datetime, timedelta, timezone

import snuba_sdk as S
from snuba_sdk.timeseries import Metric

import harvest
import mql
import spec
import util
import work

PROPERTY = "C20"
RULE = (
    "Random histories of setter calls (legal values, values of the wrong kind, out-of-range numbers, repeated setters, branches from earlier objects of the history) on queries, metrics queries, timeseries, formulas, metrics and scopes, "
    "each run against a record of the attributes. After every call: a legal one returns an object of the same class whose attributes are exactly the record's, an illegal one raises an SDK error; every object made so far still has the "
    "attributes it had; at the end the object equals, and renders like, one built at once from the same attributes, and like one built by the same setters in another order. Distinct by sequence of (setter, legality); non-trivial: at least two calls."
)
ASSUMPTIONS = [
    "not judged: set_indexer_mappings with something that is not a dictionary (not checked by the SDK), booleans given as integers, tuples given as lists, aggregate parameters that are not literals",
]
BUDGET = {"quick": 26000, "thorough": 350000}
FLOOR = {"evaluations": 6000, "legal_calls": 20000, "illegal_calls": 8000, "final_equal": 4000, "distinct": 3000}

JUNK = [None, "x", "", 5, -1, 0, 2.5, (), ("x",), {"a": 1}, {}, object, ["x"], [5], [None], [[]], b"y", True, datetime(2024, 1, 1), S.Direction.ASC]


class Junk(Exception):
    pass


def objects(r):
    """SDK objects of many kinds, to be used where another kind is wanted"""
    c = S.Column("a")
    return r.choice([
        c, S.Function("ff", [c]), S.CurriedFunction("ff", [1], [c]), S.Condition(c, S.Op.EQ, 1), S.Or([S.Condition(c, S.Op.EQ, 1), S.Condition(c, S.Op.EQ, 2)]), S.OrderBy(c, S.Direction.ASC),
        S.LimitBy([c], 1), S.Limit(1), S.Offset(1), S.Granularity(60), S.Totals(True), S.Entity("e"), S.Storage("s"), S.AliasedExpression(c, "al"), S.Identifier("i"), S.Op.EQ, S.Extrapolate(True),
        Metric("x"), S.Timeseries(Metric("x"), "sum"), S.Formula("plus", [S.Timeseries(Metric("x"), "sum"), 1]), S.Rollup(interval=60, granularity=60), S.MetricsScope([1], [2]), S.Query(S.Entity("e"), select=[c]),
        S.Relationship(S.Entity("a", "a"), "x", S.Entity("b", "b")), S.Join([S.Relationship(S.Entity("a", "a"), "x", S.Entity("b", "b"))]), S.Lambda(["x"], S.Function("ff", [c])), S.DeleteQuery("e", {"a": [1]}), S.Flags(),
        S.MetricsQuery(),
    ])


def junk(r):
    k = r.random()
    if k < 0.45:
        return r.choice(JUNK)
    if k < 0.75:
        return objects(r)
    n = r.choice([1, 2, 3])
    good = [objects(r) for _ in range(n)]
    return good


def kinds(v, *types):
    return isinstance(v, list) and all(isinstance(x, types) for x in v)


SEL = (S.AliasedExpression, S.Column, S.CurriedFunction)
CONDS = (S.Condition, S.BooleanCondition)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


# For each class: setter -> (attribute, accepts?(value), stored value).  None from accepts? means: not judged.
QUERY = {
    "match": (lambda v: valid_match(v), None),
    "select": (lambda v: kinds(v, *SEL) and len(v) > 0, None),
    "groupby": (lambda v: kinds(v, *SEL), None),
    "array_join": (lambda v: kinds(v, S.Column) and len(v) > 0, None),
    "where": (lambda v: kinds(v, *CONDS), None),
    "having": (lambda v: kinds(v, *CONDS), None),
    "orderby": (lambda v: kinds(v, S.OrderBy), None),
    "limitby": (lambda v: isinstance(v, S.LimitBy), None),
    "limit": (lambda v: None if isinstance(v, bool) else is_int(v) and 1 <= v <= 10000, S.Limit),
    "offset": (lambda v: None if isinstance(v, bool) else is_int(v) and v >= 0, S.Offset),
    "granularity": (lambda v: None if isinstance(v, bool) else is_int(v) and v >= 1, S.Granularity),
    "totals": (lambda v: isinstance(v, bool), S.Totals),
}


def valid_match(v):
    if isinstance(v, (S.Entity, S.Storage, S.Join)):
        return True
    if isinstance(v, S.Query):
        return VALID_INNER.get(id(v), True)
    return False


VALID_INNER = {}

METRICS = {
    "query": (lambda v: isinstance(v, (S.Formula, S.Timeseries, str)), None),
    "start": (lambda v: isinstance(v, datetime), None),
    "end": (lambda v: isinstance(v, datetime), None),
    "rollup": (lambda v: isinstance(v, S.Rollup), None),
    "scope": (lambda v: isinstance(v, S.MetricsScope), None),
    "limit": QUERY["limit"],
    "offset": QUERY["offset"],
    "extrapolate": (lambda v: isinstance(v, bool), S.Extrapolate),
    "indexer_mappings": (lambda v: True if isinstance(v, dict) else None, None),
}
SERIES = {
    "metric": (lambda v: isinstance(v, Metric), None),
    "filters": (lambda v: v is None or kinds(v, *CONDS), None),
    "groupby": (lambda v: v is None or kinds(v, S.Column, S.AliasedExpression), None),
}
FORMULA = {
    "parameters": (lambda v: v is None or (None if isinstance(v, list) and any(isinstance(x, bool) for x in v) else kinds(v, S.Formula, S.Timeseries, float, int)), None),
    "filters": SERIES["filters"],
    "groupby": SERIES["groupby"],
}
METRIC = {
    "mri": (lambda v: isinstance(v, str), None),
    "public_name": (lambda v: isinstance(v, str), None),
    "id": (lambda v: None if isinstance(v, bool) else is_int(v), None),
}
SCOPE_SET = {"use_case_id": (lambda v: isinstance(v, str), None)}

ATTRS = {
    "query": spec.FIELDS,
    "metrics": ("query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings"),
    "series": ("metric", "aggregate", "aggregate_params", "filters", "groupby"),
    "formula": ("function_name", "parameters", "aggregate_params", "filters", "groupby"),
    "metric": ("public_name", "mri", "id"),
    "scope": ("org_ids", "project_ids", "use_case_id"),
}
SETTERS = {"query": QUERY, "metrics": METRICS, "series": SERIES, "formula": FORMULA, "metric": METRIC, "scope": SCOPE_SET}
CLASS = {"query": S.Query, "metrics": S.MetricsQuery, "series": S.Timeseries, "formula": S.Formula, "metric": Metric, "scope": S.MetricsScope}


def plain(v):
    """the argument of a setter whose attribute is a wrapped number"""
    return v


def own(kind, name, r, rec):
    """a value related to what the object already has: the same again, or that of another attribute"""
    v = rec.get(r.choice([name, name] + list(rec))) if rec else None
    if isinstance(v, (S.Limit,)):
        v = v.limit
    elif isinstance(v, S.Offset):
        v = v.offset
    elif isinstance(v, S.Granularity):
        v = v.granularity
    elif isinstance(v, S.Totals):
        v = v.totals
    elif isinstance(v, S.Extrapolate):
        v = v.extrapolate
    if name == "groupby" and kind == "formula" and r.random() < 0.5:
        v = next((p.groupby for p in rec.get("parameters") or () if isinstance(p, S.Timeseries)), v)
    if isinstance(v, list) and r.random() < 0.3:
        v = r.choice([list(v), v[::-1], v[:-1], v + v[:1], v[1:]])
    return v


def good(kind, name, r, rec=None):
    """a legal value for the setter"""
    if rec and r.random() < 0.15:
        v = own(kind, name, r, rec)
        if v is not None and not isinstance(v, S.Query) and SETTERS[kind][name][0](v) is True:
            return v
    if kind == "query":
        for _ in range(50):
            d = spec.Gen(r).query(r.choice([0, 0, 1]))
            if d[name] is not None and d[name] != () or (d[name] == () and name not in ("select", "array_join")):
                return d[name] if name in spec.SETTER_PLAIN else spec.build_field(name, d[name])
        raise Junk()
    if kind == "metrics":
        if name in ("limit", "offset"):
            return r.choice([1, 2, 10, 9999, 10000])
        if name == "extrapolate":
            return r.choice([True, False])
        if name == "indexer_mappings":
            return r.choice([{}, {"a": 1}, {"b": "x", "c": 2}])
        for _ in range(50):
            d = work.draw_metrics(r)
            if name == "query":
                if d.get("text") is not None or d.get("mql") is not None:
                    return work.build_metrics({"text": d.get("text"), "mql": d.get("mql")}, "x")[0].query
            elif d.get(name) is not None:
                return getattr(work.build_metrics({name: d[name]}, "x")[0], name)
        raise Junk()
    m = mql.MGen(r)
    if name == "metric":
        return mql.build(m.ts()).metric
    if name == "filters":
        return mql.opt(m.filters(), mql.build_filter) if r.random() < 0.9 else []
    if name == "groupby":
        g = m.group()
        return None if g is None else [S.Column(c) if r.random() < 0.8 else S.AliasedExpression(S.Column(c), "al") for c in g]
    if name == "parameters":
        mine = (rec or {}).get("groupby")
        mine = tuple(c.name for c in mine) if isinstance(mine, list) and kinds(mine, S.Column) and r.random() < 0.6 else m.group()
        return None if r.random() < 0.05 else [mql.build(m.ts(mine if r.random() < 0.5 else None)) if r.random() < 0.7 else r.choice([1, 2.5, 0, -3, S.Formula("plus", [S.Timeseries(Metric("x"), "sum"), 1])]) for _ in range(r.choice([0, 1, 2, 3, 3, 7]))]
    if name == "id":
        return r.choice([0, 1, 77, -5])
    return r.choice(["", "x", "d:a/b@c", "transactions", "é", "x y"])


def ids(r):
    n = r.choice([0, 1, 2, 3, 5, harvest.big(r, 200)])
    return [r.choice([0, 1, 2, 3, -1, 7, 2**63, r.randint(0, 1000)]) for _ in range(n)]


def start(kind, r):
    """a first object and its record"""
    if kind == "query":
        if r.random() < 0.6:
            m = spec.build(spec.Gen(r).entity())
            return S.Query(m), {"match": m}
        d = spec.Gen(r).query(0)
        kw = {f: spec.build_field(f, d[f]) for f in spec.FIELDS if d[f] is not None}
        return S.Query(**kw), kw
    if kind == "metrics":
        if r.random() < 0.5:
            return S.MetricsQuery(), {}
        o = work.build_metrics(work.draw_metrics(r), "x")[0]
        return o, {f: getattr(o, f) for f in ATTRS["metrics"]}
    m = mql.MGen(r)
    if kind in ("series", "metric"):
        o = mql.build(m.ts())
        if kind == "metric":
            o = r.choice([o.metric, Metric("x"), Metric("y", "d:a/b@c"), Metric(None, "m", 0), Metric("z", None, 3)])
    elif kind == "formula":
        g = m.group()
        o = mql.build(("fm", r.choice(["plus", "failure_rate"]), (m.ts(r.choice([None, g])), m.ts(r.choice([None, g, m.group()]))), r.choice([None, None, (), (10, "x")]), m.filters(), g))
        if r.random() < 0.05:
            o = S.Formula("plus")
    else:
        o = S.MetricsScope(ids(r), ids(r), r.choice([None, "transactions", "", "x"]))
    return o, {f: getattr(o, f) for f in ATTRS[kind]}


def attrs(o, kind):
    return {f: util.freeze(getattr(o, f)) for f in ATTRS[kind]}


def frozen(rec, kind):
    return {f: util.freeze(rec.get(f)) for f in ATTRS[kind]}


def render(o):
    out = [util.outcome(repr, o)]
    for m in ("validate", "serialize", "print"):
        if hasattr(o, m):
            out.append(util.outcome(getattr(o, m)))
    return out


def case(ctx):
    r = ctx.rng
    kind = r.choices(list(SETTERS), [45, 25, 10, 10, 6, 4])[0]
    obj, rec = start(kind, r)
    live = [(obj, rec, attrs(obj, kind), [])]
    calls, made = [], []
    for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14, 14, 25])):
        obj, rec, _, hist = live[-1] if r.random() < 0.75 else r.choice(live)
        name = r.choice(list(SETTERS[kind]) + (["aggregate"] if kind == "series" else []))
        if name == "aggregate":
            if not aggregate(ctx, r, obj, rec, live, hist):
                return
            calls.append("aggregate")
            continue
        ok, wrap = SETTERS[kind][name]
        legal_draw = r.random() < 0.7
        try:
            v = good(kind, name, r, rec) if legal_draw else bad(kind, name, r)
        except Junk:
            continue
        legal = ok(v)
        if legal is None:
            continue
        fv = util.freeze(v)
        try:
            new = getattr(obj, "set_" + name)(v)
        except Exception as e:
            if legal:
                ctx.violation("set_%s refused a legal value: %s: %s" % (name, type(e).__name__, str(e)[:300]), kind=kind, value=v)
                return
            if not util.is_sdk_error(e):
                ctx.violation("set_%s raised %s, which is not an SDK error" % (name, type(e).__name__), kind=kind, value=v, error=repr(e))
                return
            ctx.saw("illegal_calls")
            calls.append("!" + name)
        else:
            if not legal:
                ctx.violation("set_%s accepted a value of the wrong kind" % name, kind=kind, value=v, object=obj)
                return
            ctx.saw("legal_calls")
            calls.append(name)
            rec2 = dict(rec)
            rec2[name] = wrap(v) if wrap else v
            if type(new) is not CLASS[kind]:
                ctx.violation("set_%s returned a %s" % (name, type(new).__name__), kind=kind, value=v)
                return
            if attrs(new, kind) != frozen(rec2, kind):
                wrong = [f for f in ATTRS[kind] if attrs(new, kind)[f] != frozen(rec2, kind)[f]]
                ctx.violation("after set_%s the attributes %s are not as expected" % (name, wrong), kind=kind, value=v, before=obj, after=new)
                return
            live.append((new, rec2, attrs(new, kind), hist + [(name, v)]))
        if util.freeze(v) != fv:
            ctx.violation("set_%s changed its argument" % name, kind=kind, before=fv, after=v)
            return
        for o, _, a, _ in live:
            if attrs(o, kind) != a:
                ctx.violation("set_%s changed an object other than its result" % name, kind=kind, value=v, object=o, was=a)
                return
    obj, rec, _, hist = live[-1]
    if len(calls) >= 2:
        ctx.distinct(kind + " " + " ".join(calls))
    # at once, and in another order
    try:
        once = CLASS[kind](**{f: v for f, v in rec.items() if v is not None or f in ("metric", "aggregate", "function_name", "org_ids", "project_ids")})
    except Exception as e:
        if util.is_sdk_error(e):
            ctx.violation("setters gave an object whose attributes cannot be given at once: %s" % e, kind=kind, record=rec)
            return
        raise
    if once != obj or obj != once or render(once) != render(obj):
        ctx.violation("built step by step and built at once differ", kind=kind, steps=obj, once=once, rendered=render(obj), once_rendered=render(once))
        return
    last = {}
    for name, v in hist:
        last.pop(name, None)
        last[name] = v
    if "aggregate" not in last:
        names = list(last)
        r.shuffle(names)
        o = live[0][0]
        for n in names:
            o = getattr(o, "set_" + n)(last[n])
        if o != obj or attrs(o, kind) != attrs(obj, kind):
            ctx.violation("the same setters in another order give another object", kind=kind, order=names, first=obj, second=o)
            return
        ctx.saw("orders")
    ctx.saw("final_equal")
    if len(repr(obj)) < 250:
        ctx.sample("%s: %s -> %r" % (kind, " ".join(calls), obj))


def bad(kind, name, r):
    """a value of a kind that the setter should refuse (sometimes a list with one wrong element)"""
    if r.random() < 0.3:
        try:
            v = good(kind, name, r)
        except Junk:
            v = None
        if isinstance(v, list):
            v = list(v)
            if v and r.random() < 0.3:  # a long list with one wrong element, often the last
                v = (v * 200)[: harvest.big(r, 200)]
                if r.random() < 0.5:
                    v.append(r.choice([None, 5, "x", objects(r), S.Op.EQ, [], S.Direction.ASC]))
                    return v
            v.insert(r.randint(0, len(v)), r.choice([None, 5, "x", objects(r), S.Op.EQ, [], S.Direction.ASC]))
            return v
        if isinstance(v, bool):
            return r.choice([1, 0, "true", None])
        if isinstance(v, int):
            return r.choice([0, -1, 10001, 10**9, float(v), str(v), None])
        if isinstance(v, datetime):
            return r.choice([v.isoformat(), v.date(), v.timestamp()])
        if isinstance(v, S.Query) and r.random() < 0.9:
            q = S.Query(v.match, select=r.choice([None, []]))
            VALID_INNER[id(q)] = False
            KEEP.append(q)
            return q
    return junk(r)


KEEP = []  # keeps ids unique


def aggregate(ctx, r, obj, rec, live, hist):
    name = r.choice(["p95", "sum", "", "quantiles", 5, None, ["x"]])
    params = r.choice(["absent", None, [], [0.5], [0.5, "x"], (0.5,), "x", 5, {"a": 1}])
    legal = isinstance(name, str) and (params in ("absent", None) or isinstance(params, list))
    try:
        new = obj.set_aggregate(name) if params == "absent" else obj.set_aggregate(name, params)
    except Exception as e:
        if legal or not util.is_sdk_error(e):
            ctx.violation("set_aggregate raised %s" % type(e).__name__, name=name, params=params, error=repr(e))
            return False
        ctx.saw("illegal_calls")
    else:
        if not legal:
            ctx.violation("set_aggregate accepted a value of the wrong kind", name=name, params=params)
            return False
        ctx.saw("legal_calls")
        rec2 = dict(rec, aggregate=name, aggregate_params=None if params == "absent" else params)
        if type(new) is not S.Timeseries or attrs(new, "series") != frozen(rec2, "series"):
            ctx.violation("set_aggregate gave other attributes", name=name, params=params, before=obj, after=new)
            return False
        live.append((new, rec2, attrs(new, "series"), hist + [("aggregate", name)]))
    for o, _, a, _ in live:
        if attrs(o, "series") != a:
            ctx.violation("set_aggregate changed another object", name=name, params=params, object=o, was=a)
            return False
    return True
