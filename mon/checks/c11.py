"""C11: metrics objects are accepted exactly when they are legal."""
from datetime import date, datetime, timezone

import harvest
import mql
import mqltext
import snuba_sdk as S
import util
from checks.c06 import D, Odd
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.timeseries import InvalidTimeseriesError, Metric

PROPERTY = "C11"
RULE = (
    "Constructor and validate calls of Metric, Timeseries, Rollup, MetricsScope, Formula (trees up to depth 6) and "
    "MetricsQuery; each argument is drawn legal or illegal (wrong types, wrong element at any position of a list, "
    "integers around every boundary, illegal parameters and differing groupings at any depth of a formula tree, "
    "attributes replaced after creation). Legality is decided by rules written down here. Observed: object or exception class, "
    "attributes of the object, and for refused metrics queries that serialize, print and requests refuse too. "
    "Distinct by class and arguments; non-trivial: all."
)
ASSUMPTIONS = [
    "not judged (unspecified): bool where int is expected, granularity given as an equal float, empty names, empty groupings inside one formula, "
    "a str passed as a sequence, filters and grouping of wrong type handed directly to the Formula constructor",
]
BUDGET = {"quick": 700000, "thorough": 4000000}
FLOOR = {"evaluations": 15000, "accepted": 6000, "rejected": 6000, "distinct": 8000}


def opt_str(d, p=0.5):
    r = d.r
    if d.bad() and r.random() < 0.5:
        return r.choice([1, b"a", ["a"], 1.5, d.junk(), ("a",)]), False
    return (None if r.random() < p else r.choice(["a", "foo", "d:custom/x@none", "x.y"])), True


def draw_metric(d):
    r = d.r
    n, nl = opt_str(d)
    m, ml = opt_str(d)
    i, il = (None, True) if r.random() < 0.6 else (r.choice([0, 1, -5, 2**64]), True)
    if d.bad() and r.random() < 0.3:
        i, il = r.choice(["1", 1.5, b"1", [1], d.junk()]), False
    legal = nl and ml and il and not (n is None and m is None)
    kw = {}
    if n is not None or r.random() < 0.3:
        kw["public_name"] = n
    if m is not None or r.random() < 0.3:
        kw["mri"] = m
    if i is not None or r.random() < 0.3:
        kw["id"] = i
    return kw, legal, {"public_name": n, "mri": m, "id": i}


def a_cond(d):
    r = d.r
    c = S.Condition(S.Column(r.choice(["a", "b"])), S.Op.EQ, r.choice(["x", "y"]))
    return r.choice([c, c, S.Or([c, c]), S.BooleanCondition(S.BooleanOp.AND, [c, c])])


def item_list(d, good, bad):
    """None or a list with possibly one bad element, or not a list at all"""
    r = d.r
    k = r.random()
    if k < 0.3:
        return None, True
    out = [good() for _ in range(r.choice([0, 1, 2, 5]))]
    if out and r.random() < 0.05:
        out = (out * 200)[: harvest.big(r, 200)]
    if d.bad():
        if r.random() < 0.35:
            return r.choice([tuple(out), 1, "ab", {"a": 1}, Odd(), set(), S.Column("a")]), False
        out.insert(r.choice([r.randint(0, len(out)), len(out)]), bad())
        return out, False
    return out, True


def draw_timeseries(d):
    r = d.r
    m, ml = Metric(r.choice(["a", "b"])), True
    if d.bad() and r.random() < 0.3:
        m, ml = r.choice(["a", None, 1, d.junk(), S.Column("a"), {"public_name": "a"}]), False
    a, al = r.choice(["sum", "count", "p95"]), True
    if d.bad() and r.random() < 0.3:
        a, al = r.choice([None, 1, b"sum", ["sum"], d.junk(), S.Function("sum", [])]), False
    p, pl = item_list(d, d.literal, lambda: r.choice([S.Column("a"), [1], (1,), {"a": 1}, S.Function("ff", []), Odd(), {1}, 1j]))
    f, fl = item_list(d, lambda: a_cond(d), lambda: r.choice([S.Column("a"), None, "a:b", 1, S.Function("ff", []), Odd(), [a_cond(d)]]))
    g, gl = item_list(
        d, lambda: r.choice([S.Column("a"), S.Column("tags[b]"), S.AliasedExpression(S.Column("a"), "x")]),
        lambda: r.choice(["a", None, 1, S.Function("ff", []), Odd(), a_cond(d), [S.Column("a")], S.Metric("x") if hasattr(S, "Metric") else 5]),
    )
    return [m, a, p, f, g], ml and al and pl and fl and gl, {"metric": m, "aggregate": a, "aggregate_params": p, "filters": f, "groupby": g}


GRANULARITIES = (10, 60, 3600, 86400)


def draw_rollup(d):
    r = d.r
    legal = True
    interval = totals = orderby = gran = None
    if r.random() < 0.7:
        interval = r.choice([10, 11, 60, 61, 59, 3600, 3599, 86400, 86399, 86401, 604800, 10**9])
        if d.bad():
            interval = r.choice([9, 0, -1, -10, 1, 5, 60.0, "60", 10.5, [60], d.junk(), b"60"] + harvest.INTS)
        if not isinstance(interval, int) or interval < 10:
            legal = False
    if r.random() < 0.5:
        totals = r.choice([True, False])
        if d.bad() and r.random() < 0.5:
            totals, legal = r.choice([0, 1, "True", "", [], 1.0, d.junk()]), False
    if r.random() < 0.75:
        gran = r.choice(GRANULARITIES)
        if d.bad():
            gran = r.choice([0, 1, 9, 11, -10, 30, 59, 61, 100, 3599, 3601, 7200, 86399, 86401, 100000, "60", [60], "", d.junk()] + harvest.INTS)
        if not isinstance(gran, int) or gran not in GRANULARITIES:
            legal = False
    if r.random() < 0.3:
        orderby = r.choice([S.Direction.ASC, S.Direction.DESC])
        if d.bad() and r.random() < 0.4:
            orderby, legal = r.choice(["ASC", 1, S.OrderBy(S.Column("a"), S.Direction.ASC), d.junk(S.Direction), 0, ""]), False
    if legal:
        if interval is None and totals is None:
            legal = False
        elif interval is not None and orderby is not None:
            legal = False
        elif interval is not None and gran is not None and interval < gran:
            legal = False
    return dict(interval=interval, totals=totals, orderby=orderby, granularity=gran), legal, dict(
        interval=interval, totals=totals, orderby=orderby, granularity=gran
    )


def draw_scope(d):
    r = d.r

    def ids():
        out = [r.choice([0, 1, 2, -1, 2**63]) for _ in range(r.choice([0, 1, 3, 8]) if r.random() < 0.95 else harvest.big(r, 200))]
        if d.bad():
            if r.random() < 0.4:
                return r.choice([tuple(out), None, 1, "12", {1}, {1: 2}, Odd(), range(3)]), False
            out.insert(r.choice([r.randint(0, len(out)), len(out)]), r.choice(["1", None, 1.0, [1], b"1", Odd()]))
            return out, False
        return out, True

    o, ol = ids()
    p, pl = ids()
    u, ul = opt_str(d)
    return [o, p, u], ol and pl and ul, {"org_ids": o, "project_ids": p, "use_case_id": u}


def draw_formula(d):
    """formula trees; legality by the rules: parameter types everywhere, one grouping, a timeseries somewhere"""
    r = d.r
    groups = [[S.Column("a")], [S.Column("a"), S.Column("b")], [S.Column("b"), S.Column("a")], [S.Column("a"), S.Column("a")], [S.Column("b")], [S.Column(c) for c in "abcde"], [S.Column(c) for c in "abdce"], [S.AliasedExpression(S.Column("a"), "x")], [S.Column("tags[a]")]]
    main = r.choice(groups + [None])
    state = {"groups": set(), "ts": False, "bad": False}
    p_group = r.choice([0.0, 0.3, 1.0])
    p_diff = 0.15 if d.bad() else 0.0
    p_badparam = 0.12 if d.bad() else 0.0
    only_numbers = d.bad() and r.random() < 0.15
    fuel = [r.choice([4, 10, 30])]

    def group():
        g = main if r.random() < p_group else None
        if r.random() < p_diff:
            g = r.choice(groups)
        if g is not None:
            state["groups"].add(repr(g))
            return list(g)
        return None

    def param(depth):
        fuel[0] -= 1
        k = r.random()
        if r.random() < p_badparam:
            state["bad"] = True
            return r.choice(["a", "5", None, [1], Odd(), S.Column("a"), S.Function("ff", []), Metric("x"), b"1", 1j, ()])
        if only_numbers or k < 0.25:
            if depth > 0 and only_numbers and k < 0.3 and fuel[0] > 0:
                return formula(depth - 1)
            return r.choice([0, 1, -5, 0.5, 1e9])
        if k < 0.7 or depth == 0 or fuel[0] <= 0:
            state["ts"] = True
            return S.Timeseries(
                r.choice([Metric("m"), Metric(None, "d:a/b@c"), Metric("m", None, 5)]), r.choice(["sum", "avg", "p95"]),
                r.choice([None, None, [], [0.5]]), r.choice([None, None, [], [a_cond(d)]]), group(),
            )
        return formula(depth - 1)

    def formula(depth, top=False):
        n = r.choice([1, 2, 2, 3, 6])
        if r.random() < 0.03:
            n = r.choice([0, 12, 25, 40])
        ps = [param(depth) for _ in range(n)]
        ps = tuple(ps) if r.random() < 0.2 else ps
        name = r.choice(["plus", "divide", "apdex", "negate"])
        if r.random() < p_badparam * 0.4:
            state["bad"] = True
            if r.random() < 0.5:
                ps = r.choice([None, 5, Odd(), {1: 2}, {1}])
            else:
                name = r.choice([None, 1, b"plus", ["plus"]])
        params = r.choice([None, None, [], [10], ["a", 1.5], [True, 3]])
        return S.Formula(name, ps, params, r.choice([None, None, [], [a_cond(d)], [a_cond(d), a_cond(d)]]), group())

    f = formula(r.choice([0, 1, 2, 6]), True)

    # legality is judged on what is really in the tree (a replaced parameter list drops its content)
    def walk(x):
        if isinstance(x, S.Timeseries):
            return True, [x.groupby] if x.groupby is not None else [], False
        if isinstance(x, S.Formula):
            gs = [x.groupby] if x.groupby is not None else []
            if not isinstance(x.function_name, str) or not isinstance(x.parameters, (list, tuple)):
                return False, gs, True
            ts = bad = False
            for p in x.parameters:
                a, b, c = walk(p)
                ts, bad = ts or a, bad or c
                gs = gs + b
            return ts, gs, bad
        return False, [], not isinstance(x, (int, float))

    ts, gs, bad = walk(f)
    legal = ts and not bad and len({repr(g) for g in gs}) <= 1
    return f, legal


def draw_query(d, ctx):
    r = d.r
    legal = True
    k = r.random()
    if k < 0.45:
        q = S.Timeseries(Metric("m"), "sum")
    elif k < 0.75:
        q, legal = draw_formula(d)
    else:
        t = mqltext.Text(r, depth=r.choice([0, 0, 1]))
        toks, s = t.query()
        gs = set()

        def walk(x):
            if x[0] != "num" and x[5]:
                gs.add(x[5])
            if x[0] == "fm":
                for o in x[2]:
                    walk(o)

        walk(s)
        if s[0] == "fm" and len(gs) > 1:
            legal = False
        q = mqltext.layout(toks, r)
        if d.bad() and r.random() < 0.5:
            q, _ = mqltext.broken(toks, r)
            legal = False
    if d.bad() and r.random() < 0.3:
        q, legal = r.choice([None, 5, ["sum(a)"], d.junk(), S.Column("a"), Metric("x"), b"sum(a)", 1.5]), False
    kw = {"query": q}

    def field(name, good, junk, required=True):
        nonlocal legal
        if d.bad() and r.random() < 0.25:
            v = r.choice(junk)
            if required and r.random() < 0.4:
                v = None
                if r.random() < 0.5:
                    legal = False
                    return
            elif not required and v is None:
                v = good()
                kw[name] = v
                return
            kw[name] = v
            legal = False
            return
        if not required and r.random() < 0.5:
            if r.random() < 0.5:
                kw[name] = None
            return
        kw[name] = good()

    dates = [datetime(2024, 1, 1), datetime(2024, 1, 2, 3, 4, 5, 6, tzinfo=timezone.utc), datetime(1970, 1, 1)]
    field("start", lambda: r.choice(dates), ["2024-01-01", 0, 1.5, date(2024, 1, 1), d.junk()])
    field("end", lambda: r.choice(dates), ["2024-01-01", 0, 1.5, date(2024, 1, 1), d.junk()])
    field("rollup", lambda: r.choice([S.Rollup(interval=60, granularity=60), S.Rollup(totals=True, granularity=10), S.Rollup(totals=False, granularity=3600, orderby=S.Direction.ASC)]),
          [60, {"interval": 60}, d.junk(), S.Granularity(60), S.Rollup(interval=60), S.Rollup(totals=True)])
    field("scope", lambda: r.choice([S.MetricsScope([1], [2]), S.MetricsScope([], [], "x")]), [[1], {"org_ids": [1]}, d.junk(), 1, ([1], [2], "x")])
    field("limit", lambda: S.Limit(r.choice([1, 10000])), [5, "5", d.junk(), S.Offset(1), 0], False)
    field("offset", lambda: S.Offset(r.choice([0, 5])), [5, "5", d.junk(), S.Limit(1), 0], False)
    field("extrapolate", lambda: S.Extrapolate(r.choice([True, False])), [True, False, "x", d.junk(), 1], False)
    field("indexer_mappings", lambda: r.choice([{}, {"a": 1}]), ["x", 5, [("a", 1)], [], Odd()], False)
    return kw, legal


FAMILY = {"Metric": InvalidTimeseriesError, "Timeseries": InvalidTimeseriesError, "Rollup": InvalidExpressionError, "MetricsScope": InvalidExpressionError}


def case(ctx):
    r = ctx.rng
    d = D(r)
    cls = r.choices(["Metric", "Timeseries", "Rollup", "MetricsScope", "Formula", "MetricsQuery"], [2, 3, 4, 2, 4, 5])[0]
    want = {}
    if cls == "Metric":
        args, legal, want = draw_metric(d)
        make = lambda: Metric(**args)
    elif cls == "Timeseries":
        args, legal, want = draw_timeseries(d)
        make = lambda: S.Timeseries(*args)
    elif cls == "Rollup":
        args, legal, want = draw_rollup(d)
        make = lambda: S.Rollup(**args)
    elif cls == "MetricsScope":
        args, legal, want = draw_scope(d)
        make = lambda: S.MetricsScope(*args)
    elif cls == "Formula":
        args, legal = draw_formula(d)

        def make():
            args.validate()
            return args
    else:
        args, legal = draw_query(d, ctx)

        def make():
            q = S.MetricsQuery(**args)
            q.validate()
            return q

    show = "%s %r" % (cls, args)
    obj = err = None
    try:
        obj = make()
    except Exception as e:
        err = e
    ctx.distinct(show)
    if err is not None and not util.is_sdk_error(err):
        ctx.violation("%s failed with %s, which is not an SDK error" % (cls, type(err).__name__), call=show, error=repr(err), legal=legal)
        return
    if err is not None and cls in FAMILY and not isinstance(err, (InvalidTimeseriesError, InvalidExpressionError)):
        ctx.violation("%s failed with %s" % (cls, type(err).__name__), call=show, error=repr(err))
        return
    if legal and err is not None:
        ctx.violation("a legal %s was rejected" % cls, call=show, error=repr(err))
        return
    if not legal and err is None:
        ctx.violation("an illegal %s was accepted" % cls, call=show)
        return
    ctx.saw("accepted" if legal else "rejected")
    ctx.saw(cls + (" accepted" if legal else " rejected"))
    if legal:
        for k, v in want.items():
            if util.freeze(getattr(obj, k)) != util.freeze(v):
                ctx.violation("%s.%s is not what was given" % (cls, k), call=show, got=getattr(obj, k))
                return
    if cls == "Formula":
        mq = S.MetricsQuery(args, datetime(2024, 1, 1), datetime(2024, 1, 2), S.Rollup(interval=60, granularity=60), S.MetricsScope([1], [2]), indexer_mappings={})
    elif cls == "MetricsQuery":
        mq = S.MetricsQuery(**args)
    elif cls == "Timeseries" and legal and r.random() < 0.5:
        # attributes replaced after creation are caught when the query is validated
        bad = r.choice([("metric", "x"), ("aggregate", 5), ("aggregate_params", (1,)), ("aggregate_params", [[1]]), ("filters", (1,)), ("filters", ["a:b"]), ("groupby", "a"),
                        ("groupby", [S.Column("a"), "b"]), ("metric", None), ("aggregate", None)])
        setattr(obj, *bad)
        show = "%s then %s=%r" % (show, bad[0], bad[1])
        legal = False
        mq = S.MetricsQuery(obj, datetime(2024, 1, 1), datetime(2024, 1, 2), S.Rollup(interval=60, granularity=60), S.MetricsScope([1], [2]), indexer_mappings={})
    elif cls == "MetricsScope" and legal and r.random() < 0.5:
        bad = r.choice([("org_ids", (1,)), ("org_ids", [1, "2"]), ("project_ids", None), ("project_ids", 5), ("use_case_id", 5), ("use_case_id", ["x"]), ("org_ids", "append"), ("project_ids", "append")])
        if bad[1] == "append":
            getattr(obj, bad[0]).append("7")
        else:
            setattr(obj, *bad)
        show = "%s then %s: %r" % (show, bad[0], bad[1])
        legal = False
        mq = S.MetricsQuery(S.Timeseries(Metric("m"), "sum"), datetime(2024, 1, 1), datetime(2024, 1, 2), S.Rollup(interval=60, granularity=60), obj, indexer_mappings={})
    else:
        if not legal:
            ctx.sample("rejected: " + show)
        return
    if legal and cls == "MetricsQuery":
        # a legal query, checked, and then one of its parts replaced
        part, v = r.choice([("query", 5), ("query", None), ("query", "sum("), ("start", None), ("start", "2024-01-01"), ("end", None), ("end", 0), ("rollup", None), ("rollup", 60), ("scope", None), ("scope", [1]), ("limit", 5), ("limit", 0),
                            ("offset", 5), ("offset", "x"), ("extrapolate", True), ("extrapolate", "x"), ("indexer_mappings", 5), ("rollup", S.Rollup(interval=60))])
        obj.validate()
        setattr(obj, part, v)
        show = "%s then %s=%r" % (show, part, v)
        mq, legal = obj, False
    if legal:
        return
    for how in ("validate", "serialize", "print", "request"):
        try:
            out = S.Request("d", "a", mq).to_dict() if how == "request" else getattr(mq, how)()
        except Exception as e:
            if util.is_sdk_error(e):
                continue
            ctx.violation("%s of an illegal metrics query raised %s" % (how, type(e).__name__), call=show, error=repr(e))
            return
        ctx.violation("%s accepted an illegal metrics query" % how, call=show, out=out)
        return
    ctx.saw("refused_everywhere")
