"""C17: every input gets a result or an SDK error; what validates can be rendered."""
import re
from datetime import datetime

import snuba_sdk as S
from snuba_sdk.mql.mql import parse_mql

import checks.c06 as c06
import checks.c10 as c10
import checks.c11 as c11
import harvest
import mql
import mqltext
import spec
import util
import work

PROPERTY = "C17"
RULE = (
    "(a) SnQL queries assembled from legal parts without regard to consistency (dropped or emptied clauses, columns from other scopes, joins with unqualified columns, totals without group by, "
    "inconsistent inner queries): either validate, serialize, print, str and a request all succeed or all raise errors defined by the SDK. (b) Metrics queries with missing or odd parts: never anything but an SDK error. "
    "(c) Strings as MQL: generated, mutated (characters inserted, deleted, replaced, spliced; dictionary tokens) and random; each is rejected with an SDK error or accepted, and then its MQL is accepted again and "
    "parses to an equivalent query; print and str work too. (d) Constructor calls of expressions and metrics objects with legal and illegal arguments: an object or an SDK error. Distinct by text; non-trivial: accepted, or rejected after at least one mutation of a legal input."
)
ASSUMPTIONS = [
    "expressions nested less than about 30 levels (Python's recursion limit bounds the rest)",
    "a metrics query that validates may still be refused by serialize with an SDK error (missing indexer mappings, filters MQL cannot express)",
]
BUDGET = {"quick": 70000, "thorough": 1500000}
FLOOR = {"evaluations": 12000, "mql_accepted": 2500, "mql_rejected": 2500, "query_accepted": 1500, "query_rejected": 1500, "constructed": 500, "construction_refused": 500, "distinct": 8000}

WORDS = ["sum(foo)", "by", "AND", "OR", "and", "or", "(", ")", "{", "}", "[", "]", ",", ":", "!", "+", "-", "*", "/", "`", '"', "'", "\\", "$x", "5", "0.5", "1e5", " ", "\n", "\t", "\r",
         "avg", "d:transactions/duration@millisecond", "a:b", "a:[b,c]", 'a:"b c"', "foo.bar", "\u00a0", "\u2028", "é", "\0", "x*", '"x*"', "[x*]", "by (a, b)", "by a", "()", "{}", "quantiles(0.5)", "NULL",
         "%", "#", ";", "=", "--", "f(g)(h)", "😀", "\ufeff", "\\\"", "\\n", "{{", "}}", "0", "00", "-1", "1.", ".5", "1_0", "٣"]


PARENS = re.compile(r"\(`[^`(]*\)\s*\([^`]*`\)")


def mq(text, **kw):
    return S.MetricsQuery(text, datetime(2024, 1, 1), datetime(2024, 1, 2), S.Rollup(interval=60, granularity=60), S.MetricsScope([1], [2], "x"), indexer_mappings={}, **kw)


def mutate(s, other, r):
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        i = r.randint(0, len(s))
        j = min(len(s), i + r.choice([1, 1, 2, 5]))
        k = r.random()
        if k < 0.25:
            s = s[:i] + s[j:]
        elif k < 0.5:
            s = s[:i] + r.choice(WORDS) + s[i:]
        elif k < 0.65:
            s = s[:i] + r.choice(WORDS) + s[j:]
        elif k < 0.75:
            s = s[:i] + s[i:j] * 2 + s[j:]
        elif k < 0.85:
            a, b = sorted((r.randint(0, len(other)), r.randint(0, len(other))))
            s = s[:i] + other[a:b] + s[i:]
        elif k < 0.92:
            s = s[:i] + r.choice(harvest.CHARS or ["a"]) + s[i:]
        else:
            s = s[:i] + chr(r.choice([r.randint(0, 127), r.randint(128, 0x2FFF)])) + s[j:]
    return s


def long(r):
    """a text of thousands of characters, right or wrong, often only at its end"""
    k = r.random()
    n = r.choice([200, 1000, 2100, 5000]) if r.random() < 0.7 else harvest.big(r)
    unit = r.choice(["x", "ab ", "é", "\n", "日本", "a\\\"", "'", "(", "a*"])
    if k < 0.35:
        s = 'sum(foo){a:"%s"}' % (unit * (n // len(unit)))
    elif k < 0.45:
        big = r.choice(["9" * r.choice([300, 308, 309, 310, 400, n]), "1" + "0" * r.choice([300, 307, 308, 309, 400]), "0." + "0" * r.choice([300, 330, n]) + "1", "17976931348623157" + r.choice("0589") * 292])
        s = r.choice(["sum(foo) * %s", "%s", "-%s + sum(foo)", "quantiles(%s)(foo)", "apdex(sum(foo), %s)", "sum(foo){a:%s}", "topK(1, %s)(sum(foo))"]) % big
    elif k < 0.55:
        s = "sum(foo){a:[%s]}" % ",".join('"v%d"' % i for i in range(n // 6))
    elif k < 0.65:
        s = "sum(foo){%s}" % r.choice([" AND ", " OR ", ", ", " "]).join("k%d:v" % i for i in range(min(60, n // 6)))
    elif k < 0.8:
        s = "sum(foo) by (%s)" % ", ".join("k%d" % i for i in range(n // 6))
    else:
        s = "quantiles(%s)(foo)" % ",".join("0.%d" % i for i in range(n // 6))
    if r.random() < 0.5:
        return s, False
    tail = r.choice(WORDS)
    i = len(s) - r.choice([0, 0, 1, 2, 3])
    return s[:i] + tail + s[i:], True


def a_string(r):
    """-> text, mutated?"""
    if r.random() < 0.02:
        return long(r)

    def good():
        t = mqltext.Text(r, depth=r.choice([0, 0, 1, 1, 2]))
        return mqltext.layout(t.query()[0], r)

    k = r.random()
    if k < 0.25:
        return good(), False
    if k < 0.8:
        return mutate(good(), good(), r), True
    if k < 0.9:
        return "".join(r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 3, 6, 12]))), True
    return spec.Gen(r).string(), True


def case_mql(ctx):
    r = ctx.rng
    text, mutated = a_string(r)
    check_text(ctx, text, mutated)


def known_inputs(ctx):
    check_text(ctx, 'sum(foo){a:"b\\c"}', False)
    check_text(ctx, "`a)(x) c:b/c@d`", False)


def check_text(ctx, text, mutated):
    r = ctx.rng
    try:
        q = mq(text)
        q.validate()
        one = q.serialize()["mql"]
    except Exception as e:
        if not util.is_sdk_error(e):
            ctx.violation("a string given as MQL failed with %s" % type(e).__name__, text=text, error=repr(e))
            return
        ctx.saw("mql_rejected")
        if mutated:
            ctx.distinct(text)
        for how in ("print", "serialize", "str"):
            try:
                mq(text).serialize() if how == "serialize" else mq(text).print() if how == "print" else str(mq(text))
            except Exception as e2:
                if not util.is_sdk_error(e2):
                    ctx.violation("%s of a refused string raised %s" % (how, type(e2).__name__), text=text, error=repr(e2))
                    return
        return
    ctx.saw("mql_accepted")
    ctx.distinct(text)
    q.print(), str(q), q.serialize(), S.Request("ds", "app", q).to_dict(), S.Request("ds", "app", q).print()
    if not isinstance(one, str):
        ctx.violation("the MQL is not text", text=text, mql=one)
        return
    try:
        before = mql.unbuild(parse_mql(text))
        two = mq(one).serialize()["mql"]
        after = mql.unbuild(parse_mql(one))
    except Exception as e:
        if PARENS.search(one) and util.is_sdk_error(e) and ctx.known_finding("mql-quoted-mri-parentheses", repr(text)[:80]):
            return
        ctx.violation("the MQL of an accepted string is not accepted again", text=text, mql=one, error=repr(e))
        return
    why = mql.differ(mql.nf(before), mql.nf(after), r)
    grown = c10.map_spec(before, c10.esc_cond, c10.esc_param)
    if why and "\\" in one and any(mql.differ(mql.nf(x), mql.nf(after), r) is None for x in (grown, c10.map_spec(grown, c10.wild_cond, c10.same))):
        if ctx.known_finding("mql-escape-grows", repr(text)[:80]):
            return
    if why:
        ctx.violation("the MQL of an accepted string means something else: %s" % why, text=text, mql=one)
        return
    if two != one:
        ctx.saw("rewritten_once")
        if mq(two).serialize()["mql"] != two:
            ctx.saw("rewritten_twice")
    ctx.saw("stable")
    if mutated:
        ctx.saw("mutated_accepted")
        ctx.sample(repr(text))


def case_query(ctx):
    r = ctx.rng
    g = spec.Gen(r, r.choice([0.0, 0.3, 1.0]))
    q = g.query(r.choice([0, 0, 1, 2]))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        q = dict(q)
        k = r.random()
        other = spec.Gen(r).query(0)
        if k < 0.45:  # a clause from another query
            f = r.choice(spec.FIELDS)
            if f == "match" and q["match"][0] == "query":
                continue
            q[f] = other[f]
        elif k < 0.6:
            f = r.choice(("select", "groupby", "where", "having", "orderby"))
            q[f] = r.choice([None, ()])
        elif k < 0.7:
            q["totals"] = r.choice([True, False])
        elif k < 0.85:
            m = q["match"]
            q["match"] = ("query", q if m[0] != "query" else m[1]) if r.random() < 0.5 else other["match"]
            if q["match"][0] == "query" and q["match"][1] is q:
                q["match"] = m
        else:
            inner = dict(q)
            q = dict(other, match=("query", inner))
    res = {}
    try:
        query = spec.build_query(q)
    except Exception as e:
        if not util.is_sdk_error(e):
            ctx.violation("building a query from legal parts raised %s" % type(e).__name__, spec=q, error=repr(e))
            return
        ctx.saw("query_rejected")
        ctx.saw("refused_at_construction")
        ctx.distinct("R" + repr(q))
        return
    for how in ("validate", "serialize", "print", "str", "request"):
        try:
            out = str(query) if how == "str" else S.Request("ds", "app", query).to_dict()["query"] if how == "request" else getattr(query, how)()
            res[how] = None
            if how != "validate" and (not isinstance(out, str) or not out):
                ctx.violation("%s returned %r" % (how, out), spec=q)
                return
        except Exception as e:
            if not util.is_sdk_error(e):
                ctx.violation("%s raised %s, which is not an SDK error" % (how, type(e).__name__), spec=q, error=repr(e))
                return
            res[how] = type(e).__name__
    if len({v is None for v in res.values()}) > 1:
        ctx.violation("validating and rendering disagree", outcomes=res, spec=q)
        return
    ctx.saw("query_accepted" if res["validate"] is None else "query_rejected")
    ctx.distinct(repr(q))


def case_metrics(ctx):
    r = ctx.rng
    d = work.draw_metrics(r)
    for _ in range(r.choice([0, 1, 2])):
        d.pop(r.choice(sorted(d)), None)
    if d.get("mql") is not None and r.random() < 0.4:
        op = work.Op("metrics", d, "serialize")
        op = work.sibling(op, r)
        d = op.data
        how = op.how
    try:
        m = work.build_metrics(d, "x")[0]
    except Exception as e:
        if not util.is_sdk_error(e):
            raise
        ctx.saw("metrics_rejected")
        return
    try:
        m.validate()
        ok = True
    except Exception as e:
        if not util.is_sdk_error(e):
            ctx.violation("validating a metrics query raised %s" % type(e).__name__, data=d, error=repr(e))
            return
        ok = False
    for how in ("serialize", "print", "request"):
        try:
            m.serialize() if how == "serialize" else m.print() if how == "print" else S.Request("ds", "app", m).to_dict()
        except Exception as e:
            if not util.is_sdk_error(e):
                ctx.violation("%s of a metrics query raised %s" % (how, type(e).__name__), data=d, error=repr(e))
                return
            continue
        if not ok:
            ctx.violation("%s rendered a metrics query that does not validate" % how, data=d)
            return
    ctx.saw("metrics_accepted" if ok else "metrics_rejected")


def case_construct(ctx):
    """any arguments: an object or an SDK error, never something else"""
    r = ctx.rng
    d = c06.D(r)
    cls = r.choice(c06.CLASSES + ["Metric", "Timeseries", "Rollup", "MetricsScope"])
    if cls in c06.CLASSES:
        args, kw = c06.draw(d, cls)[0], {}
    else:
        got = {"Metric": c11.draw_metric, "Timeseries": c11.draw_timeseries, "Rollup": c11.draw_rollup, "MetricsScope": c11.draw_scope}[cls](d)[0]
        args, kw = (got, {}) if isinstance(got, list) else ([], got)
    make = c11.Metric if cls == "Metric" else getattr(S, cls)
    try:
        o = make(*args, **kw)
    except Exception as e:
        if not util.is_sdk_error(e):
            ctx.violation("constructing %s raised %s" % (cls, type(e).__name__), args=args or kw, error=repr(e))
            return
        ctx.saw("construction_refused")
        ctx.distinct(cls + repr(args or kw))
        return
    if not isinstance(o, make):
        ctx.violation("%s() is a %s" % (cls, type(o).__name__), args=args or kw)
        return
    repr(o)
    ctx.saw("constructed")


def case(ctx):
    k = ctx.rng.random()
    if k < 0.06:
        case_construct(ctx)
        return
    k = ctx.rng.random()
    if k < 0.55:
        case_mql(ctx)
    elif k < 0.9:
        case_query(ctx)
    else:
        case_metrics(ctx)
