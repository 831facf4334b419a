"""C10: metrics queries survive printing to MQL and parsing back."""
import json
import re
from datetime import datetime

import mql
import mqltext
import snuba_sdk as S
import util
from snuba_sdk.mql.mql import parse_mql

PROPERTY = "C10"
RULE = (
    "Random timeseries and formulas (nested arithmetic, functions, negation, parameters, filters, groupings, MRIs that need "
    "quoting, hostile string values, numbers of every magnitude), and random MQL strings, are put in a metrics query. "
    "Monitors on serialize, print, str and request payload: an independent MQL reader gives the expression the text denotes, "
    "the SDK's own parser parses it, and both are compared with the expression given (filters on sampled rows). "
    "One in ten cases uses a condition or number MQL cannot express and must raise an SDK error. Distinct by MQL text; non-trivial: all."
)
ASSUMPTIONS = [
    "not judged (MQL cannot express them, unspecified): non-string right hand sides, = with a list, LIKE patterns that are not suffix wildcards, tags[x] keys, "
    "aliases in group by, MRIs containing backticks or a comma in the name, infix formulas with fewer than two operands, nan and inf",
]
BUDGET = {"quick": 70000, "thorough": 500000}
FLOOR = {"evaluations": 3000, "round_trips": 4000, "refused": 300, "from_text": 400, "distinct": 2500}


def context(r):
    return dict(
        start=datetime(2024, 1, 1), end=datetime(2024, 1, 2), rollup=S.Rollup(interval=60, granularity=60),
        scope=S.MetricsScope([1], [2], "transactions"), indexer_mappings={"a": 1},
    )


# ---- the listed ways in which text fails to parse back ------------------------------


def escaped(v):
    return v.replace("\\", "\\\\").replace("\n", "\\n")


def map_filter(f, fn):
    if f[0] == "bool":
        return f[:2] + (tuple(map_filter(k, fn) for k in f[2]),) + f[3:]
    return fn(f)


def map_spec(s, cond, param):
    if s[0] == "num":
        return s
    fs = None if s[4] is None else tuple(map_filter(f, cond) for f in s[4])
    ps = None if s[3] is None else tuple(param(p) for p in s[3])
    if s[0] == "ts":
        return s[:3] + (ps, fs, s[5])
    return s[:2] + (tuple(map_spec(o, cond, param) for o in s[2]), ps, fs, s[5])


def esc_cond(f):
    v = f[3]
    return f[:3] + (tuple(escaped(x) for x in v) if isinstance(v, tuple) else escaped(v),)


def esc_param(p):
    return escaped(p) if isinstance(p, str) else p


def wild_cond(f):
    if f[2] in ("EQ", "NEQ") and mql.WILD.fullmatch(f[3]):
        return (f[0], f[1], {"EQ": "LIKE", "NEQ": "NOT_LIKE"}[f[2]], f[3])
    return f


def unneg(p):
    """parsed parameter "-5" -> -5.0"""
    if isinstance(p, str) and re.fullmatch(r"-[0-9]+(\.[0-9]+)?", p):
        return float(p)
    return p


def same(x):
    return x


# ---- the monitors --------------------------------------------------------------------


def texts(mq, r):
    """every text the SDK gives for this query"""
    yield "serialize", mq.serialize()["mql"]
    k = r.random()
    if k < 0.3:
        yield "print", json.loads(mq.print())["mql"]
    elif k < 0.5:
        yield "str", json.loads(str(mq))["mql"]
    elif k < 0.7:
        yield "request", S.Request("generic_metrics", "app", mq).to_dict()["query"]


def check(ctx, s, mq, origin, special=None):
    r = ctx.rng
    want = mql.nf(s)
    for how, text in texts(mq, r):
        if not isinstance(text, str):
            ctx.violation("%s gave no text" % how, got=text)
            return
        try:
            why = mql.differ(want, mql.nf(mql.read(text)), r, strict=True)
        except mql.Bad as e:
            why = "the text is not MQL: %s" % e
        if why and special == "wild" and mql.differ(mql.nf(map_spec(s, wild_cond, same)), mql.nf(mql.read(text)), r, strict=True) is None:
            why = None  # reported below
        if why:
            ctx.violation("%s: the MQL text denotes something else: %s" % (how, why), origin=origin, spec=s, text=text)
            return
        try:
            got = mql.unbuild(parse_mql(text))
        except Exception as e:
            ctx.violation("%s: the MQL text does not parse" % how, origin=origin, spec=s, text=text, error=repr(e)[:300])
            return
        why = mql.differ(want, mql.nf(got), r, strict=True)
        if why and special:
            if special == "escape" and mql.differ(mql.nf(map_spec(s, esc_cond, esc_param)), mql.nf(got), r, strict=True) is None:
                if ctx.known_finding("mql-escape-not-unescaped", repr(text)[:80]):
                    why = None
            elif special == "wild" and mql.differ(mql.nf(map_spec(s, wild_cond, same)), mql.nf(got), r, strict=True) is None:
                if ctx.known_finding("mql-eq-suffix-wildcard", repr(text)[:80]):
                    why = None
            elif special == "negparam" and mql.differ(mql.nf(map_spec(s, same, unneg)), mql.nf(map_spec(got, same, unneg)), r, strict=True) is None:
                if ctx.known_finding("mql-negative-parameter", repr(text)[:80]):
                    why = None
        if why:
            ctx.violation("%s: parsing the MQL text gives another query: %s" % (how, why), origin=origin, spec=s, text=text)
            return
        ctx.saw("round_trips")
        ctx.distinct(text)
    if len(text) < 160:
        ctx.sample(text)


def specialise(s, r, kind, done):
    """put one value of the listed kinds somewhere"""

    def cond(f):
        if not done and kind != "negparam" and r.random() < 0.7:
            if kind == "escape":
                v = r.choice(["a\\b", "\\", "x\ny", "\n", "end\\", '\\"', "C:\\new", "\\n"])
                if f[2] in ("EQ", "NEQ"):
                    done.append(1)
                    return f[:3] + (v,)
                if f[2] in ("IN", "NOT_IN"):
                    done.append(1)
                    i = r.randrange(len(f[3]))
                    return f[:3] + (f[3][:i] + (v,) + f[3][i + 1:],)
            if kind == "wild" and f[2] in ("EQ", "NEQ"):
                done.append(1)
                return f[:3] + (r.choice(["a*", "prod*", "x.y*"]),)
        return f

    def param(p):
        if not done and kind == "negparam":
            done.append(1)
            return r.choice([-1, -5.0, -0.5, -1e-7])
        if not done and kind == "escape" and isinstance(p, str):
            done.append(1)
            return r.choice(["a\\b", "x\ny", "\\"])
        return p

    return map_spec(s, cond, param)


NO_NUMBERS = [float("inf"), -float("inf"), float("nan"), 1e308 * 10]


def bad_number(s, r):
    """SDK object for s with a number MQL cannot express"""
    v = r.choice(NO_NUMBERS + [10**400])
    built = mql.build(s)
    if isinstance(built, S.Timeseries) and r.random() < 0.5:
        ps = list(built.aggregate_params or [])
        ps.insert(r.randint(0, len(ps)), v)
        return built.set_aggregate(built.aggregate, ps)
    ps = [built]
    ps.insert(r.randint(0, 1), v)
    out = S.Formula(r.choice(["plus", "minus", "multiply", "divide", "apdex"]), ps)
    return S.Formula(r.choice(["plus", "abs"]), [out, built]) if r.random() < 0.3 else out


def unsupported(r):
    c = S.Column("environment")
    k = r.random()
    if k < 0.5:
        return S.Condition(c, r.choice([S.Op.GT, S.Op.LT, S.Op.GTE, S.Op.LTE]), r.choice(["a", 5]))
    if k < 0.7:
        return S.Condition(c, r.choice([S.Op.IS_NULL, S.Op.IS_NOT_NULL]))
    if k < 0.8:  # would read as a word
        v = r.choice(NO_NUMBERS)
        return S.Condition(c, r.choice([S.Op.EQ, S.Op.NEQ]), v) if r.random() < 0.5 else S.Condition(c, r.choice([S.Op.IN, S.Op.NOT_IN]), r.choice([[v], (1, v), [v, 2.5]]))
    return S.Condition(c, r.choice([S.Op.EQ, S.Op.NEQ]), S.Function("lower", [S.Column("x")]))


def with_bad(s, r):
    """SDK object for s with an inexpressible condition at a random place"""
    spots = []

    def walk(o, path):
        if o[0] in ("ts", "fm"):
            spots.append(path)
        if o[0] == "fm":
            for i, x in enumerate(o[2]):
                walk(x, path + (i,))

    walk(s, ())
    target = r.choice(spots)

    def make(o, path):
        built = mql.build(o)
        if o[0] == "fm" and path and path[:1]:
            i = path[0]
            ps = list(built.parameters)
            ps[i] = make(o[2][i], path[1:])
            return built.set_parameters(ps)
        bad = unsupported(r)
        fs = list(built.filters or [])
        for _ in range(r.choice([0, 0, 1, 2])):
            kids = [bad, mql.build_filter(mql.MGen(r).cond())]
            r.shuffle(kids)
            bad = r.choice([S.And, S.Or])(kids)
        fs.insert(r.randint(0, len(fs)), bad)
        return built.set_filters(fs)

    return make(s, target)


def case(ctx):
    r = ctx.rng
    k = r.random()
    if k < 0.2:
        toks, s = mqltext.Text(r).query()
        text = mqltext.layout(toks, r)
        mq = S.MetricsQuery(text, **context(r))
        try:
            mq.validate()
        except Exception:
            ctx.saw("text_not_valid")  # e.g. different groupings in one formula
            return
        ctx.saw("from_text")
        check(ctx, s, mq, text)
        return
    g = mql.MGen(r)
    g.dups = True
    s = g.expr()
    if k < 0.3:
        obj = with_bad(s, r) if r.random() < 0.8 else bad_number(s, r)
        mq = S.MetricsQuery(obj, **context(r))
        for how in ("serialize", "print", "request"):
            try:
                out = S.Request("d", "a", mq).to_dict() if how == "request" else getattr(mq, how)()
            except Exception as e:
                if util.is_sdk_error(e):
                    ctx.saw("refused")
                    continue
                ctx.violation("%s of an inexpressible condition or number raised %s" % (how, type(e).__name__), error=repr(e), query=repr(obj)[:2000])
                return
            ctx.violation("%s wrote a condition or number MQL cannot express" % how, query=repr(obj)[:2000], out=out)
            return
        return
    special = None
    if k < 0.4:
        done = []
        special = r.choice(["escape", "wild", "negparam"])
        s = specialise(s, r, special, done)
        if not done:
            special = None
    check(ctx, s, S.MetricsQuery(mql.build(s), **context(r)), None, special)
    if special:
        ctx.saw("special_" + special)
