"""C02: literals survive SnQL encoding and cannot change the structure of the query."""
from datetime import date, datetime

import harvest
import snql
import spec

PROPERTY = "C02"
RULE = (
    "One to six hostile literals (quote/backslash/newline sequences, every code point below 0x300, "
    "keywords, comment and alias openers, bytes, huge and tiny numbers, zoned datetimes, nested "
    "sequences) are placed in known slots of a query skeleton (condition operand, list element, "
    "function parameter and initializer, lambda body, having, order by, subquery, join); the text is "
    "read back by the independent reader: each slot must hold exactly its value and everything else "
    "must equal the skeleton. Non-trivial: a literal outside [A-Za-z0-9 ]*; distinct by literals and slots."
)
ASSUMPTIONS = ["the reader in mon/snql.py decodes \\\\, \\' and \\n, the escapes SnQL documents"]
BUDGET = {"quick": 240000, "thorough": 1200000}
FLOOR = {"evaluations": 10000, "distinct": 8000, "slot_read": 40000, "string": 10000, "datetime": 1000, "nested": 1000}

COL = ("col", "a", None)


class Text(str):
    pass


class Raw(bytes):
    pass


class Whole(int):
    pass


class Real(float):
    pass


class Moment(datetime):
    pass


class Day(date):
    pass


def derived(v):
    """the same value, as an instance of a user's subclass of its type"""
    if isinstance(v, datetime):
        return Moment(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold)
    if isinstance(v, date):
        return Day(v.year, v.month, v.day)
    return {str: Text, bytes: Raw, int: Whole, float: Real}.get(type(v), lambda x: x)(v)


def hostile(g):
    v = _hostile(g)
    return derived(v) if g.r.random() < 0.02 else v


def _hostile(g):
    r = g.r
    k = r.random()
    if k < 0.5:
        n = r.choice([1, 1, 2, 2, 3, 4, 6, 12])
        if r.random() < 0.02:
            n = r.choice([200, 1000, 5000, harvest.big(r)])
        pool = ["\\", "'", "\n", "n", "\\n", "'", "\\", '"', "`", "\r", "\t", "\0", " ", "a", "%", ")", "(", ","]
        return "".join(
            r.choice(pool) if r.random() < 0.75 else chr(r.choice([r.randint(0, 0x2FF), r.randint(0, 0xD7FF), r.randint(0xE000, 0x1FFFF)]))
            for _ in range(n)
        )
    if k < 0.6:
        return g.string()
    if k < 0.68:
        return hostile_text(g).encode("utf-8")
    return g.literal()


def hostile_text(g):
    while True:
        v = hostile(g)
        if isinstance(v, str):
            return v


def value(g, depth=2):
    r = g.r
    if depth and r.random() < 0.25:
        n = r.choice([0, 1, 2, 3, 5])
        if r.random() < 0.02:
            n = harvest.big(r)
        if r.random() < 0.5:  # all of one type
            t = r.choice([str, int, float, bool, bytes, datetime, date])
            return (r.choice(["list", "tuple"]), tuple(("lit", hostile_text(g) if t is str and n < 9 else g.of_type(t)) for _ in range(n)))
        return (r.choice(["list", "tuple"]), tuple(value(g, depth - 1) for _ in range(n)))
    return ("lit", hostile(g))


def case(ctx):
    r = ctx.rng
    g = spec.Gen(r)
    vals = []

    def v(seq=True):
        x = value(g) if seq else ("lit", hostile(g))
        vals.append(x)
        return x

    def fn(name, *params, alias=None):
        return ("fn", name, (r.choice(["list", "tuple"]), params), alias)

    def cond():
        k = r.randint(0, 6)
        if k == 0:
            return ("cond", COL, r.choice(["EQ", "NEQ", "LIKE", "NOT_LIKE", "GT", "LTE"]), v(False))
        if k == 1:
            x = ("list" if r.random() < 0.5 else "tuple", tuple(v() for _ in range(r.choice([1, 2, 3]))))
            return ("cond", COL, r.choice(["IN", "NOT_IN"]), x)
        if k == 2:
            return ("cond", fn("ifNull", COL, v()), "EQ", v())
        if k == 3:
            return ("cond", COL, "EQ", fn("concat", v(), v()))
        if k == 4:
            return ("cond", ("cfn", "quantile", ("list", (v(False),)), ("list", (COL, v())), None), "LT", v(False))
        if k == 5:
            return ("bool", "AND", (("cond", COL, "EQ", v(False)), ("cond", ("col", "b", None), "NEQ", v(False))), "short", "list")
        # an OR that serialize may fold: all values must survive that as well
        return ("bool", "OR", tuple(("cond", COL, "EQ", v(False)) for _ in range(r.choice([2, 3]))), "generic", "list")

    def sel():
        k = r.randint(0, 3)
        if k == 0:
            return fn("has", COL, v(), alias=r.choice([None, "al"]))
        if k == 1:
            return ("cfn", "topK", ("tuple", (v(False), v(False))), ("list", (COL,)), "al")
        if k == 2:
            return fn("arrayMap", ("lambda", ("x",), fn("equals", ("ident", "x"), v())), COL)
        return fn("if", fn("equals", COL, v()), v(), fn("toString", v(False)))

    def q(match):
        out = dict.fromkeys(spec.FIELDS)
        out["match"] = match
        out["select"] = (COL, ("col", "b", None))
        out["where"] = (("cond", ("col", "b", None), "GT", ("lit", 1)),)
        slots = r.sample(["select", "where", "having", "orderby", "groupby"], r.choice([1, 1, 2]))
        if "select" in slots:
            out["select"] += (sel(),)
        if "groupby" in slots:
            out["groupby"] = (sel(),)
        if "where" in slots:
            out["where"] += (cond(),)
        if "having" in slots:
            out["having"] = (cond(), ("cond", COL, "IS_NULL", None))
        if "orderby" in slots:
            out["orderby"] = ((sel(), "DESC"),)
        out["limit"] = 7
        return out

    inner = ("entity", "events", None, None, None)
    m = inner
    if r.random() < 0.25:
        m = ("query", q(inner))
    sp = q(m)
    query = spec.build_query(sp)
    want = spec.canon_query(sp)
    for how in ("serialize", "print"):
        text = getattr(query, how)()
        try:
            got = snql.read(text)
        except snql.Bad as e:
            ctx.violation("a literal broke the %s text: %s" % (how, e), literals=vals, text=text)
            return
        why = snql.compare(want, got, r, strict=True)
        if why:
            ctx.violation("a literal did not survive %s: %s" % (how, why), literals=vals, text=text)
            return
        ctx.saw("slot_read", len(vals))
        if how == "serialize" and "\n" in text:
            ctx.violation("raw newline in the serialized text", literals=vals, text=text)
            return
    nontrivial = False

    def walk(x):
        nonlocal nontrivial
        if x[0] == "lit":
            if type(x[1]).__module__ == __name__:
                ctx.saw("subclass")
            n = type(x[1]).__name__
            ctx.saw({"str": "string"}.get(n, n))
            if not (isinstance(x[1], str) and x[1].replace(" ", "").isalnum()):
                nontrivial = True
        else:
            ctx.saw("nested")
            for y in x[1]:
                walk(y)

    for x in vals:
        walk(x)
    if nontrivial:
        ctx.distinct(text)
        ctx.sample(text)
