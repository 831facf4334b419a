"""C03: folding OR conditions never changes what a filter selects."""
from datetime import datetime, timedelta, timezone

import harvest
import mql
import snql
import snuba_sdk as S
import spec
import util
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer

PROPERTY = "C03"
RULE = (
    "Condition groups dense in ORs, built from small pools of look-alike left hand sides (aliases, entity "
    "qualifiers, 1/1.0/True/'1' parameters, list/tuple parameters) and look-alike values, as where clause (of the "
    "outer or an inner query, entity or join), as filters of timeseries and formulas, and given to OrOptimizer "
    "directly. Oracle: truth-table equivalence of the filter read back from the text (or returned) with the "
    "filter given, atoms being (operator, lhs, typed value). Non-trivial: the group contains an OR; distinct by text."
)
ASSUMPTIONS = ["equivalence is exact up to 10 distinct atoms, sampled with 600 valuations beyond"]
BUDGET = {"quick": 80000, "thorough": 700000}
FLOOR = {"evaluations": 8000, "distinct": 4000, "folded": 1000, "or_kept": 1500, "mql": 2000, "direct": 1500}

T = datetime(2021, 1, 2, 3, 4, 5)
VALUES = [
    1, 1.0, True, "1", 0, 0.0, -0.0, False, "0", None, "", "a", "A", "a ", b"a", "None", "1.0", "True", 2, 3, "b", "c",
    T, T.replace(tzinfo=timezone.utc), T.replace(tzinfo=timezone(timedelta(hours=1))), T.date(), 2**53, 2.0**53, 2**53 + 1,
    -1, "'", "\\", "\n", "it's",
]


def lhs_pool(r, join):
    e1, e2 = ("entity", "events", "e", None, None), ("entity", "events", "t", None, None)
    e3 = ("entity", "transactions", "tr", None, None)
    if join:
        cols = [("col", "a", e1), ("col", "a", e2), ("col", "a", e3), ("col", "b", e1), ("col", "tags[a]", e2)]
    else:
        cols = [("col", "a", None), ("col", "b", None), ("col", "tags[a]", None), ("col", "tags[b]", None), ("col", "A", None)]
    a = cols[0]

    def p(*xs):
        return ("list", xs)

    fns = [("fn", "ff", p(a), None), ("fn", "ff", p(a), "x"), ("fn", "ff", p(a), "y"), ("fn", "ff", ("tuple", (a,)), None),
           ("fn", "ff", p(cols[1]), None), ("fn", "ff", p(), None), ("fn", "ff", None, None), ("fn", "gg", p(a), None),
           ("cfn", "ff", None, p(a), None), ("cfn", "ff", p(("lit", 1)), p(a), None), ("cfn", "ff", p(("lit", True)), p(a), None),
           ("cfn", "ff", p(("lit", 1.0)), p(a), "x"), ("cfn", "ff", p(("lit", "1")), p(a), None)]
    fns += [("fn", "ff", p(("lit", v)), None) for v in (1, 1.0, True, "1", 0, False, -0.0, 0.0, "", None)]
    fns += [("fn", "ff", p(("list", (("lit", 1),))), None), ("fn", "ff", p(("tuple", (("lit", 1),))), None),
            ("fn", "ff", p(("list", (("lit", True),))), None), ("fn", "ff", p(("fn", "hh", p(("lit", 1)), "q")), None),
            ("fn", "ff", p(("fn", "hh", p(("lit", True)), "q")), None), ("fn", "ff", p(("fn", "hh", p(("lit", 1)), None)), None)]
    k = r.choice([1, 1, 2, 2, 3, 5])
    pool = r.sample(cols, min(k, len(cols))) if r.random() < 0.5 else r.sample(cols + fns, k)
    return pool


class G:
    def __init__(self, r, join=False):
        self.r = r
        self.lhs = lhs_pool(r, join)
        self.vals = r.sample(VALUES, r.choice([1, 2, 3, 4, 6]))
        self.p_eq = r.choice([0.6, 0.9, 0.97, 1.0])
        self.gen = spec.Gen(r)

    def value(self):
        r = self.r
        k = r.random()
        if k < 0.85:
            return ("lit", r.choice(self.vals))
        if k < 0.9:
            return ("lit", self.gen.literal())
        if k < 0.95:
            return (r.choice(["list", "tuple"]), tuple(("lit", r.choice(self.vals)) for _ in range(r.randint(0, 3))))
        return r.choice(self.lhs)

    def cond(self):
        r = self.r
        lhs = r.choice(self.lhs)
        if r.random() < self.p_eq:
            return ("cond", lhs, "EQ", self.value())
        op = r.choice(list(spec.OPS))
        if op in spec.UNARY:
            return ("cond", lhs, op, None)
        if op in ("IN", "NOT_IN"):
            return ("cond", lhs, op, (r.choice(["list", "tuple"]), tuple(self.value() for _ in range(r.randint(0, 4)))))
        return ("cond", lhs, op, self.value())

    def group(self, depth):
        r = self.r
        n = r.choice([2, 2, 3, 4, 6]) if r.random() < 0.97 else harvest.big(r, 400)
        if depth and r.random() < 0.9:
            n = min(n, 4)
        kids = []
        for _ in range(n):
            kids.append(self.group(depth - 1) if depth and r.random() < 0.35 else self.cond())
        return ("bool", r.choice(["OR", "OR", "OR", "AND"]), tuple(kids), r.choice(["short", "generic"]), r.choice(["list", "tuple"]))

    def wide(self):
        """an OR of many equalities on one left hand side, all or nearly all of them"""
        r = self.r
        n = harvest.big(r)
        kind = r.choice([lambda i: i, lambda i: "v%d" % i, lambda i: i + 0.5])
        lhs = r.choice(self.lhs)
        kids = [("cond", lhs, "EQ", ("lit", kind(i))) for i in range(n)]
        if r.random() < 0.2:
            kids.insert(r.randint(0, n), self.cond())
        return ("bool", "OR", tuple(kids), r.choice(["short", "generic"]), r.choice(["list", "tuple"]))

    def groups(self):
        r = self.r
        if r.random() < 0.002:
            return (self.wide(),) + ((self.cond(),) if r.random() < 0.3 else ())
        simple = r.choice([0.2, 0.2, 0.6])
        return tuple(
            self.group(r.choice([0, 0, 1, 1, 2, 4])) if r.random() >= simple else self.cond() for _ in range(r.choice([1, 1, 2, 3, 4, 5, 7]))
        )


def has_or(c):
    return c[0] == "bool" and (c[1] == "OR" or any(has_or(k) for k in c[2]))


def count_or(c):
    return (c[1] == "OR") + sum(count_or(k) for k in c[2]) if c[0] == "bool" else 0


def note(ctx, given, got, text):
    if not any(has_or(c) for c in given):
        return
    before = sum(count_or(snql.flat(c)) for c in given)
    after = sum(count_or(snql.flat(c)) for c in got)
    ctx.saw("folded" if after < before else "or_kept")
    ctx.distinct(text)
    ctx.sample(text)


def snql_case(ctx, r):
    join = r.random() < 0.3
    g = G(r, join)
    where = g.groups()
    sp = dict.fromkeys(spec.FIELDS)
    if join:
        e1, e2 = ("entity", "events", "e", None, None), ("entity", "events", "t", None, None)
        e3 = ("entity", "transactions", "tr", None, None)
        sp["match"] = ("join", ((e1, "has", e2), (e2, "has", e3)))
        sp["select"] = (("col", "a", e1),)
    else:
        sp["match"] = ("entity", "events", None, None, None)
        sp["select"] = (("col", "a", None),)
    sp["where"] = where
    if r.random() < 0.2:
        sp["having"] = g.groups()
    if r.random() < 0.2:
        outer = dict.fromkeys(spec.FIELDS)
        outer.update(match=("query", sp), select=(("col", "a", None),))
        if r.random() < 0.5:
            og = G(r)
            og.lhs = [("col", "a", None)]
            outer["where"] = og.groups()
        sp = outer
    q = spec.build_query(sp)
    want = spec.canon_query(sp)
    for how in ("serialize", "print", "__str__"):
        text = getattr(q, how)()
        try:
            got = snql.read(text)
        except snql.Bad as e:
            ctx.violation("unreadable text: %s" % e, spec=sp, text=text)
            return
        why = snql.compare(want, got, r)
        if why:
            ctx.violation("%s changed the filter: %s" % (how, why), spec=sp, text=text)
            return
        if how == "serialize":
            w, gt = want, got
            note(ctx, w["where"] or (), gt["where"] or (), text)
    ctx.saw("snql")


def mql_case(ctx, r):
    keys = r.sample(["a", "b", "A", "a.b"], r.choice([1, 1, 2, 3]))
    vals = r.sample(["a", "b", "", "1", "1.0", "True", "a,b", '"', "x y", "A", "é"], r.choice([1, 2, 4]))
    p_eq = r.choice([0.7, 0.95, 1.0])

    def cond():
        if r.random() < p_eq:
            return ("cond", r.choice(keys), "EQ", r.choice(vals))
        op = r.choice(["NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"])
        if op in ("IN", "NOT_IN"):
            return ("cond", r.choice(keys), op, tuple(r.choice(vals) for _ in range(r.randint(1, 3))))
        return ("cond", r.choice(keys), op, r.choice(vals) if op == "NEQ" else r.choice(["a*", "b*"]))

    def group(d):
        kids = tuple(group(d - 1) if d and r.random() < 0.35 else cond() for _ in range(r.choice([2, 2, 3, 5])))
        return ("bool", r.choice(["OR", "OR", "AND"]), kids, r.choice(["short", "generic"]))

    def filters():
        if r.random() < 0.15:
            return None
        simple = r.choice([0.2, 0.2, 0.6])
        return tuple(group(r.choice([0, 0, 1, 2])) if r.random() >= simple else cond() for _ in range(r.choice([1, 1, 2, 3, 4, 5, 7])))

    def ts():
        return ("ts", ("mri", "d:transactions/duration@millisecond"), "sum", None, filters(), None)

    def formula(d):
        if not d:
            return ts()
        ops = tuple(formula(d - 1) for _ in range(2))
        return ("fm", r.choice(["plus", "divide", "apdex"]), ops, None, filters(), None)

    sp = formula(r.choice([0, 0, 1, 2]))
    mq = S.MetricsQuery(
        mql.build(sp), datetime(2024, 1, 1), datetime(2024, 1, 2), S.Rollup(interval=60, granularity=60),
        S.MetricsScope([1], [2], "x"), indexer_mappings={},
    )
    texts = [mq.serialize()["mql"], S.Request("d", "a", mq).to_dict()["query"]]
    for text in texts:
        try:
            got = mql.nf(mql.read(text))
        except mql.Bad as e:
            ctx.violation("unreadable MQL: %s" % e, spec=sp, text=text)
            return
        want = mql.nf(sp)
        why = mql.differ(want, got, r)
        if why:
            ctx.violation("folding changed a filter: %s" % why, spec=sp, text=text)
            return
    note(ctx, want[4], got[4], texts[0])
    ctx.saw("mql")


def direct_case(ctx, r):
    g = G(r)
    given = g.groups()
    conds = [spec.build(c) for c in given]
    if r.random() < 0.3:
        conds = tuple(conds)
    out = OrOptimizer().optimize(conds)
    ctx.saw("direct")
    if out is None:
        ctx.saw("or_kept") if any(has_or(c) for c in given) else None
        return
    got = tuple(util.canon_obj(c) for c in out)
    want = tuple(spec.canon(c) for c in given)
    why = snql.equivalent(want, got, r)
    if why:
        ctx.violation("OrOptimizer changed the filter: %s" % why, spec=given, result=repr(out))
        return
    note(ctx, want, got, repr(out))


def case(ctx):
    r = ctx.rng
    k = r.random()
    if k < 0.5:
        snql_case(ctx, r)
    elif k < 0.8:
        mql_case(ctx, r)
    else:
        direct_case(ctx, r)
