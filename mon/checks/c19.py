"""C19: searching a query finds every matching expression; aggregates are recognised."""
import snuba_sdk as S
from snuba_sdk.query_visitors import ExpressionSearcher, find_column_in_function, is_aggregate

import checks.c07 as c07
import harvest
import spec
import util

PROPERTY = "C19"
RULE = (
    "(a) Random queries over all match kinds; the set returned by searching for columns is compared with the columns that occur in the neutral description outside the inner query (any clause, any depth: parameters, initializers, "
    "lambdas, lists and tuples, both sides of conditions, limit by, array join); searching for entities with the entities of the match. (b) Random function trees with aggregate names (base x combinator), near misses (case, prefix, suffix, "
    "unknown combinators), raw legacy names and aliases, compared with a reference predicate. (c) a column, its look-alikes (other entity, other case, subscripted) searched for in function trees. "
    "Distinct by query, function tree; non-trivial: at least one column or function parameter."
)
ASSUMPTIONS = ["not judged: functions and columns inside lists, tuples and lambdas among the parameters for the two function predicates; digits or dots directly before a name in raw legacy names"]
BUDGET = {"quick": 240000, "thorough": 1200000}
FLOOR = {"evaluations": 15000, "columns_found": 10000, "aggregate": 2500, "not_aggregate": 2500, "column_in": 1500, "column_not_in": 1500, "distinct": 10000}

BASE = """count min max sum avg any stddevPop stddevSamp varPop varSamp covarPop covarSamp anyHeavy anyLast argMin argMax avgWeighted topK topKWeighted
groupArray groupUniqArray groupArrayInsertAt groupArrayMovingAvg groupArrayMovingSum groupBitAnd groupBitOr groupBitXor groupBitmap groupBitmapAnd groupBitmapOr
groupBitmapXor sumWithOverflow sumMap minMap maxMap skewSamp skewPop kurtSamp kurtPop uniq uniqExact uniqCombined uniqCombined64 uniqHLL12 quantile quantiles
quantileExact quantileExactLow quantileExactHigh quantileExactWeighted quantileTiming quantileTimingWeighted quantileDeterministic quantileTDigest
quantileTDigestWeighted simpleLinearRegression stochasticLinearRegression stochasticLogisticRegression categoricalInformationValue histogram sequenceMatch
sequenceCount windowFunnel retention uniqUpTo sumMapFiltered apdex failure_rate""".split()
SUFFIX = ["", "If", "Array", "SampleState", "State", "Merge", "MergeState", "ForEach", "OrDefault", "OrNull", "Resample"]
KNOWN = {b + s for b in BASE for s in SUFFIX}


# ---- searching -----------------------------------------------------------------------


def key(c):
    return (c[1], None if c[2] is None else spec_entity_key(c[2]))


def spec_entity_key(e):
    m = e[4]
    return (e[1], e[2], e[3], None if m is None else (frozenset(m[0]), m[1]))


def obj_entity_key(e):
    m = e.data_model
    return (e.name, e.alias, e.sample, None if m is None else (frozenset((c.name, c.required) for c in m.column_set.columns), (m.required_time_column.name, m.required_time_column.required)))


def obj_key(c):
    return (c.name, None if c.entity is None else obj_entity_key(c.entity))


def match_entities(m):
    if m[0] == "entity":
        return {spec_entity_key(m)}
    if m[0] == "join":
        return {spec_entity_key(e) for a, _, b in m[1] for e in (a, b)}
    return set()


def case_search(ctx):
    r = ctx.rng
    g = spec.Gen(r)
    q = g.query(r.choice([0, 0, 1]))
    if r.random() < 0.3:  # clauses of another query: searching does not need a valid one
        o = spec.Gen(r).query(0)
        for f in r.sample(c07.CLAUSES, 2):
            q = dict(q, **{f: o[f]})
    obj = spec.build_query(q)
    want = {key(c) for _, _, c in c07.refs(q)}
    searcher = ExpressionSearcher(S.Column)
    if r.random() < 0.3:
        searcher.visit(spec.build_query(spec.Gen(r).query(0)))  # a used searcher
    found = searcher.visit(obj)
    if not all(isinstance(c, S.Column) for c in found):
        ctx.violation("the search for columns returned something else", spec=q, found=found)
        return
    got = [obj_key(c) for c in found]
    if set(got) != want or len(got) != len(set(got)):
        ctx.violation(
            "the search for columns returned %s" % ("too many" if want < set(got) else "too few" if set(got) < want else "the wrong ones"),
            spec=q, missing=sorted(map(repr, want - set(got))), extra=sorted(map(repr, set(got) - want)), twice=len(got) != len(set(got)),
        )
        return
    if set(map(obj_key, ExpressionSearcher(S.Column).visit(obj))) != want:
        ctx.violation("searching twice gives different results", spec=q)
        return
    ents = {obj_entity_key(e) for e in ExpressionSearcher(S.Entity).visit(obj)}
    if ents != match_entities(q["match"]):
        ctx.violation("the search for entities returned %r" % (ents,), spec=q)
        return
    ctx.saw("columns_found", len(want))
    ctx.saw("entities_found", len(ents))
    if want:
        ctx.distinct(repr(q))


# ---- aggregates ----------------------------------------------------------------------


def agg_name(r):
    return r.choice(BASE) + r.choice(SUFFIX)


def near_name(r):
    b, s = r.choice(BASE), r.choice(SUFFIX)
    for _ in range(50):
        n = r.choice([
            b + s + "x", "x" + b + s, (b + s).upper(), b.capitalize() + s, b + s.lower() + "z", b[:-1] + "q", b + "Distinct", b + "Iff", b + s + "If", b + "_if", "to" + b.capitalize(), "If", "State", "Array", "Merge",
            "toHour", "equals", "plus", "tuple", "arrayJoin", "ifNull", "f.g", b + "." + b, b + "2", "my_" + b, b + s + "State2",
        ])
        if n not in KNOWN and len(n) > 1:
            return n
    return "toHour"


def raw_name(r):
    """-> a raw legacy function name, does it contain an aggregate"""
    k = r.random()
    if k < 0.3:
        return "%s(%s)" % (agg_name(r), r.choice(["", "0.5", "a, b", "duration, 300"])), True
    if k < 0.5:
        return "%s(%s(%s), 1)" % (near_name(r).replace(".", "_"), agg_name(r), r.choice(["", "x"])), True
    if k < 0.65:
        return "%s(a)" % near_name(r).replace(".", "_"), False
    if k < 0.8:
        return "%s(%s(x), %s)" % (near_name(r).replace(".", "_"), near_name(r).replace(".", "_"), r.choice(["a", "count", "uniq"])), False
    return "ff(%s, %s)" % (agg_name(r), r.choice(["b", "sum"])), False  # a name without a call


def ref_aggregate(f, aliases):
    name = f[1]
    if name in KNOWN:
        return True
    if "(" in name:
        if f_raw[name]:
            return True
        if aliases and any(a in name for a in aliases):
            return True
    params = f[2] if f[0] == "fn" else f[3]
    for p in params[1] if params is not None else ():
        if aliases and p[0] == "col" and p[1] in aliases:
            return True
        if p[0] in ("fn", "cfn") and ref_aggregate(p, aliases):
            return True
    return False


f_raw = {}
PLAIN = ["a", "b", "duration", "cnt", "count", "A", "a.b", "tags[a]", "p95", "cn", "cntx"]


def tree(r, depth, p_agg, p_raw):
    k = r.random()
    if k < p_agg:
        name = agg_name(r)
    elif k < p_agg + p_raw:
        name, is_agg = raw_name(r)
        if f_raw.get(name, is_agg) != is_agg:
            return tree(r, depth, p_agg, 0)
        f_raw[name] = is_agg
    else:
        name = near_name(r)
    ps = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5]) if r.random() < 0.96 else min(harvest.big(r), 1100 if depth < 2 else 12)):
        w = r.random()
        if w < 0.45 and depth > 0:
            ps.append(tree(r, depth - 1, p_agg, p_raw))
        elif w < 0.75:
            ps.append(("col", r.choice(PLAIN), ent(r)))
        elif w < 0.85:
            ps.append(("ident", r.choice(["a", "cnt"])))
        elif w < 0.9:
            ps.append(("list", (("lit", "count"), ("lit", 1))))
        else:
            ps.append(("lit", r.choice(["count", "cnt", "a", 5, None, 0.5, "uniq(x)"])))
    params = None if not ps and r.random() < 0.3 else (r.choice(["list", "tuple"]), tuple(ps))
    al = r.choice([None, None, "cnt", "a", "count"])
    if r.random() < 0.3:
        return ("cfn", name, r.choice([None, ("list", (("lit", 0.5), ("col", "cnt", None))), ("tuple", (("col", "a", None),))]), params, al)
    return ("fn", name, params, al)


def ent(r):
    return ("entity", r.choice(["events", "spans"]), r.choice(["e", "t"]), None, None) if r.random() < 0.25 else None


def case_aggregate(ctx):
    r = ctx.rng
    f_raw.clear()
    f = tree(r, r.choice([0, 1, 2, 4, 8]), r.choice([0.0, 0.03, 0.1, 0.4]), r.choice([0.0, 0.1]))
    obj = spec.build(f)
    for aliases in (None, set(), {r.choice(PLAIN)}, {r.choice(["cnt", "x", "count()", "dura", "uniq"]), r.choice(PLAIN)}):
        want = ref_aggregate(f, aliases)
        given = None if aliases is None else set(aliases)
        got = is_aggregate(obj, given) if given is not None or r.random() < 0.5 else is_aggregate(obj)
        if got is not want:
            ctx.violation("is_aggregate says %r" % (got,), function=f, aliases=aliases)
            return
        if given is not None and given != aliases:
            ctx.violation("is_aggregate changed the aliases", function=f, aliases=aliases)
            return
        ctx.saw("aggregate" if want else "not_aggregate")
    ctx.distinct(repr(f))


# ---- a column in a function ----------------------------------------------------------


def has_col(f, c):
    params = f[2] if f[0] == "fn" else f[3]
    for p in params[1] if params is not None else ():
        if p[0] == "col" and key(p) == key(c):
            return True
        if p[0] in ("fn", "cfn") and has_col(p, c):
            return True
    return False


def case_finder(ctx):
    r = ctx.rng
    f = tree(r, r.choice([0, 1, 2, 4, 7]), 0.1, 0.0)
    inside = [c for _, c in c07.columns(f)]
    cands = [("col", r.choice(PLAIN), ent(r))]
    if inside:
        c = r.choice(inside)
        cands += [c, ("col", c[1].upper(), c[2]), ("col", c[1], None if c[2] else ent(r)), ("col", "x" + c[1], c[2]), ("col", c[1].partition("[")[0], c[2])]
        if c[2]:
            cands.append(("col", c[1], c[2][:2] + ("zz",) + c[2][3:]))
    obj = spec.build(f)
    for c in cands:
        want = has_col(f, c)
        got = find_column_in_function(spec.build(c), obj)
        if got is not want:
            ctx.violation("find_column_in_function says %r" % (got,), function=f, column=c)
            return
        ctx.saw("column_in" if want else "column_not_in")
    ctx.distinct("F" + repr(f))


def case(ctx):
    k = ctx.rng.random()
    if k < 0.45:
        case_search(ctx)
    elif k < 0.75:
        case_aggregate(ctx)
    else:
        case_finder(ctx)
