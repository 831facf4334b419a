"""C21: helper functions report the whole structure they are asked about."""
import snuba_sdk as S
from snuba_sdk.conditions import get_first_level_and_conditions
from snuba_sdk.entity import get_required_time_column
from snuba_sdk.schema import Column as ColumnModel
from snuba_sdk.schema import ColumnSet, DataModel

import harvest
import util

PROPERTY = "C21"
RULE = (
    "(a) Joins of 1 to 130 relationships over a pool of entities (self joins, both sides, repeated, same name under several aliases, samples and data models that differ): get_entities and get_alias_mappings against the list of "
    "entities written down. (b) Trees of And, Or, BooleanCondition and Condition up to depth 30 and 1000 wide: get_first_level_and_conditions returns the very same condition objects, in order, that a walk of the description reaches "
    "through ANDs only. (c) Column sets and data models of 0 to 1000 columns (look-alike names, repeated names, required or not): contains, iteration, column and required column sets against the list. "
    "(d) All flag combinations: to_dict and what was set. (e) get_required_time_column for every known entity and for names near theirs. Each answer is asked for twice, and the structure must be unchanged. Distinct by structure; non-trivial: more than one element."
)
ASSUMPTIONS = ["only legal structures are asked about"]
BUDGET = {"quick": 250000, "thorough": 3000000}
FLOOR = {"evaluations": 15000, "joins": 3000, "trees": 3000, "models": 3000, "flags": 300, "time_columns": 100, "distinct": 8000}

NAMES = ["events", "transactions", "spans", "a", "b", "Events", "events_", "discover"]
COLS = ["a", "A", "a_", "project_id", "project", "timestamp", "tags", "tags[a]", "a.b", "a:b", "", "é", "org id", "0"]


def model(r):
    cols = columns(r, 6)
    return DataModel([ColumnModel(n, q) for n, q in cols], ColumnModel(*r.choice([("timestamp", False), ("timestamp", True), ("ts", True)])))


def model_key(m):
    return None if m is None else (frozenset((c.name, c.required) for c in m.column_set.columns), m.required_time_column.name, m.required_time_column.required)


def entity_key(e):
    return (e.name, e.alias, repr(e.sample), model_key(e.data_model))


def case_join(ctx, r):
    n = r.choice([1, 1, 2, 3, 5]) if r.random() < 0.9 else harvest.big(r, 130)
    names = {}  # alias -> entity name: an alias belongs to one entity name
    pool = []
    for _ in range(r.choice([1, 2, 3, 5, 12, n + 2])):
        alias = r.choice(["e", "t", "ee", "E", "e_", "s"]) if r.random() < 0.6 else "al%d" % r.randint(0, 200)
        name = names.setdefault(alias, r.choice(NAMES))
        pool.append(S.Entity(name, alias, r.choice([None, None, 0.5, 1.0, 0.25]), r.choice([None, None, model(r)])))
    given = []
    for _ in range(n):
        a, b = r.choice(pool), r.choice(pool)
        if r.random() < 0.2:  # an equal entity that is another object
            b = S.Entity(a.name, a.alias, a.sample, a.data_model)
        given.append((a, b))
    join = S.Join([S.Relationship(a, r.choice(["has", "is", "x"]), b) for a, b in given])
    ents = {entity_key(e) for p in given for e in p}
    pairs = {(e.alias, e.name) for p in given for e in p}
    for turn in (1, 2):
        got = join.get_entities()
        if {entity_key(e) for e in got} != ents or len(got) != len(ents):
            ctx.violation("get_entities returned other entities", join=join, got=got, turn=turn)
            return
        got = join.get_alias_mappings()
        if set(got) != pairs or len(got) != len(pairs):
            ctx.violation("get_alias_mappings returned other pairs", join=join, got=got, want=pairs, turn=turn)
            return
        if turn == 1 and r.random() < 0.5:  # what was returned belongs to the caller
            got.clear()
            join.get_entities().clear()
    ctx.saw("joins")
    if n > 1:
        ctx.distinct("J" + repr(join))


def case_tree(ctx, r):
    fuel = [r.choice([3, 10, 30, 200])]

    def cond():
        lhs = r.choice([S.Column("a"), S.Column("b"), S.Function("ff", [S.Column("a")])])
        op = r.choice([S.Op.EQ, S.Op.GT, S.Op.IN, S.Op.IS_NULL, S.Op.LIKE])
        return S.Condition(lhs, op) if op is S.Op.IS_NULL else S.Condition(lhs, op, [1] if op is S.Op.IN else r.choice([1, "x", None]))

    shared = [cond() for _ in range(3)]

    def tree(depth):
        """object, what a walk through ANDs reaches"""
        fuel[0] -= 1
        if depth == 0 or fuel[0] <= 0 or r.random() < 0.4:
            c = r.choice(shared) if r.random() < 0.2 else cond()
            return c, [c]
        n = r.choice([2, 2, 3, 5]) if r.random() < 0.97 else harvest.big(r)
        kids = [tree(depth - 1) for _ in range(n)]
        objs = [k[0] for k in kids]
        objs = tuple(objs) if r.random() < 0.2 else objs
        if r.random() < 0.65:
            b = S.And(objs) if r.random() < 0.5 else S.BooleanCondition(S.BooleanOp.AND, objs)
            return b, [x for k in kids for x in k[1]]
        b = S.Or(objs) if r.random() < 0.5 else S.BooleanCondition(S.BooleanOp.OR, objs)
        return b, [b]

    top = [tree(r.choice([0, 1, 2, 4, 30])) for _ in range(r.choice([0, 1, 1, 2, 3, 8]))]
    conds = [t[0] for t in top]
    want = [x for t in top for x in t[1]]
    given = tuple(conds) if r.random() < 0.2 else conds
    before = util.freeze(given)
    for turn in (1, 2):
        got = list(get_first_level_and_conditions(given))
        if len(got) != len(want) or any(a is not b and a != b for a, b in zip(got, want)):
            ctx.violation("get_first_level_and_conditions returned other conditions", conditions=given, got=got, want=want, turn=turn)
            return
    if util.freeze(given) != before:
        ctx.violation("get_first_level_and_conditions changed what it was given", was=before, now=given)
        return
    ctx.saw("trees")
    if len(want) > 1:
        ctx.distinct("T" + repr(conds))


def columns(r, most=None):
    n = r.choice([0, 1, 2, 3, 6]) if r.random() < 0.9 else harvest.big(r)
    n = min(n, most or n)
    p = r.choice([0, 0.3, 1])
    return [(r.choice(COLS) if r.random() < 0.6 else "c%d" % r.randint(0, 2 * n), r.random() < p) for _ in range(n)]


def case_model(ctx, r):
    cols = columns(r)
    objs = [ColumnModel(n, q) if q or r.random() < 0.5 else ColumnModel(n) for n, q in cols]
    objs = tuple(objs) if r.random() < 0.2 else objs
    time = ColumnModel(r.choice(["timestamp", "ts", "a"]), r.random() < 0.3)
    m = DataModel(objs, time)
    names = {n for n, _ in cols}
    show = dict(columns=cols, time=time)
    for turn in (1, 2):
        for what, s in (("ColumnSet", ColumnSet(objs)), ("DataModel.column_set", m.column_set)):
            if sorted((c.name, c.required) for c in s) != sorted(set(cols)):
                ctx.violation("iterating over %s gives other columns" % what, got=list(s), **show)
                return
            if {(c.name, c.required) for c in s.columns} != set(cols) or set(s.column_names) != names:
                ctx.violation("%s has other columns" % what, got=(s.columns, s.column_names), **show)
                return
        if {(c.name, c.required) for c in m.required_columns} != {c for c in cols if c[1]}:
            ctx.violation("DataModel.required_columns are other columns", got=m.required_columns, **show)
            return
        if m.required_time_column != time:
            ctx.violation("DataModel.required_time_column is another column", got=m.required_time_column, **show)
            return
        asked = [r.choice(COLS + [n + x for n in (r.choice(sorted(names) or ["z"]),) for x in ("", "x", " ", "[k]")]) for _ in range(6)] + [time.name]
        if names:
            k = r.choice(sorted(names))
            asked += ["_x." + k, "x." + k, k + ".x", "_" + k, k + "_", "tags[%s]" % k, k.swapcase(), k.title(), k + k, k[::-1]]
            asked += [k, k.upper(), k.lower(), k[:-1], k[1:], k.strip()]
        for a in asked:
            if m.contains(a) is not (a in names) or ColumnSet(objs).contains(a) is not (a in names):
                ctx.violation("contains(%r) is wrong" % a, **show)
                return
    ctx.saw("models")
    if len(cols) > 1:
        ctx.distinct("M" + repr((cols, time)))


FLAGS = ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")


def case_flags(ctx, r):
    vals = {f: r.choice([None, None, True, False]) for f in FLAGS}
    names = list(FLAGS)
    r.shuffle(names)
    f = S.Flags()
    if r.random() < 0.5:
        f = S.Flags(**{n: vals[n] for n in names})
    else:  # set later, some of them several times
        for n in names:
            for _ in range(r.choice([0, 0, 1])):
                setattr(f, n, r.choice([None, True, False]))
                f.to_dict()
        for n in names:
            setattr(f, n, vals[n])
    want = {n: v for n, v in vals.items() if v is not None}
    for _ in (1, 2):
        f.validate()
        d = f.to_dict()
        if d != want or any(d[k] is not v for k, v in want.items()):
            ctx.violation("Flags.to_dict gives other flags", got=d, want=want)
            return
        d["turbo"] = "scribbled"
    if {n: getattr(f, n) for n in FLAGS} != vals:
        ctx.violation("the flags are not what was given", flags=f, want=vals)
        return
    ctx.saw("flags")
    ctx.distinct("F" + repr(vals))


TIME = {
    "discover": "timestamp", "discover_events": "timestamp", "discover_transactions": "finish_ts", "errors": "timestamp", "events": "timestamp", "outcomes": "timestamp",
    "outcomes_raw": "timestamp", "replays": "timestamp", "search_issues": "timestamp", "sessions": "started", "spans": "finish_ts", "transactions": "finish_ts",
}


def case_time(ctx, r):
    """the time column of an entity, and of names near an entity's"""
    n = r.choice(sorted(TIME))
    k = r.random()
    if k > 0.4:
        n = r.choice([n + "_", "_" + n, n.upper(), n.capitalize(), n[:-1], n + "s", n + "_raw", n.partition("_")[0], n.replace("_", ""), n + " ", " " + n, n + "_" + n, n[1:], n.swapcase(), "metrics", "", n + "\n", "discover_" + n])
    for _ in (1, 2):
        got = get_required_time_column(n)
        if got != TIME.get(n):
            ctx.violation("get_required_time_column(%r) is %r" % (n, got))
            return
    ctx.saw("time_columns")
    ctx.distinct("C" + n)


def case(ctx):
    r = ctx.rng
    k = r.random()
    if k < 0.02:
        case_time(ctx, r)
    elif k < 0.35:
        case_join(ctx, r)
    elif k < 0.65:
        case_tree(ctx, r)
    elif k < 0.95:
        case_model(ctx, r)
    else:
        case_flags(ctx, r)
