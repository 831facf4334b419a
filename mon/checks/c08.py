"""C08: required columns are demanded exactly when no top-level condition provides them."""
from datetime import datetime

import snuba_sdk as S
import util
from snuba_sdk.query_validation import RequiredColumnError, validate_required_columns
from snuba_sdk.schema import Column as ColumnModel
from snuba_sdk.schema import DataModel

PROPERTY = "C08"
RULE = (
    "Queries over an entity, a storage, a join of up to twelve entities or up to six levels of subquery, whose entities "
    "have random data models; where clauses start from the complete set of required conditions, placed at top level or "
    "inside nested ANDs (And or BooleanCondition), and are then damaged: dropped, put under an OR, given another "
    "operator, column, alias or a function, moved to having or to the outer query. The expected verdict is computed from the "
    "description. Distinct by (match kind, list of damages, verdict); non-trivial: some entity has a data model."
)
ASSUMPTIONS = ["in a join every column is qualified (others do not validate)"]
BUDGET = {"quick": 800000, "thorough": 2000000}
FLOOR = {"evaluations": 20000, "accepted": 8000, "rejected": 8000, "distinct": 200}

COLS = ["project_id", "org_id", "user", "a", "b", "timestamp", "finish_ts"]
MORE = COLS[:5] + ["proj", "project", "project_ids", "Project_id", "org", "col_1", "col_10", "tags", "user.id", "a.b", "a:b", "A"] + ["c%d" % i for i in range(40)]
ALIASES = ["e", "t", "s", "x", "ee", "et", "E", "e2", "e_", "te", "events", "T"]


def build_tree(c):
    if c[0] == "bool":
        kids = [build_tree(k) for k in c[2]]
        if c[3] == "tuple":
            kids = tuple(kids)
        if c[4] == "short":
            return (S.And if c[1] == "AND" else S.Or)(kids)
        return S.BooleanCondition(S.BooleanOp[c[1]], kids)
    _, lhs, op, rhs = c
    return S.Condition(build_lhs(lhs), S.Op[op], rhs) if op not in ("IS_NULL", "IS_NOT_NULL") else S.Condition(build_lhs(lhs), S.Op[op])


def build_lhs(l):
    if l[0] == "fn":
        return S.Function("toDate", [build_lhs(l[1])])
    return S.Column(l[1]) if l[2] is None else S.Column(l[1], S.Entity(l[2][0], l[2][1]))


def top(conds):
    for c in conds or ():
        if c[0] == "bool":
            if c[1] == "AND":
                yield from top(c[2])
        else:
            yield c


def provides(conds, alias, name, ops):
    for _, lhs, op, _ in top(conds):
        if lhs[0] == "col" and lhs[1] == name and op in ops:
            if lhs[2] is None or lhs[2][1] == alias:
                return True
    return False


def satisfied(ent, where):
    name, alias, model = ent
    if model is None:
        return True
    required, tcol = model
    if not all(provides(where, alias, c, ("EQ", "IN")) for c in required):
        return False
    return provides(where, alias, tcol, ("GTE",)) and provides(where, alias, tcol, ("LT",))


def case(ctx):
    r = ctx.rng
    damages = []

    def model():
        if r.random() < 0.25:
            return None
        if r.random() < 0.2:
            n = r.choice([3, 4, 5, 6, 8, 9, 12, 17, 33])
            return (tuple(r.sample(MORE, n)), r.choice(["timestamp", "finish_ts", "a", "time"]))
        n = r.choice([0, 1, 1, 2, 3])
        return (tuple(r.sample(COLS[:5], n)), r.choice(["timestamp", "finish_ts"]))

    kind = r.choice(["entity", "entity", "join", "join", "storage", "sub"])
    depth = r.choice([1, 1, 2, 3, 6]) if kind == "sub" else 0
    inner_kind = r.choice(["entity", "join"]) if kind == "sub" else kind
    if inner_kind == "join":
        k = r.choice([2, 2, 3, 4])
        names = list("etsx"[:k])
        if r.random() < 0.3:
            names = r.sample(ALIASES, r.choice([2, 2, 3, 5, 8, 12]))
        ents = [("ent_" + r.choice([a.rstrip("0123456789"), "q"]), a, model()) for a in names]
        if r.random() < 0.2:
            ents[1] = (ents[0][0], ents[1][1], ents[1][2])
    else:
        ents = [("events", None if r.random() < 0.7 else "e", model())]

    # the complete set of conditions
    conds = []
    for name, alias, m in ents:
        if m is None:
            continue
        qual = (name, alias) if inner_kind == "join" or (alias and r.random() < 0.4) else None
        for c in m[0]:
            op = r.choice(["EQ", "IN"])
            conds.append(("cond", ("col", c, qual), op, 1 if op == "EQ" else r.choice([[1, 2], (1,), []])))
        conds.append(("cond", ("col", m[1], qual), "GTE", 1))
        conds.append(("cond", ("col", m[1], qual), "LT", 2))
    if r.random() < 0.3:  # what a column is compared with is no matter
        conds = [c[:3] + (r.choice([c[3], None, "", 0, False, "x", b"x", datetime(2024, 1, 1), S.Column("zz"), S.Function("now", []), 1.5, [], ()]),) for c in conds]
    r.shuffle(conds)
    having, outer = [], []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        if not conds:
            break
        i = r.randrange(len(conds))
        c = conds[i]
        if c[0] != "cond":
            continue
        d = r.choice(["drop", "or", "op", "col", "alias", "fn", "having", "outer", "sub", "dup_bad", "or2", "swap"])
        damages.append(d)
        if d == "drop":
            conds.pop(i)
        elif d in ("or", "or2"):
            other = ("cond", ("col", "b", c[1][2] if len(c[1]) > 2 else None), "EQ", 3) if d == "or" else c
            kids = [c, other]
            r.shuffle(kids)
            bad = ("bool", "OR", tuple(kids), "list", r.choice(["short", "generic"]))
            if r.random() < 0.4:
                bad = ("bool", "AND", (bad, bad), "list", "short")
            conds[i] = bad
        elif d == "op":
            op = r.choice(["NEQ", "GT", "LTE", "LIKE", "NOT_IN", "IS_NULL", "IS_NOT_NULL", "EQ", "IN", "GTE", "LT", "NOT_LIKE"])
            rhs = None if op.startswith("IS") else ([1] if op in ("IN", "NOT_IN") else 1)
            conds[i] = ("cond", c[1], op, rhs)
        elif d == "col" and c[1][0] == "col" and "[" not in c[1][1]:
            conds[i] = ("cond", ("col", r.choice([c[1][1] + "x", c[1][1] + "[k]", c[1][1].upper(), c[1][1][:-1] or "z", r.choice(COLS), r.choice(MORE)]), c[1][2]), c[2], c[3])
        elif d == "alias" and c[1][0] == "col":
            q = ("events", r.choice(["zz", "E", "t", "e"] + ALIASES))
            if inner_kind == "join":
                q = (c[1][2][0], r.choice([e[1] for e in ents] + ["zz", c[1][2][1].swapcase(), c[1][2][1].upper(), c[1][2][1] + "x", c[1][2][1][:-1] or "z"]))
            conds[i] = ("cond", ("col", c[1][1], q), c[2], c[3])
        elif d == "fn":
            conds[i] = ("cond", ("fn", c[1]), c[2], c[3])
        elif d == "having":
            having.append(conds.pop(i))
        elif d == "outer":
            outer.append(conds.pop(i))
        elif d == "sub":
            conds[i] = ("cond", ("col", "b", c[1][2] if c[1][0] == "col" else None), c[2], c[3])
        elif d == "swap" and c[1][0] == "col":
            op = {"GTE": "LT", "LT": "GTE", "EQ": "NEQ", "IN": "NOT_IN"}.get(c[2], "EQ")
            conds[i] = ("cond", c[1], op, c[3])
        elif d == "dup_bad":
            conds.append(("cond", c[1], "NEQ", 7))

    # unrelated conditions, then nesting in ANDs
    for _ in range(r.choice([0, 0, 1, 3])):
        q = (ents[0][0], ents[0][1]) if inner_kind == "join" else None
        x = ("cond", ("col", r.choice(["b", "zz"]), q), r.choice(["EQ", "GT"]), 5)
        conds.append(x if r.random() < 0.6 else ("bool", "OR", (x, x), "list", "short"))
    r.shuffle(conds)
    nest = r.choice([0, 0, 1, 2, 4, 12])
    while nest and len(conds) >= 2:
        nest -= 1
        k = r.randint(2, min(4, len(conds)))
        i = r.randint(0, len(conds) - k)
        conds[i : i + k] = [("bool", "AND", tuple(conds[i : i + k]), r.choice(["list", "tuple"]), r.choice(["short", "generic"]))]
    if len(conds) > 1 and r.random() < 0.1:  # deep and one-sided
        for _ in range(r.choice([3, 8, 30])):
            conds = [("bool", "AND", tuple(conds), "list", r.choice(["short", "generic"])), ("cond", ("col", "zz", None), "EQ", 1)]
            if r.random() < 0.5:
                conds.reverse()
    where = tuple(conds)

    # the real objects
    def mk(e):
        m = None
        if e[2] is not None:
            names = sorted(set(COLS + ["zz"]) | set(e[2][0]))
            r.shuffle(names)
            m = DataModel([ColumnModel(n, required=n in e[2][0]) for n in names], ColumnModel(e[2][1], required=r.random() < 0.5))
        return S.Entity(e[0], e[1], None, m)

    if inner_kind == "entity":
        match = mk(ents[0])
        sel = [S.Column("a"), S.Column("b")]
    elif inner_kind == "storage":
        e = mk(ents[0])
        match = S.Storage(e.name, None, e.data_model)
        sel = [S.Column("a"), S.Column("b")]
    else:
        objs = [mk(e) for e in ents]
        pairs = [(objs[0], objs[i]) for i in range(1, len(objs))]
        if r.random() < 0.3:
            pairs = [(b, a) for a, b in pairs]
        match = S.Join([S.Relationship(a, "has", b) for a, b in pairs])
        sel = [S.Column("a", objs[0]), S.Column("b", objs[0])]
    w = [build_tree(c) for c in where]
    if not w and r.random() < 0.5:
        w = None
    if w is not None and r.random() < 0.2:
        w = tuple(w)
    query = S.Query(match, sel, where=w, having=[build_tree(c) for c in having] or None)
    for i in range(depth):
        ow = [S.Condition(S.Column("a"), S.Op.EQ, 1)] + ([build_tree(c) for c in outer] if r.random() < 0.5 else [])
        ow = r.choice([ow, ow, None, []])
        extra = r.choice([{}, {}, {"limit": S.Limit(5)}, {"groupby": [S.Column("a")]}, {"having": [S.Condition(S.Column("a"), S.Op.EQ, 1)]}, {"orderby": [S.OrderBy(S.Column("a"), S.Direction.ASC)]}])
        try:
            query = S.Query(query, [S.Column("a")], where=ow, **extra)
        except Exception:
            # outer references to columns the inner query lacks: judge the inner query itself
            break
    if inner_kind == "storage":
        expect = True
    else:
        expect = all(satisfied(e, where) for e in ents)
    show = {"match": (inner_kind, depth, ents), "where": where, "having": having}
    try:
        out = validate_required_columns(query)
        err = None
    except Exception as e:
        err = e
    if err is not None and not isinstance(err, RequiredColumnError):
        ctx.violation("the check failed with %s" % type(err).__name__, error=repr(err), **show)
        return
    if expect and err is not None:
        ctx.violation("a query with all required conditions was rejected", error=repr(err), damages=damages, **show)
        return
    if not expect and err is None:
        ctx.violation("a query without a required condition was accepted", damages=damages, **show)
        return
    ctx.saw("accepted" if expect else "rejected")
    if any(e[2] is not None for e in ents):
        ctx.distinct(repr((inner_kind, depth, sorted(damages), expect)))
        ctx.sample("%s %s %s -> %s" % (inner_kind, depth, damages, expect))
