"""C06: expressions exist exactly when they are legal."""
import decimal
from datetime import datetime

import harvest
import snuba_sdk as S
import spec
import util
from snuba_sdk.entity import InvalidEntityError
from snuba_sdk.expressions import InvalidExpressionError
from snuba_sdk.schema import Column as ColumnModel
from snuba_sdk.schema import DataModel
from snuba_sdk.storage import InvalidStorageError

PROPERTY = "C06"
RULE = (
    "Constructor calls of all 21 expression classes; every argument is drawn legal or illegal (names with one hostile "
    "character inserted at any position, integers around 0, 1, 10000 and every constant of the code, wrong types, "
    "wrong element at any position of a sequence). Legality is decided by predicates written from the documented rules, "
    "not by the SDK's expressions. Observed: object or exception class, and the attributes of the object. "
    "Distinct by class and arguments; non-trivial: all."
)
ASSUMPTIONS = [
    "not judged (unspecified): bool where an int is expected, nan/inf samples, a str passed as a sequence, a sample given as int subclass",
]
BUDGET = {"quick": 2000000, "thorough": 8000000}
FLOOR = {"evaluations": 20000, "distinct": 15000, "accepted": 10000, "rejected": 8000}


class Odd:
    def __repr__(self):
        return "<odd>"


# ---- the rules -----------------------------------------------------------------


def word(c):
    return c.isalnum() or c == "_"


ASCII_ALPHA = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGITS = set("0123456789")


def ok_column(n):
    if not n or not (n[0] in ASCII_ALPHA or n[0] == "_"):
        return False
    head, br, tail = n.partition("[")
    if not all(word(c) or c in ".:/@" for c in head):
        return False
    return not br or (tail.endswith("]") and "[" not in tail and "]" not in tail[:-1])


def ok_function(n):
    return len(n) >= 2 and n[0] in ASCII_ALPHA and all(word(c) or c in "().,+'\": []-" for c in n[1:])


def ok_alias(n):
    return n != "" and all(c in ASCII_ALPHA or c in DIGITS or c in "_.+*/:-[]()@" for c in n)


def ok_entity(n):
    return n != "" and all(c in ASCII_ALPHA or c == "_" for c in n)


def ok_ident(n):
    return n != "" and n[0] not in DIGITS and all(c in ASCII_ALPHA or c in DIGITS or c == "_" for c in n)


# ---- drawing arguments: (value, legal) --------------------------------------------

HOSTILE = list("\n\r\t \0.,:;/\\@[](){}'\"`-+*#$%&|<>=!?^~_09aZ") + ["é", "日", "\u2028", "²", "٣", "\u00a0", "\ufeff", "😀", "\x1f", "\x85"]
BASES = ["a", "ab", "project_id", "tags[a]", "tags[]", "tags[a b]", "a.b:c/d@e", "count", "f1", "quantile(0.5)", "_x", "A9", "", "_", "a[b]c",
         "a[b][c]", "a[[b]]", "[a]", "a]", "a[", "9a", "x-y", "toDate", "a" * 300]


class D:
    def __init__(self, r):
        self.r = r
        self.p = r.choice([0.05, 0.2, 0.5])  # how often an argument is drawn freely

    def bad(self):
        return self.r.random() < self.p

    def junk(self, *but):
        pool = [Odd(), {"a": 1}, {1}, object, 1j, decimal.Decimal(1), S.Op.EQ, S.Direction.ASC, S.BooleanOp.OR, print, range(3),
                S.Query(S.Entity("events"), [S.Column("a")]), bytearray(b"x"), frozenset([1])]
        while True:
            x = self.r.choice(pool)
            if not isinstance(x, but):
                return x

    def name(self, ok, typed=True):
        r = self.r
        k = r.random()
        if typed and self.bad() and r.random() < 0.25:
            return r.choice([None, 1, 1.5, b"a", ["a"], ("a",), self.junk()]), False
        if k < 0.5:
            n = r.choice(["a", "ab", "abc", "count", "project_id", "events", "tags_x"])
        elif k < 0.6 and harvest.STRS:
            n = r.choice(harvest.STRS)
        else:
            n = r.choice(BASES)
        if self.bad():
            for _ in range(r.choice([1, 1, 2])):
                i = r.choice([0, len(n), r.randint(0, len(n))])
                c = r.choice(HOSTILE) if r.random() < 0.8 else chr(r.choice([r.randint(0, 127), r.randint(128, 0x24F)]))
                n = n[:i] + c + n[i + r.choice([0, 0, 1]):]
        return n, ok(n)

    def model(self):
        names = self.r.sample(["a", "ab", "abc", "tags", "count", "timestamp"], self.r.randint(1, 4))
        return DataModel([ColumnModel(n, required=self.r.random() < 0.3) for n in names], ColumnModel("timestamp")), names

    def column(self):
        r = self.r
        e = r.choice([None, None, S.Entity("events", "e")])
        return S.Column(r.choice(["a", "b", "tags[x]"]), e)

    def function(self):
        r = self.r
        return r.choice([
            S.Function("count", [], "cnt"), S.Function("max", [S.Column("a")]), S.CurriedFunction("quantile", [0.5], [S.Column("a")]),
            S.Function("now"),
        ])

    def literal(self):
        r = self.r
        return r.choice([None, True, "x", b"x", 1.5, 3, datetime(2020, 1, 1), datetime(2020, 1, 1).date(), "", "it's"])

    def scalar(self, depth=2):
        r = self.r
        if depth and r.random() < 0.35:
            out, legal = [], True
            for _ in range(r.choice([0, 1, 2, 3, 6])):
                v, l = self.scalar(depth - 1)
                if r.random() < 0.1:
                    v, l = r.choice([self.column(), self.function()]), True
                out.append(v)
                legal = legal and l
            if self.bad() and r.random() < 0.3:
                out.insert(r.randint(0, len(out)), self.junk())
                legal = False
            return (out if r.random() < 0.5 else tuple(out)), legal
        return self.literal(), True

    def operand(self):
        """right hand sides of conditions"""
        r = self.r
        k = r.random()
        if self.bad() and k < 0.35:
            return r.choice([
                self.junk(), S.Identifier("x"), S.Lambda(["x"], S.Function("ff", [])), S.AliasedExpression(S.Column("a"), "b"),
                S.Condition(S.Column("a"), S.Op.EQ, 1), S.Entity("events"), S.Limit(1), S.OrderBy(S.Column("a"), S.Direction.ASC),
            ]), False
        if k < 0.5:
            return self.scalar()
        return (self.column() if k < 0.75 else self.function()), True

    def colfn(self):
        r = self.r
        if self.bad() and r.random() < 0.4:
            return r.choice([
                "a", None, 1, [S.Column("a")], self.junk(), S.Identifier("x"), S.AliasedExpression(S.Column("a"), "b"),
                S.Condition(S.Column("a"), S.Op.EQ, 1), S.Lambda(["x"], S.Function("ff", [])), S.Entity("events"),
            ]), False
        return r.choice([self.column(), self.function()]), True

    def seq(self, item, lo=0, kinds=(list, tuple)):
        """-> sequence, legal"""
        r = self.r
        if r.random() < 0.03:  # long, with at most one item drawn freely
            n = harvest.big(r, 130)
            p, self.p = self.p, 0
            items = [item() for _ in range(n)]
            if r.random() < 0.6:
                self.p = 0.9
                items[-1 if r.random() < 0.4 else r.randrange(n)] = item()
            self.p = p
            return r.choice(kinds)(v for v, _ in items), n >= lo and all(l for _, l in items)
        n = r.choice([lo, lo, lo + 1, lo + 2, lo + 5])
        if self.bad() and lo:
            n = r.randint(0, lo)
        items = [item() for _ in range(n)]
        legal = n >= lo and all(l for _, l in items)
        return r.choice(kinds)(v for v, _ in items), legal

    def integer(self, lo, hi):
        r = self.r
        if self.bad():
            k = r.random()
            if k < 0.35:
                return r.choice([None, "1", 1.0, 0.5, b"1", [1], self.junk(), float(lo + 1)]), False
            v = r.choice([-1, 0, 1, lo - 1, lo, (hi or 10**9), (hi or 10**9) + 1, -(10**9), 10**12] + harvest.INTS) + r.choice([0, 0, -1, 1])
            return v, v >= lo and (hi is None or v <= hi)
        v = r.choice([lo, lo + 1, hi or 10**12, r.randint(lo, hi or 10**6)] + [i for i in harvest.INTS if i >= lo and (hi is None or i <= hi)])
        return v, True

    def boolean(self):
        if self.bad():
            return self.r.choice([None, 0, 1, "True", "", [], 1.0, self.junk()]), False
        return self.r.choice([True, False]), True

    def enum(self, cls, but=()):
        if self.bad():
            return self.r.choice([None, "=", "AND", "ASC", 1, self.junk(cls), cls]), False
        return self.r.choice([m for m in cls if m.name not in but]), True

    def opt_alias(self):
        if self.r.random() < 0.4:
            return None, True
        v, l = self.name(ok_alias)
        return v, (l if v is not None else True)

    def sample(self):
        r = self.r
        if r.random() < 0.5:
            return None, True
        if self.bad():
            return r.choice([(0.0, False), (-0.0, False), (-1.0, False), (1, False), (0, False), ("0.1", False), (1e-300, True),
                             (-1e-300, False), (self.junk(), False), ([0.1], False), (1e300, True), (b"1", False)])
        return r.choice([0.1, 1.0, 100.0, 1e-9]), True

    def opt_model(self):
        r = self.r
        if self.bad() and r.random() < 0.3:
            return r.choice([{}, "model", 1, [], self.junk(), ColumnModel("a")]), False
        return (self.model()[0] if r.random() < 0.3 else None), True

    def entity_obj(self, alias=True):
        r = self.r
        return S.Entity(r.choice(["events", "transactions", "spans"]), r.choice(["e", "t", "s"]) if alias else None)


FAMILY = {"Entity": InvalidEntityError, "Storage": InvalidStorageError}


def draw(d, cls):
    """-> args, legal, {attribute: expected value}"""
    r = d.r
    if cls == "Column":
        n, l = d.name(ok_column)
        want = {"name": n}
        args = [n]
        if l and "[" in n:
            want["subscriptable"], want["key"] = n[: n.index("[")], n[n.index("[") + 1 : -1]
        elif l:
            want["subscriptable"] = want["key"] = None
        if r.random() < 0.4:
            k = r.random()
            if d.bad() and k < 0.5:
                e = r.choice(["e", 1, S.Storage("events"), S.Column("a"), d.junk(), S.Entity("events"), ("events", "e")])
                l = False
            elif k < 0.6:
                e = S.Entity("events", "e")
            else:
                m, names = d.model()
                e = S.Entity("events", r.choice(["e", "e", "e", None]), None, m)
                if e.alias is None:
                    l = False
                elif l:
                    l = n.partition("[")[0] in names
            args.append(e)
            want["entity"] = e
        return args, l, want
    if cls in ("Function", "CurriedFunction"):
        n, l = d.name(ok_function)

        def init():
            if d.bad() and r.random() < 0.3:
                return r.choice([S.Function("ff", []), [1], (1,), S.Identifier("x"), d.junk(), S.AliasedExpression(S.Column("a"), "b")]), False
            return r.choice([d.column(), d.literal(), d.literal()]), True

        def param():
            k = r.random()
            if d.bad() and k < 0.3:
                return r.choice([d.junk(), S.AliasedExpression(S.Column("a"), "b"), S.Condition(S.Column("a"), S.Op.EQ, 1), S.Entity("events", "e"),
                                 S.Limit(1), S.And([S.Condition(S.Column("a"), S.Op.EQ, 1)] * 2), S.Totals(True), S.Storage("events")]), False
            if k < 0.6:
                return r.choice([d.column(), d.function(), S.Identifier("x"), S.Lambda(["x"], S.Function("ff", [S.Identifier("x")]))]), True
            return d.scalar()

        def opt(item):
            k = r.random()
            if k < 0.25:
                return None, True
            if d.bad() and k < 0.35:
                return r.choice([1, {"a": 1}, {1}, S.Column("a"), Odd(), 1.5]), False
            return d.seq(item)

        p, pl = opt(param)
        a, al = d.opt_alias()
        if cls == "Function":
            return [n, p, a], l and pl and al, {"function": n, "parameters": p, "alias": a, "initializers": None}
        i, il = opt(init)
        return [n, i, p, a], l and pl and al and il, {"function": n, "initializers": i, "parameters": p, "alias": a}
    if cls == "Identifier":
        n, l = d.name(ok_ident)
        return [n], l, {"name": n}
    if cls == "Lambda":
        ids, l = d.seq(lambda: d.name(ok_ident))
        if d.bad() and r.random() < 0.2:
            ids, l = r.choice([("x", False), ({"x"}, False), (None, False), (1, False)])
        t, tl = d.function(), True
        if d.bad() and r.random() < 0.4:
            t, tl = r.choice([S.Column("a"), "x", None, S.Identifier("x"), d.junk(), S.Lambda(["x"], S.Function("ff", []))]), False
        return [ids, t], l and tl, {"identifiers": ids, "transformation": t}
    if cls == "Condition":
        lhs, l = d.colfn()
        op, ol = d.enum(S.Op, ("NOT",))
        if ol and op.name in spec.UNARY:
            if d.bad():
                rhs, rl = d.operand()
                rl = rl and rhs is None
                return [lhs, op, rhs], l and rl, {"lhs": lhs, "op": op, "rhs": rhs}
            return [lhs, op], l, {"lhs": lhs, "op": op, "rhs": None}
        rhs, rl = d.operand()
        return [lhs, op, rhs], l and ol and rl, {"lhs": lhs, "op": op, "rhs": rhs}
    if cls in ("BooleanCondition", "And", "Or"):
        def one():
            if d.bad() and r.random() < 0.3:
                return r.choice([S.Column("a"), S.Function("ff", []), None, "a = 1", 1, True, d.junk(), [S.Condition(S.Column("a"), S.Op.EQ, 1)]]), False
            c = S.Condition(S.Column("a"), S.Op.EQ, r.randint(0, 5))
            return r.choice([c, c, S.Or([c, c]), S.BooleanCondition(S.BooleanOp.AND, (c, c))]), True

        cs, l = d.seq(one, 2)
        if d.bad() and r.random() < 0.2:
            cs, l = r.choice([None, 1, {1: 2, 3: 4}, Odd(), {1, 2}, S.Condition(S.Column("a"), S.Op.EQ, 1)]), False
        if cls != "BooleanCondition":
            return [cs], l, {"conditions": cs, "op": S.BooleanOp.AND if cls == "And" else S.BooleanOp.OR}
        op, ol = d.enum(S.BooleanOp)
        return [op, cs], l and ol, {"op": op, "conditions": cs}
    if cls == "OrderBy":
        e, l = d.colfn()
        v, vl = d.enum(S.Direction)
        return [e, v], l and vl, {"exp": e, "direction": v}
    if cls == "LimitBy":
        def col():
            if d.bad() and r.random() < 0.3:
                return r.choice(["a", None, 1, S.Function("ff", []), S.AliasedExpression(S.Column("a"), "b"), d.junk()]), False
            return d.column(), True

        cs, l = d.seq(col, 1)
        if d.bad() and r.random() < 0.2:
            cs, l = r.choice([None, 1, {1: 2}, S.Column("a"), Odd(), "ab", ""]), False
        n, nl = d.integer(1, 10000)
        return [cs, n], l and nl, {"columns": cs, "count": n}
    if cls == "Limit":
        n, l = d.integer(1, 10000)
        return [n], l, {"limit": n}
    if cls == "Offset":
        n, l = d.integer(0, None)
        return [n], l, {"offset": n}
    if cls == "Granularity":
        n, l = d.integer(1, None)
        return [n], l, {"granularity": n}
    if cls == "Totals":
        n, l = d.boolean()
        return [n], l, {"totals": n}
    if cls == "Extrapolate":
        n, l = d.boolean()
        return [n], l, {"extrapolate": n}
    if cls == "Entity":
        n, l = d.name(ok_entity)
        a, al = None, True
        if r.random() < 0.6:
            a, al = d.name(lambda s: s != "")
            al = True if a is None else al
        s, sl = d.sample()
        m, ml = d.opt_model()
        return [n, a, s, m], l and al and sl and ml, {"name": n, "alias": a, "sample": s, "data_model": m}
    if cls == "Storage":
        n, l = d.name(ok_entity)
        s, sl = d.sample()
        m, ml = d.opt_model()
        return [n, s, m], l and sl and ml, {"name": n, "sample": s, "data_model": m}
    if cls == "Relationship":
        def ent():
            if d.bad() and r.random() < 0.5:
                return r.choice([S.Entity("events"), S.Storage("events"), "events", None, d.junk(), S.Column("a")]), False
            return d.entity_obj(), True

        a, al = ent()
        b, bl = ent()
        n, l = d.name(lambda s: s != "")
        return [a, n, b], al and bl and l, {"lhs": a, "name": n, "rhs": b}
    if cls == "Join":
        def rel():
            if d.bad() and r.random() < 0.3:
                return r.choice([S.Entity("events", "e"), None, "x", d.junk(), (1, 2, 3)]), False
            return S.Relationship(d.entity_obj(), "has", d.entity_obj()), True

        rs, l = d.seq(rel, 1)
        if r.random() < 0.4:  # many aliases, at most one clash, anywhere
            n = r.choice([2, 3, 5, 8, 12, 20, 40])
            ents = [S.Entity("ent_" + r.choice("abc"), "%s%d" % (r.choice("eE_"), i)) for i in range(n)]
            pairs = [(a, b) for a, b in zip(ents, ents[1:])] + [(r.choice(ents), r.choice(ents)) for _ in range(r.choice([0, 1, 5]))]
            if d.bad():
                x = r.choice(ents)
                y = (S.Entity(x.name + r.choice(["x", "_", "A"]), x.alias), r.choice(ents))
                pairs.insert(r.randint(0, len(pairs)), y if r.random() < 0.5 else y[::-1])
            if r.random() < 0.5:
                r.shuffle(pairs)
            rs = [S.Relationship(a, "has", b) for a, b in pairs]
            rs, l = (rs if r.random() < 0.5 else tuple(rs)), True
        if d.bad() and r.random() < 0.2:
            rs, l = r.choice([None, 1, "ab", {1: 2}, Odd(), S.Relationship(S.Entity("a", "x"), "has", S.Entity("b", "y"))]), False
        if l:
            seen = {}
            for x in rs:
                for e in (x.lhs, x.rhs):
                    if seen.setdefault(e.alias, e.name) != e.name:
                        l = False
        return [rs], l, {"relationships": rs}
    if cls == "AliasedExpression":
        e, l = d.column(), True
        if d.bad() and r.random() < 0.4:
            e, l = r.choice([d.function(), "a", None, d.junk(), S.AliasedExpression(S.Column("a"), "b"), S.Identifier("x")]), False
        a, al = d.opt_alias()
        return [e, a], l and al, {"exp": e, "alias": a}
    raise AssertionError(cls)


CLASSES = ["Column", "Function", "CurriedFunction", "Identifier", "Lambda", "Condition", "BooleanCondition", "And", "Or", "OrderBy",
           "LimitBy", "Limit", "Offset", "Granularity", "Totals", "Extrapolate", "Entity", "Storage", "Relationship", "Join", "AliasedExpression"]


def case(ctx):
    r = ctx.rng
    d = D(r)
    cls = r.choice(CLASSES)
    args, legal, want = draw(d, cls)
    try:
        obj = getattr(S, cls)(*args)
        err = None
    except Exception as e:
        obj, err = None, e
    show = "%s(%s)" % (cls, ", ".join(map(repr, args)))
    ctx.distinct(show)
    if err is not None and not isinstance(err, FAMILY.get(cls, InvalidExpressionError)):
        ctx.violation("%s failed with %s instead of its own error" % (cls, type(err).__name__), call=show, error=repr(err), legal=legal)
        return
    if legal and err is not None:
        ctx.violation("a legal %s was rejected" % cls, call=show, error=repr(err))
        return
    if not legal and err is None:
        ctx.violation("an illegal %s was accepted" % cls, call=show)
        return
    ctx.saw("accepted" if legal else "rejected")
    ctx.saw(cls)
    if not legal:
        ctx.sample("rejected: " + show)
        return
    for k, v in want.items():
        got = getattr(obj, k)
        if util.freeze(got) != util.freeze(v):
            ctx.violation("%s.%s is not what was given" % (cls, k), call=show, expected=v, got=got)
            return
    obj.validate()
