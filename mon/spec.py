"""Neutral specifications of SDK objects: how they are generated, how they are
built with the SDK's public API, and what SnQL they mean.

A spec is made of plain tuples.  `build` turns it into SDK objects; `canon` gives
its meaning as the syntax tree that mon/snql.py reads from SnQL text.  The meaning
is derived from the spec alone, never from SDK objects.
"""
from __future__ import annotations

import math
from datetime import date, datetime, timedelta, timezone

import harvest

try:
    from zoneinfo import ZoneInfo

    ZONES = [ZoneInfo(z) for z in ("America/New_York", "Asia/Kolkata", "UTC")]
except Exception:  # no tz database here
    ZONES = []

import snuba_sdk as S
from snuba_sdk.schema import Column as ColumnModel
from snuba_sdk.schema import DataModel

KEYWORDS = {
    "TRUE", "FALSE", "NULL", "AND", "OR", "IN", "NOT", "LIKE", "IS", "BY", "AS",
    "SELECT", "WHERE", "HAVING", "MATCH", "ORDER", "LIMIT", "OFFSET", "TOTALS",
    "GRANULARITY", "ARRAY", "JOIN", "ASC", "DESC", "SAMPLE", "STORAGE",
}

OPS = {
    "GT": ">", "LT": "<", "GTE": ">=", "LTE": "<=", "EQ": "=", "NEQ": "!=",
    "IN": "IN", "NOT_IN": "NOT IN", "LIKE": "LIKE", "NOT_LIKE": "NOT LIKE",
    "IS_NULL": "IS NULL", "IS_NOT_NULL": "IS NOT NULL",
}
UNARY = ("IS_NULL", "IS_NOT_NULL")

WORDS = """project_id org_id timestamp event_id message title release environment user
user_id type platform finish_ts transaction duration status level a b c x y _ a1 A_b
column1 time url.path sdk:name some/thing at@home device.family measurements.lcp
true false null not_a_keyword And or select""".split()
FUNCS = """count uniq min max sum avg quantile quantiles topK ifNull if equals plus minus
toString toStartOfHour arrayMap arrayExists has tuple array concat apdex failure_rate
f1 fn My_func toDateTime lower upper toHour countIf sumIf uniqExact not and or""".split()
ENTITIES = """events transactions sessions spans discover outcomes discover_events
errors metrics_counters my_entity groupassignee""".split()
ALIAS_CHARS = "abcXYZ019_.+*/:-[]()@"
NASTY = [
    "'", "\\", "\n", "\\n", "\\'", "''", '"', "`", "\\\\", " ", "\t", "\r", "\0",
    ",", "(", ")", "[", "]", "{", "}", "AND", "OR", "') OR (1=1", "' AS `x`", "--",
    "/*", "*/", "%", "*", "$x", ":", ";", "=", "NULL", "TRUE", "é", "日本", "😀",
    "\u2028", "\x85", "\x1f", "\x7f", "\u200b", "tags[a]", "toDateTime('x')", "\\0",
    "\\x41", "\r\n", "\\r", "\\t", "%s", "{0}", "{x}", "\ufeff",
]


class Gen:
    def __init__(self, rng, p_model=0.3):
        self.r = rng
        self.p_model = p_model
        self.profile = rng.choices(
            ["small", "medium", "wide", "deep", "long"], [40, 40, 8, 6, 6]
        )[0]
        self.depth_cap = {"small": 1, "medium": 2, "wide": 1, "deep": 7, "long": 1}[
            self.profile
        ]
        # how many nodes the case may still spend; afterwards only leaves are made
        self.fuel = {"small": 25, "medium": 60, "wide": 350, "deep": 120, "long": 25}[
            self.profile
        ]

    # -- sizes ----------------------------------------------------------------
    def size(self, lo=0, hi=4):
        r = self.r
        if self.fuel <= 0:
            return lo
        if self.profile == "wide" and r.random() < 0.25:
            return max(lo, harvest.big(r, 400))
        if self.profile == "small":
            hi = max(lo, min(hi, 2))
        return r.randint(lo, hi)

    def spend(self, n=1):
        self.fuel -= n

    # -- names ----------------------------------------------------------------
    def ident(self):
        r = self.r
        first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
        return r.choice(first) + "".join(
            r.choice(first + "0123456789") for _ in range(r.choice([0, 1, 2, 5, 12, 30]))
        )

    def tag_key(self):
        r = self.r
        return r.choice(
            ["a", "foo", "a b", "", "sentry:release", "it's", 'q"q', "x,y", "(p)",
             "a.b.c", "1", "é", "`", "\\", " ", "a-b", "$", "AND", self.ident()]
        )

    def colname(self, plain=False):
        r = self.r
        for _ in range(20):
            k = r.random()
            if k < 0.55:
                n = r.choice(WORDS)
            elif k < 0.65 and harvest.COLUMN_LIKE:
                n = r.choice(harvest.COLUMN_LIKE)
            elif k < 0.85:
                n = self.ident()
                n += "".join(
                    r.choice("abz09_.:/@é") for _ in range(r.choice([0, 0, 3, 9]))
                )
            elif k < 0.87:
                n = self.ident() + r.choice("abz_.") * r.choice([20, 31, 63, 64, 127, 255]) + r.choice("abz_09")
            else:
                n = r.choice(["tags", "contexts", "sentry_tags", r.choice(WORDS)])
                if not plain:
                    return "%s[%s]" % (n, self.tag_key())
            if n not in KEYWORDS:
                return n
        return "a"

    def funcname(self):
        r = self.r
        for _ in range(20):
            k = r.random()
            if k < 0.6:
                n = r.choice(FUNCS)
            elif k < 0.75 and harvest.FUNC_LIKE:
                n = r.choice(harvest.FUNC_LIKE)
            else:
                n = self.ident().lstrip("_") + r.choice(["x", "1", "_f", ".g"])
                if not n[0].isalpha():
                    n = "f" + n
            if n not in KEYWORDS and len(n) > 1:
                return n
        return "count"

    def alias(self):
        r = self.r
        if r.random() < 0.5:
            return r.choice(["a", "cnt", "p95", "count()", "a.b", "x:y", "t[0]"])
        return "".join(r.choice(ALIAS_CHARS) for _ in range(r.choice([1, 2, 6, 20])))

    # -- literals ---------------------------------------------------------------
    def string(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return r.choice(["", "a", "error", "1.2.3", "2021-01-02T03:04:05", "hello world"])
        if k < 0.3 and harvest.STRS:
            return r.choice(harvest.STRS)
        n = r.choice([1, 1, 2, 3, 5])
        if self.profile == "long" and r.random() < 0.3:
            n = r.choice([30, 100, 400])
        parts = []
        for _ in range(n):
            parts.append(
                r.choice(
                    [r.choice(NASTY), r.choice(NASTY), r.choice(["x", "ab", "z9"]),
                     r.choice(harvest.CHARS or ["a"]), chr(r.choice([r.randint(0, 0x2FF), r.randint(32, 126)]))]
                )
            )
        return "".join(parts)

    def integer(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return r.choice([0, 1, -1, 2, 10, 100, 255, 256, 1000, 10000, 10001])
        if k < 0.65:
            return r.choice(harvest.INTS or [7]) + r.choice([-1, 0, 1])
        if k < 0.85:
            return r.choice([1, -1]) * (2 ** r.choice([31, 32, 53, 63, 64, 127]) + r.choice([-1, 0, 1]))
        return r.randint(-(10**6), 10**6)

    def floating(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice([0.0, -0.0, 0.5, 1.0, -1.5, 0.1, 0.95, 1e-7, 1e22, 1e-300, 1.5e300, 123456789.123, 2.0**53])
        if k < 0.7:
            return float(self.integer() % 10**9)
        if k < 0.8:  # many decimals
            return r.choice([1 / 3, 2 / 3, 0.1 + 0.2, 3.141592653589793, 1234.5678901234567, r.random()]) * r.choice([1, -1])
        return r.uniform(-1, 1) * 10 ** r.randint(-9, 18)

    def dt(self):
        r = self.r
        y = r.choice([1970, 1999, 2000, 2021, 2038, 2100, r.randint(1950, 2150)])
        micro = r.choice([0, 0, 1, 10, 100000, 999999, r.randint(0, 999999), 1000 * r.randint(1, 999), r.choice([1000, 10000, 500000, 999000, 999, 1001])])
        d = datetime(y, r.randint(1, 12), r.randint(1, 28), r.choice([0, 1, 12, 23]), r.choice([0, 1, 30, 59]), r.choice([0, 1, 59]), micro)
        if r.random() < 0.05:
            d = r.choice([datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999), datetime(2021, 12, 31, 23, 59, 59), datetime(2020, 2, 29)])
            return d
        k = r.random()
        if k < 0.45:
            return d
        if k < 0.6:
            return d.replace(tzinfo=timezone.utc)
        if k < 0.7 and ZONES:
            return d.replace(tzinfo=r.choice(ZONES), fold=r.choice([0, 1]))
        off = timedelta(
            hours=r.choice([-12, -8, -1, 0, 1, 5, 9, 14]),
            minutes=r.choice([0, 0, 30, 45]),
            seconds=r.choice([0, 0, 0, 17]),
        )
        return d.replace(tzinfo=timezone(off))

    def literal(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return self.string()
        if k < 0.6:
            return self.integer()
        if k < 0.7:
            return self.floating()
        if k < 0.78:
            return self.dt()
        if k < 0.82:
            d = self.dt()
            return date(d.year, d.month, d.day)
        if k < 0.9:
            return r.choice([True, False, None])
        return self.string().encode("utf-8")

    def of_type(self, t):
        if t is type(None):
            return None
        if t is bool:
            return self.r.random() < 0.5
        if t is date:
            d = self.dt()
            return date(d.year, d.month, d.day)
        f = {str: self.string, int: self.integer, float: self.floating, datetime: self.dt}.get(t)
        return f() if f else self.string().encode("utf-8")

    # -- expressions ------------------------------------------------------------
    def seq(self, scope, depth, exprs=True):
        r = self.r
        kind = r.choice(["list", "tuple"])
        n = self.size(0, 4)
        self.spend(n)
        exprs = exprs and self.can_col(scope)
        homog = r.random() < 0.6
        base = self.literal() if r.random() < 0.5 else r.choice(["", 1, 0.5, datetime(2000, 1, 1), True, date(2000, 1, 1), b""])
        out = []
        for _ in range(n):
            k = r.random()
            if exprs and k < 0.12:
                out.append(self.column(scope))
            elif exprs and k < 0.18 and depth > 0:
                out.append(self.func(scope, depth - 1))
            elif k < 0.26 and depth > 0:
                out.append(self.seq(scope, depth - 1, exprs))
            elif homog:
                out.append(("lit", self.of_type(type(base))))
            else:
                out.append(("lit", self.literal()))
        return (kind, tuple(out))

    def column(self, scope):
        """scope: list of (name or None, entity spec or None) a column may come from"""
        r = self.r
        names, ents = scope["names"], scope["entities"]
        ent = r.choice(ents) if ents else None
        if ent is None and scope.get("loose_entity") and r.random() < 0.1:
            # a column may carry its entity where no join is matched
            ent = r.choice(scope.get("loose") or [("entity", "events", "e", None, None)])
        if names is not None:
            if isinstance(names, dict):
                name = r.choice(names[ent[2]]) if ent is not None else r.choice(sum(names.values(), []))
            else:
                name = r.choice(names)
            if isinstance(name, tuple):  # ("sub", base): subscriptable of the model
                name = "%s[%s]" % (name[1], self.tag_key())
        else:
            name = self.colname()
        return ("col", name, ent)

    def can_col(self, scope):
        return scope["names"] is None or bool(scope["names"])

    def param(self, scope, depth):
        r = self.r
        k = r.random()
        if k < 0.4 and self.can_col(scope):
            return self.column(scope)
        if self.fuel <= 0:
            depth = 0
        if k < 0.6 and depth > 0:
            return self.func(scope, depth - 1)
        if k < 0.7:
            return self.seq(scope, depth, self.can_col(scope))
        if k < 0.76:
            return ("ident", self.ident())
        if k < 0.82 and depth > 0:
            return (
                "lambda",
                tuple(self.ident() for _ in range(r.choice([0, 1, 1, 2, 3]))),
                self.func(scope, depth - 1, force_call=True),
            )
        return ("lit", self.literal())

    def params(self, scope, depth):
        r = self.r
        n = self.size(0, 3)
        self.spend(n)
        return (r.choice(["list", "tuple"]), tuple(self.param(scope, depth) for _ in range(n)))

    def func(self, scope, depth, alias=None, force_call=False):
        r = self.r
        al = self.alias() if (alias or (alias is None and r.random() < 0.15)) else None
        params = self.params(scope, depth)
        if not force_call and r.random() < 0.05:
            params = None
        if r.random() < 0.3:
            inits = None
            if r.random() < 0.9:
                inits = (
                    r.choice(["list", "tuple"]),
                    tuple(
                        self.column(scope) if r.random() < 0.15 and self.can_col(scope) else ("lit", self.literal())
                        for _ in range(self.size(0, 3))
                    ),
                )
            return ("cfn", self.funcname(), inits, params, al)
        return ("fn", self.funcname(), params, al)

    def selectable(self, scope, aliased=True):
        r = self.r
        k = r.random()
        if k < 0.45 and self.can_col(scope):
            return self.column(scope)
        if k < 0.55 and aliased and self.can_col(scope):
            return ("aliased", self.column(scope), self.alias() if r.random() < 0.9 else None)
        return self.func(scope, self.depth_cap, alias=r.random() < 0.6)

    def condition(self, scope, depth=0):
        r = self.r
        if depth > 0 and r.random() < 0.45:
            op = r.choice(["AND", "OR"])
            n = max(2, self.size(2, 4))
            self.spend(2 * n)
            style = r.choice(["short", "short", "generic"])
            return (
                "bool", op,
                tuple(self.condition(scope, depth - 1 if self.fuel > 0 else 0) for _ in range(n)),
                style, r.choice(["list", "tuple"]),
            )
        return self.simple_cond(scope)

    def simple_cond(self, scope):
        r = self.r
        if self.can_col(scope) and r.random() < 0.7:
            lhs = self.column(scope)
        else:
            lhs = self.func(scope, min(1, self.depth_cap))
        op = r.choice(list(OPS))
        if op in UNARY:
            return ("cond", lhs, op, None)
        k = r.random()
        if op in ("IN", "NOT_IN"):
            rhs = self.seq(scope, 1)
        elif k < 0.75:
            rhs = ("lit", self.literal())
        elif k < 0.85 and self.can_col(scope):
            rhs = self.column(scope)
        elif k < 0.93:
            rhs = self.func(scope, min(1, self.depth_cap))
        else:
            rhs = self.seq(scope, 1)
        return ("cond", lhs, op, rhs)

    def conditions(self, scope, lo=0):
        n = self.size(lo, 4)
        self.spend(2 * n)
        out = [self.condition(scope, self.r.choice([0, 0, 1, self.depth_cap])) for _ in range(n)]
        if self.r.random() < 0.25:  # the shape the OR folding looks for
            out.insert(self.r.randint(0, len(out)), self.or_chain(scope))
        return tuple(out)

    def or_chain(self, scope):
        r = self.r
        lhs = self.column(scope) if self.can_col(scope) and r.random() < 0.8 else self.func(scope, 1)
        n = max(2, self.size(2, 5))
        self.spend(2 * n)
        conds = []
        for i in range(n):
            one, op = lhs, "EQ"
            k = r.random()
            if k < 0.05:
                op = r.choice(["NEQ", "IN", "GT", "LIKE"])
            elif k < 0.1:
                one = self.column(scope) if self.can_col(scope) else lhs
            rhs = self.seq(scope, 0) if op == "IN" else ("lit", self.literal())
            if r.random() < 0.05:
                rhs = self.seq(scope, 0)
            conds.append(("cond", one, op, rhs))
        if r.random() < 0.1:
            conds.insert(r.randint(0, n), self.condition(scope, 1))
        return ("bool", r.choice(["OR", "OR", "OR", "AND"]), tuple(conds), r.choice(["short", "generic"]), r.choice(["list", "tuple"]))

    # -- match ------------------------------------------------------------------
    def sample_rate(self):
        r = self.r
        if r.random() < 0.6:
            return None
        return r.choice([0.1, 1.0, 0.5, 100.0, 1e-7, 1 / 3, 12345.678, 1000000.0, 0.000001, 0.0000015, 10.5, r.uniform(1e-9, 2), 1e17])

    def model(self, base=()):
        """(columns..., time column): a data model"""
        r = self.r
        if r.random() < 1 - self.p_model:
            return None
        names = sorted({self.colname(plain=True) for _ in range(r.randint(1, 6))} | set(base))
        cols = tuple((n, r.random() < 0.3) for n in names)
        return (cols, ("timestamp", r.random() < 0.5))

    def entity(self, alias=None):
        r = self.r
        name = r.choice(ENTITIES) if r.random() < 0.8 else "".join(r.choice("abcXYZ_") for _ in range(r.randint(1, 9)))
        return ("entity", name, alias, self.sample_rate(), self.model())

    def storage(self):
        return ("storage", self.r.choice(ENTITIES), self.sample_rate(), self.model())

    def join(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        if r.random() < 0.02:
            n = harvest.big(r, 130)
        pool = {}
        for _ in range(r.choice([2, 2, 3, 4])):
            a = r.choice(["e", "t", "s", "ev", "x1", "_a", "Ab"]) if r.random() < 0.8 else self.ident()
            pool.setdefault(a, self.entity(a))
        while len(pool) < 2:
            a = self.ident()
            pool.setdefault(a, self.entity(a))
        ents = list(pool.values())
        rels, used = [], []
        for _ in range(n):
            l, rr = r.choice(ents), r.choice(ents)
            rels.append((l, r.choice(["contains", "assigned", "has_a", self.ident()]), rr))
            used += [l, rr]
        return ("join", tuple(rels)), used

    @staticmethod
    def model_names(model):
        if model is None:
            return None
        names = []
        for n, _ in model[0]:
            names.append(n)
            names.append(("sub", n))
        return names

    def match(self, nest):
        """-> match spec, scope for the columns of the query around it"""
        r = self.r
        k = r.random()
        if nest > 0 and k < 0.25:
            inner = self.query(nest - 1)
            names = []
            for s in inner["select"]:
                if s[0] == "col":
                    names.append(s[1])
                elif s[0] in ("fn", "cfn") and s[-1] is not None and valid_column_name(s[-1]):
                    names.append(s[-1])
            loose = []
            m = inner["match"]
            while m[0] == "query":
                m = m[1]["match"]
            if m[0] == "join":
                for a, _, b in m[1]:
                    loose += [x[:3] + (None, None) for x in (a, b)]
            elif m[0] == "entity" and m[2] is not None:
                loose.append(m[:3] + (None, None))
            return ("query", inner), {"names": sorted(set(names)), "entities": None, "loose_entity": True, "loose": loose}
        if k < 0.5:
            j, used = self.join()
            names = {}
            for e in used:
                ms = self.model_names(e[4])
                names[e[2]] = ms if ms is not None else [self.colname() for _ in range(3)]
            return j, {"names": names, "entities": used}
        if k < 0.62:
            s = self.storage()
            return s, {"names": self.model_names(s[3]), "entities": None, "loose_entity": s[3] is None}
        e = self.entity(self.ident() if r.random() < 0.25 else None)
        loose = [e[:3] + (None, None)] if e[2] is not None else None
        return e, {"names": self.model_names(e[4]), "entities": None, "loose_entity": e[4] is None, "loose": loose}

    def limit_int(self, lo=1, hi=10000):
        r = self.r
        c = [lo, lo + 1, 10, 100, 1000, 5000, hi - 1, hi]
        c += [i + d for i in harvest.INTS for d in (-1, 0, 1) if lo <= i + d <= hi]
        if r.random() < 0.3:
            return r.randint(lo, hi)
        return r.choice(c)

    def query(self, nest=1):
        r = self.r
        match, scope = self.match(nest)
        q = {"match": match}
        density = r.choice([0.15, 0.5, 0.9])

        def maybe(f):
            return f() if r.random() < density else None

        q["select"] = tuple(self.selectable(scope) for _ in range(max(1, self.size(1, 4))))
        q["groupby"] = maybe(lambda: tuple(self.selectable(scope) for _ in range(self.size(0, 3))))
        cols = self.can_col(scope)
        q["array_join"] = maybe(lambda: tuple(self.column(scope) for _ in range(max(1, self.size(1, 3))))) if cols else None
        q["where"] = maybe(lambda: self.conditions(scope))
        q["having"] = maybe(lambda: self.conditions(scope))

        def order():
            e = self.column(scope) if cols and r.random() < 0.5 else self.func(scope, 1)
            return (e, r.choice(["ASC", "DESC"]))

        q["orderby"] = maybe(lambda: tuple(order() for _ in range(self.size(0, 3))))
        q["limitby"] = (
            maybe(lambda: (tuple(self.column(scope) for _ in range(max(1, self.size(1, 3)))), self.limit_int()))
            if cols else None
        )
        q["limit"] = maybe(self.limit_int)
        q["offset"] = maybe(lambda: r.choice([0, 1, 50, self.limit_int(0, 10**6)]))
        q["granularity"] = maybe(lambda: self.limit_int(1, 10**6))
        q["totals"] = maybe(lambda: r.choice([True, False])) if q["groupby"] else maybe(lambda: False)
        if r.random() < self.p_stretch:
            self.stretch(q, scope)
        return q

    # -- one part made very large ------------------------------------------------
    p_stretch = 0.03

    def cheap(self, i, kind):
        return {"int": i, "str": "v%d" % i, "float": i + 0.123456789, "mix": (i, "v%d" % i, i / 7, None, True)[i % 5]}[kind]

    def cheap_cond(self, scope, i):
        r = self.r
        lhs = self.column(scope) if self.can_col(scope) else ("fn", "ff", ("list", (("lit", i),)), None)
        return ("cond", lhs, r.choice(["EQ", "NEQ", "GT"]), ("lit", i))

    def stretch(self, q, scope):
        r = self.r
        col = self.can_col(scope)
        lhs = self.column(scope) if col else ("fn", "ff", ("list", (("lit", 1),)), None)
        kind = r.choice(["in", "in", "params", "inits", "nest", "nestbool", "or", "bool", "where", "having", "select", "groupby", "orderby", "limitby", "array_join", "text", "lambda"])
        n = harvest.big(r)
        lits = tuple(("lit", self.cheap(i, k)) for k in [r.choice(["int", "str", "float", "mix"])] for i in range(n))
        seq = r.choice(["list", "tuple"])
        clause = r.choice(["where", "having"])

        def add(f, x):
            q[f] = (q[f] or ()) + (x,)

        if kind == "in":
            add(clause, ("cond", lhs, r.choice(["IN", "NOT_IN"]), (seq, lits)))
        elif kind == "params":
            add(r.choice(["select", "groupby"]), ("fn", "ff", (seq, lits), r.choice([None, "al"])))
        elif kind == "inits":
            add("select", ("cfn", "ff", (seq, lits), (seq, (lhs,)), r.choice([None, "al"])))
        elif kind == "nest":
            e = r.choice([lhs, ("lit", 1), ("list", ())])
            wrap_in = r.choice(["fn", "cfn", "seq", "any"])
            for i in range(r.choice([9, 14, 25, 40])):
                w = r.choice(["fn", "cfn", "seq"]) if wrap_in == "any" else wrap_in
                e = ("fn", "ff", (seq, (e,)), None) if w == "fn" else ("cfn", "ff", (seq, (("lit", i),)), (seq, (e,)), None) if w == "cfn" else (seq, (e,))
            e = ("fn", "ff", (seq, (e,)), None)
            k = r.choice(["select", "where", "having", "rhs", "orderby"])
            if k == "select":
                add("select", e)
            elif k == "orderby":
                add("orderby", (e, r.choice(["ASC", "DESC"])))
            elif k == "rhs":
                add(clause, ("cond", lhs, "EQ", e))
            else:
                add(k, ("cond", e, "EQ", ("lit", 1)))
        elif kind == "nestbool":
            e = self.cheap_cond(scope, 0)
            alt = r.random() < 0.5
            for i in range(r.choice([5, 9, 14, 25, 40])):
                kids = [e, self.cheap_cond(scope, i + 1)]
                if r.random() < 0.5:
                    kids.reverse()
                e = ("bool", ("AND", "OR")[i % 2 if alt else r.randint(0, 1)], tuple(kids), r.choice(["short", "generic"]), seq)
            add(clause, e)
        elif kind == "or":
            add(clause, ("bool", r.choice(["OR", "OR", "AND"]), tuple(("cond", lhs, "EQ", x) for x in lits[: max(2, min(n, 400))]), r.choice(["short", "generic"]), seq))
        elif kind == "bool":
            add(clause, ("bool", r.choice(["OR", "AND"]), tuple(self.cheap_cond(scope, i) for i in range(max(2, min(n, 400)))), r.choice(["short", "generic"]), seq))
        elif kind in ("where", "having"):
            for i in range(min(n, 400)):
                add(kind, self.cheap_cond(scope, i))
        elif kind == "text":
            t = r.choice(["a", "é", "'", "\\", "\n", "ab'c\\", "x y"]) * n
            add(clause, ("cond", lhs, "EQ", ("lit", t)))
        elif kind == "lambda":
            ids = tuple("x%d" % i for i in range(min(n, 140)))
            add("select", ("fn", "ff", (seq, (("lambda", ids, ("fn", "gg", (seq, (("ident", ids[-1]), lhs)), None)), lhs)), None))
        elif kind in ("select", "groupby"):
            for i in range(n):
                add(kind, self.column(scope) if col and r.random() < 0.5 else ("fn", "ff", (seq, (("lit", i),)), "a%d" % i))
        elif kind == "orderby":
            for i in range(n):
                add(kind, (self.column(scope) if col and r.random() < 0.5 else ("fn", "ff", (seq, (("lit", i),)), None), r.choice(["ASC", "DESC"])))
        elif col and kind == "array_join":
            q[kind] = (q[kind] or ()) + tuple(self.column(scope) for _ in range(n))
        elif col and kind == "limitby":
            q[kind] = (tuple(self.column(scope) for _ in range(n)), self.limit_int())


def valid_column_name(n):
    if not n or not (n[0].isascii() and (n[0].isalpha() or n[0] == "_")):
        return False
    head, sep, tail = n.partition("[")
    if not all(c.isalnum() or c in "_.:/@" for c in head):
        return False
    if sep:
        if not tail.endswith("]") or "[" in tail or "]" in tail[:-1]:
            return False
    return n not in KEYWORDS


# ------------------------------------------------------------------- build


def wrap(kind, items):
    return list(items) if kind == "list" else tuple(items)


def build_model(m):
    if m is None:
        return None
    return DataModel([ColumnModel(n, required=req) for n, req in m[0]], ColumnModel(m[1][0], required=m[1][1]))


def build_entity(e):
    if e is None:
        return None
    if SHARE is not None:
        key = "e" + repr(e)
        o = SHARE.get(key)
        if o is None:
            o = SHARE[key] = S.Entity(e[1], e[2], e[3], build_model(e[4]))
        return o
    return S.Entity(e[1], e[2], e[3], build_model(e[4]))


SHARE = None  # when a dictionary: equal descriptions are built once and shared


def build(s):
    if SHARE is not None and s[0] in ("col", "fn", "cfn", "cond", "bool", "entity", "lambda", "ident", "aliased", "join", "storage"):
        key = repr(s)
        o = SHARE.get(key)
        if o is None:
            o = SHARE[key] = build_new(s)
        return o
    return build_new(s)


def build_new(s):
    k = s[0]
    if k == "lit":
        return s[1]
    if k in ("list", "tuple"):
        return wrap(k, [build(x) for x in s[1]])
    if k == "col":
        return S.Column(s[1], build_entity(s[2])) if s[2] is not None else S.Column(s[1])
    if k == "fn":
        return S.Function(s[1], build(s[2]) if s[2] is not None else None, s[3])
    if k == "cfn":
        return S.CurriedFunction(
            s[1],
            build(s[2]) if s[2] is not None else None,
            build(s[3]) if s[3] is not None else None,
            s[4],
        )
    if k == "ident":
        return S.Identifier(s[1])
    if k == "lambda":
        return S.Lambda(list(s[1]), build(s[2]))
    if k == "aliased":
        return S.AliasedExpression(build(s[1]), s[2])
    if k == "cond":
        if s[2] in UNARY:
            return S.Condition(build(s[1]), S.Op[s[2]])
        return S.Condition(build(s[1]), S.Op[s[2]], build(s[3]))
    if k == "bool":
        kids = wrap(s[4], [build(x) for x in s[2]])
        if s[3] == "short":
            return (S.And if s[1] == "AND" else S.Or)(kids)
        return S.BooleanCondition(S.BooleanOp[s[1]], kids)
    if k == "entity":
        return build_entity(s)
    if k == "storage":
        return S.Storage(s[1], s[2], build_model(s[3]))
    if k == "join":
        return S.Join([S.Relationship(build_entity(a), n, build_entity(b)) for a, n, b in s[1]])
    if k == "query":
        return build_query(s[1])
    raise AssertionError(s)


FIELDS = (
    "match", "select", "groupby", "array_join", "where", "having", "orderby",
    "limitby", "limit", "offset", "granularity", "totals",
)


def build_field(name, v):
    """The SDK value of one clause, for the constructor."""
    if v is None:
        return None
    if name == "match":
        return build(v)
    if name in ("select", "groupby", "array_join", "where", "having"):
        return [build(x) for x in v]
    if name == "orderby":
        return [S.OrderBy(build(e), S.Direction[d]) for e, d in v]
    if name == "limitby":
        return S.LimitBy([build(c) for c in v[0]], v[1])
    return {
        "limit": S.Limit, "offset": S.Offset, "granularity": S.Granularity, "totals": S.Totals,
    }[name](v)


def build_query(q):
    return S.Query(**{f: build_field(f, q[f]) for f in FIELDS if q[f] is not None})


SETTER_PLAIN = ("limit", "offset", "granularity", "totals")


def set_clause(query, name, v):
    if name in SETTER_PLAIN:
        return getattr(query, "set_" + name)(v)
    return getattr(query, "set_" + name)(build_field(name, v))


def build_query_by_setters(q, rng):
    query = S.Query(build(q["match"]))
    names = [f for f in FIELDS[1:] if q[f] is not None]
    rng.shuffle(names)
    for n in names:
        query = set_clause(query, n, q[n])
    return query


# ------------------------------------------------------------------- meaning


def utc_naive(v):
    if v.tzinfo is not None:
        off = v.utcoffset()
        v = (v.replace(tzinfo=None) - off).replace(fold=0)
    return v


def canon_lit(v):
    if v is None:
        return ("null",)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, bytes):
        return ("str", v.decode("utf-8"))
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", repr(v))
    if isinstance(v, datetime):
        return ("call", "toDateTime", None, (("dt", utc_naive(v).isoformat()),))
    if isinstance(v, date):
        return ("call", "toDateTime", None, (("dt", datetime(v.year, v.month, v.day).isoformat()),))
    raise AssertionError(v)


def with_alias(node, alias):
    return node if alias is None else ("as", node, alias)


def canon(s, j=False):
    """j: inside a query that matches a join"""
    k = s[0]
    if k == "lit":
        return canon_lit(s[1])
    if k == "list":
        return ("call", "array", None, tuple(canon(x, j) for x in s[1]))
    if k == "tuple":
        return ("call", "tuple", None, tuple(canon(x, j) for x in s[1]))
    if k == "col":
        return ("name", "%s.%s" % (s[2][2], s[1]) if j and s[2] is not None else s[1])
    if k in ("fn", "cfn"):
        inits = None if k == "fn" else s[2]
        params = s[2] if k == "fn" else s[3]
        ci = None if inits is None else tuple(canon(x, j) for x in inits[1])
        cp = None if params is None else tuple(canon(x, j) for x in params[1])
        if ci is None and cp is None:
            node = ("name", s[1])
        elif ci is not None and cp is None:
            node = ("call", s[1], None, ci)  # f(x): nothing tells the two apart
        else:
            node = ("call", s[1], ci, cp)
        if node[0] == "call":
            node = norm_datetime_call(node)
        return with_alias(node, s[-1])
    if k == "ident":
        return ("quoted", s[1])
    if k == "lambda":
        return ("lambda", tuple(s[1]), canon(s[2], j))
    if k == "aliased":
        return with_alias(canon(s[1], j), s[2])
    if k == "cond":
        if s[2] in UNARY:
            return ("cond", canon(s[1], j), OPS[s[2]], None)
        return ("cond", canon(s[1], j), OPS[s[2]], canon(s[3], j))
    if k == "bool":
        return ("bool", s[1], tuple(canon(x, j) for x in s[2]))
    raise AssertionError(s)


def norm_datetime_call(node):
    """toDateTime('<iso>') is compared as an instant, not as text."""
    if node[1] == "toDateTime" and node[2] is None and node[3] is not None and len(node[3]) == 1:
        a = node[3][0]
        if a[0] == "str":
            d = parse_iso(a[1])
            if d is not None:
                return ("call", "toDateTime", None, (("dt", d),))
    return node


def parse_iso(text):
    if not (10 <= len(text) <= 26) or text[4:5] != "-":
        return None
    try:
        d = datetime.fromisoformat(text)
    except ValueError:
        return None
    return d.isoformat() if d.tzinfo is None else None


def canon_match(m):
    if m[0] == "query":
        return ("sub", canon_query(m[1]))
    if m[0] == "storage":
        return ("storage", m[1], m[2])
    if m[0] == "entity":
        return ("entity", None, m[1], m[3])
    return (
        "join",
        tuple(
            (("entity", a[2], a[1], a[3]), n, ("entity", b[2], b[1], b[3])) for a, n, b in m[1]
        ),
    )


def canon_query(q):
    j = q["match"][0] == "join"

    def many(v):
        return tuple(canon(x, j) for x in v) if v else None

    out = {"match": canon_match(q["match"])}
    for f in ("select", "groupby", "array_join", "where", "having"):
        out[f] = many(q[f])
    out["orderby"] = tuple((canon(e, j), d) for e, d in q["orderby"]) if q["orderby"] else None
    out["limitby"] = (
        (q["limitby"][1], tuple(canon(c, j) for c in q["limitby"][0])) if q["limitby"] is not None else None
    )
    for f in ("limit", "offset", "granularity", "totals"):
        out[f] = q[f]
    return out
