"""Legacy JSON bodies together with the query they mean.

LGen(rng).body() -> (body, entity, query spec, envelope).  Body and meaning are
generated side by side: nothing is derived from the SDK's converter."""
from __future__ import annotations

import copy
import re
from datetime import datetime, timedelta, timezone

import harvest
import spec

TIME = {
    "discover": "timestamp", "discover_events": "timestamp", "errors": "timestamp", "events": "timestamp",
    "outcomes": "timestamp", "outcomes_raw": "timestamp", "replays": "timestamp", "search_issues": "timestamp",
    "sessions": "started", "discover_transactions": "finish_ts", "spans": "finish_ts", "transactions": "finish_ts",
}
OTHER_ENTITIES = ["metrics_counters", "my_entity", "groupassignee", "generic_metrics_sets", "Events", "transaction", "event"]
OPS = {
    ">": "GT", "<": "LT", ">=": "GTE", "<=": "LTE", "=": "EQ", "!=": "NEQ", "IN": "IN", "NOT IN": "NOT_IN",
    "LIKE": "LIKE", "NOT LIKE": "NOT_LIKE", "IS NULL": "IS_NULL", "IS NOT NULL": "IS_NOT_NULL",
}
FUNCTION = {
    "GT": "greater", "LT": "less", "GTE": "greaterOrEquals", "LTE": "lessOrEquals", "EQ": "equals", "NEQ": "notEquals",
    "IN": "in", "NOT_IN": "notIn", "LIKE": "like", "NOT_LIKE": "notLike", "IS_NULL": "isNull", "IS_NOT_NULL": "isNotNull",
}
LIKE_DATE = re.compile(r"\s*\d+-\d+-\d+T")
RESERVED = {"in", "like", "not", "is"}


class LGen:
    def __init__(self, rng, depth=None):
        self.r = rng
        self.g = spec.Gen(rng)
        self.fuel = rng.choice([10, 20, 40])
        self.depth = rng.choice([0, 1, 1, 2, 4]) if depth is None else depth

    def count(self, usual, least=10, most=16):
        """how many items: now and then far more than people write"""
        r = self.r
        return r.randint(least, most) if r.random() < 0.05 else r.choice(usual)

    def again(self, *lists):
        """now and then the last item comes once more (parallel lists)"""
        if lists[0] and self.r.random() < 0.08:
            i = self.r.randrange(len(lists[0]))
            for l in lists:
                l.append(copy.deepcopy(l[i]))

    # ---------------------------------------------------------------- leaves
    def column(self):
        r = self.r
        if r.random() < 0.15:
            return r.choice(["release", "tags[sentry:release]", "tags[foo]", "tags", "contexts[a]", "tags_key", "released", "timestamp"])
        while True:
            c = self.g.colname()
            if c.lower() not in RESERVED and not c.startswith("'"):
                return c

    def date_string(self):
        """-> (text, datetime): a string in one of the accepted formats"""
        r = self.r
        d = self.g.dt().replace(tzinfo=None, fold=0)
        if d.year < 1000:
            d = d.replace(year=2020)
        k = r.random()
        if k < 0.35:
            d = d.replace(microsecond=0)
            return d.strftime("%Y-%m-%dT%H:%M:%S"), d
        if k < 0.65:
            n = r.choice([6, 6, 3, 1])
            frac = ("%06d" % d.microsecond)[:n]
            d = d.replace(microsecond=int(frac.ljust(6, "0")))
            return d.strftime("%Y-%m-%dT%H:%M:%S") + "." + frac, d
        d = d.replace(microsecond=0)
        if d.year > 9000:
            d = d.replace(year=2020)
        base = d.strftime("%Y-%m-%dT%H:%M:%S")
        if k < 0.72:
            return base + "Z", d.replace(tzinfo=timezone.utc)
        minutes = r.choice([0, 0, 60, 330, 345, 765, 1, 14 * 60])
        sign = r.choice(["+", "+", "-"])
        z = timezone(timedelta(minutes=minutes if sign == "+" else -minutes))
        return "%s%s%02d%s%02d" % (base, sign, minutes // 60, r.choice([":", ""]), minutes % 60), d.replace(tzinfo=z)

    def not_a_date(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return r.choice([
                "2021-01-02", "2021-01-02 03:04:05", "2021-13-02T03:04:05", "2021-01-02T03:04", "x2021-01-02T03:04:05", "2021-02-30T00:00:00",
                "'2021-01-02T03:04:05'", "2021-01-02T03:04:05x", "1.2.3", "a+b:c", "+", "x+1:00", "a+b+c:d:e", "2021-01-02T25:00:00", "", "'q'", "T", "error", "-1",
                "2021-01-02T03:04:05.", "2021-01-02T03:04:05+", "20210102T030405", "1610000000", "count()", "a b", "NULL",
            ])
        if k < 0.55:
            s = self.date_string()[0]
            return r.choice([" " + s, s + " x", "'" + s + "'", s + "]", "d" + s])
        while True:
            s = self.g.string()
            if not LIKE_DATE.match(s):
                return s

    def scalar(self, dates, depth=1, hashable=False):
        """-> (python value, spec) of the right hand side of a condition"""
        r = self.r
        k = r.random()
        if k < 0.22:
            t, d = self.date_string()
            return t, ("lit", d if dates else t)
        if k < 0.6:
            t = self.not_a_date()
            return t, ("lit", t)
        if k < 0.9 or depth == 0 or hashable:
            v = r.choice([self.g.integer(), self.g.floating(), True, False, None, self.g.dt()])
            return v, ("lit", v)
        return self.sequence(dates, depth - 1)

    def sequence(self, dates, depth=1):
        r = self.r
        kind = r.choice(["list", "list", "tuple", "set"])
        n = r.choice([0, 1, 1, 2, 3, 5] + ([r.choice(harvest.SIZES)] if harvest.SIZES and r.random() < 0.1 else []))
        if kind == "set":
            n = min(n, 1)
        items = [self.scalar(dates, depth, kind == "set") for _ in range(n)]
        vals, specs = [v for v, _ in items], tuple(s for _, s in items)
        return {"list": list, "tuple": tuple, "set": set}[kind](vals), ("tuple", specs)

    # ----------------------------------------------------------- expressions
    def alias(self):
        """-> (text in the body, alias)"""
        r = self.r
        a = self.g.alias()
        return ("`%s`" % a, a) if r.random() < 0.2 else (a, a)

    def param(self, depth):
        r = self.r
        self.fuel -= 1
        k = r.random()
        if k < 0.4:
            c = self.column()
            return c, ("col", c, None)
        if k < 0.6:
            if r.random() < 0.3:
                s = self.date_string()[0]
            else:
                s = self.not_a_date()
            return "'%s'" % s, ("lit", s)
        if k < 0.85 and depth > 0 and self.fuel > 0:
            if r.random() < 0.45:
                return self.cond_function(depth - 1)
            return self.function(depth - 1)
        if k < 0.87 and depth > 0:
            return "", ("lit", "")
        if k < 0.93:
            v = r.choice([self.g.integer(), self.g.floating(), True, False, None, 0])
            return v, ("lit", v)
        items = [self.scalar(True, 0) for _ in range(r.choice([1, 2, 3]))]
        return tuple(v for v, _ in items), ("tuple", tuple(s for _, s in items))

    def function(self, depth, name=None, alias=None, legacy_name=True):
        """-> (list, spec)"""
        r = self.r
        self.fuel -= 1
        while name is None or name.lower() in RESERVED:
            name = self.g.funcname()
        al_text = al = None
        if alias or (alias is None and r.random() < 0.3):
            al_text, al = self.alias()
        inits = None
        text = name
        k = r.random()
        if legacy_name and k < 0.12:  # curried functions come as raw names
            name = r.choice(["topK", "quantile", "quantiles", "histogram"])
            nums = [r.choice([1, 5, 10, 0.5, 0.95]) for _ in range(r.choice([1, 1, 2]))]
            text = "%s(%s)" % (name, ", ".join(map(str, nums)))
            inits = ("tuple", tuple(("lit", n) for n in nums))
        k = r.random()
        if k < 0.2:  # no argument
            if inits is None and r.random() < 0.4:
                text += "()"
            raw = r.choice([None, "", []]) if inits is None else r.choice([None, ""])
            params = ("list", ()) if inits is None else None
        elif k < 0.45:  # a single one, not in a list
            raw, s = self.param(0)
            while not raw or not isinstance(raw, (str, int, float)) or (isinstance(raw, str) and raw.upper() in OPS):
                raw, s = self.param(0)
            params = ("list", (s,))
        else:
            items = [self.param(depth) for _ in range(self.count([1, 1, 2, 2, 3, 6]))]
            self.again(items)
            raw, params = [v for v, _ in items], ("list", tuple(s for _, s in items))
        out = [text, raw]
        if al_text is not None or r.random() < 0.15:
            out.append(al_text)
        if inits is not None:
            return out, ("cfn", name, inits, params, al)
        return out, ("fn", name, params, al)

    def cond_parts(self, depth):
        """-> (lhs json, lhs spec, op text, op, rhs json, rhs spec or None)"""
        r = self.r
        self.fuel -= 1
        k = r.random()
        if k < 0.6 or depth == 0 or self.fuel <= 0:
            c = self.column()
            lhs, ls = c, ("col", c, None)
        elif k < 0.75:
            lhs, ls = self.function(depth - 1)
        elif k < 0.9:  # the null-safe comparison of the legacy API
            c = self.column()
            extra = [self.param(0) for _ in range(r.choice([0, 1, 1, 1, 2]))]
            first, fs = (c, ("col", c, None)) if r.random() < 0.85 else self.function(0)
            name = r.choice(["ifNull", "ifNull", "ifNull", "coalesce", "ifnull"])
            lhs, ls = [name, [first] + [v for v, _ in extra]], ("fn", name, ("list", (fs,) + tuple(s for _, s in extra)), None)
        else:
            lhs, ls = self.cond_function(depth - 1)
        text = r.choice(list(OPS))
        op = OPS[text]
        if op in spec.UNARY:
            return lhs, ls, self.case(text), op, r.choice([None, None, 0, "x", []]), None
        dates = True
        target = ls
        if ls[0] == "fn" and ls[1] == "ifNull" and ls[2] is not None and len(ls[2][1]) > 1:
            target = ls[2][1][0]
        if target[0] == "col" and (target[1] == "release" or target[1].startswith("tags[")):
            dates = False
        if op in ("IN", "NOT_IN") or r.random() < 0.08:
            rhs, rs = self.sequence(dates)
        else:
            rhs, rs = self.scalar(dates, 0)
        return lhs, ls, self.case(text), op, rhs, rs

    def case(self, op):
        k = self.r.random()
        return op if k < 0.8 else op.lower() if k < 0.95 else op.title()

    def cond_function(self, depth):
        lhs, ls, text, op, rhs, rs = self.cond_parts(depth)
        params = (ls,) if rs is None else (ls, rs)
        return [lhs, text, rhs], ("fn", FUNCTION[op], ("tuple", params), None)

    def condition(self):
        r = self.r
        lhs, ls, text, op, rhs, rs = self.cond_parts(self.depth)
        c = [lhs, text, rhs]
        return (tuple(c) if r.random() < 0.1 else c), ("cond", ls, op, rs)

    def conditions(self):
        r = self.r
        out, specs = [], []
        for _ in range(self.count([0, 1, 1, 2, 3, 4])):
            if r.random() < 0.65:
                c, s = self.condition()
                out.append(c)
                specs.append(s)
                continue
            n = self.count([1, 2, 2, 3, 3, 5])
            same = self.condition() if r.random() < 0.3 else None
            items = []
            for _ in range(n):
                c, s = self.condition()
                if same is not None and not isinstance(c, tuple) and s[2] not in spec.UNARY and not self.stringy(s[1]) and not self.stringy(same[1][1]):
                    c, s = [same[0][0], "=", c[2]], ("cond", same[1][1], "EQ", s[3])
                items.append((c, s))
            self.again(items)
            n = len(items)
            out.append([c for c, _ in items])
            ss = tuple(s for _, s in items)
            specs.append(ss[0] if n == 1 else ("bool", "OR", ss, "short", "list"))
        self.again(out, specs)
        return out, tuple(specs)

    @staticmethod
    def stringy(s):
        t = repr(s)
        return "release" in t or "tags[" in t

    # ------------------------------------------------------------------- body
    def body(self):
        r = self.r
        body, q = {}, dict.fromkeys(spec.FIELDS)
        entity = r.choice(sorted(TIME)) if r.random() < 0.8 else r.choice(OTHER_ENTITIES)
        sample = None
        if r.random() < 0.3:
            v = r.choice([None, 1, 1000, 0.1, 0.5, 1e-7, "0.25", 12.5, 3])
            body["sample"] = v
            sample = None if v is None else float(v)
        q["match"] = ("entity", entity, None, sample, None)
        aggs, ss = [], []
        for _ in range(self.count([0, 0, 1, 1, 2, 3, 4])):
            f, s = self.function(self.depth, alias=r.random() < 0.85)
            if len(f) == 2 and r.random() < 0.5:
                f.append(None)
            aggs.append(tuple(f) if r.random() < 0.15 else f)
            ss.append(s)
        self.again(aggs, ss)
        sel, st = [], []
        for _ in range(self.count([0, 1, 2, 3]) if aggs else self.count([1, 2, 3])):
            if r.random() < 0.7:
                c = self.column()
                sel.append(c)
                st.append(("col", c, None))
            else:
                f, s = self.function(self.depth)
                sel.append(tuple(f) if r.random() < 0.25 else f)
                st.append(s)
        self.again(sel, st)
        if aggs or r.random() < 0.5:
            body["aggregations"] = aggs
        if sel or r.random() < 0.5:
            body["selected_columns"] = sel
        q["select"] = tuple(ss + st)
        if r.random() < 0.2:
            c = self.column()
            body["arrayjoin"] = c
            q["array_join"] = (("col", c, None),)
        elif r.random() < 0.1:
            body["arrayjoin"] = None
        if r.random() < 0.55:
            gs, gt = [], []
            for _ in range(self.count([0, 1, 1, 2, 3])):
                if r.random() < 0.75:
                    c = self.column()
                    gs.append(c)
                    gt.append(("col", c, None))
                else:
                    f, s = self.function(min(1, self.depth))
                    gs.append(tuple(f) if r.random() < 0.3 else f)
                    gt.append(s)
            self.again(gs, gt)
            if len(gs) == 1 and isinstance(gs[0], str) and r.random() < 0.5:
                gs = gs[0]
            body["groupby"] = gs
            q["groupby"] = tuple(gt)
        where = []
        if r.random() < 0.4:
            v = r.choice([1, 2, 2**40, [1], [1, 2, 3], (5,), (1, 2), None])
            body["organization"] = v
            if isinstance(v, int):
                where.append(("cond", ("col", "org_id", None), "EQ", ("lit", v)))
            elif v:
                where.append(("cond", ("col", "org_id", None), "IN", ("tuple", tuple(("lit", x) for x in v))))
        for key, op in (("from_date", "GTE"), ("to_date", "LT")):
            if r.random() < 0.6:
                t, d = self.date_string()
                body[key] = t
                if entity in TIME:
                    where.append(("cond", ("col", TIME[entity], None), op, ("lit", d)))
            elif r.random() < 0.1:
                body[key] = None
        if r.random() < 0.6:
            v = r.choice([1, 7, [1], [1, 2, 3], (5,), (1, 2), None, list(range(1, 30)), 2**40])
            body["project"] = v
            if v is not None:
                items = (v,) if isinstance(v, int) else v
                where.append(("cond", ("col", "project_id", None), "IN", ("tuple", tuple(("lit", x) for x in items))))
        if r.random() < 0.7:
            body["conditions"], cs = self.conditions()
            where += list(cs)
        q["where"] = tuple(where)
        if r.random() < 0.35:
            body["having"], q["having"] = self.conditions()
        if r.random() < 0.5:
            os, ot = [], []
            for _ in range(self.count([1, 1, 2, 3])):
                desc = r.random() < 0.5
                if r.random() < 0.65:
                    c = self.column()
                    os.append("-" + c if desc else c)
                    ot.append((("col", c, None), "DESC" if desc else "ASC"))
                else:
                    f, s = self.function(min(1, self.depth))
                    if desc:
                        f[0] = "-" + f[0]
                    os.append(tuple(f) if r.random() < 0.25 else f)
                    ot.append((s, "DESC" if desc else "ASC"))
            self.again(os, ot)
            if len(os) == 1 and isinstance(os[0], (str, tuple)) and r.random() < 0.6:
                os = os[0]
            body["orderby"] = os
            q["orderby"] = tuple(ot)
        elif r.random() < 0.2:
            body["orderby"] = r.choice([None, [], ""])
        if r.random() < 0.25:
            n, c = self.g.limit_int(), self.column()
            body["limitby"] = r.choice([[n, c], (n, c), [str(n), c]])
            q["limitby"] = ((("col", c, None),), n)
        elif r.random() < 0.1:
            body["limitby"] = None
        for f, v in (
            ("limit", self.g.limit_int()), ("offset", r.choice([0, 1, self.g.limit_int(0, 10**6)])), ("granularity", self.g.limit_int(1, 10**6)),
            ("totals", r.choice([True, False]) if q["groupby"] else False),
        ):
            if r.random() < 0.4:
                body[f] = q[f] = v
            elif r.random() < 0.1:
                body[f] = None
        env = {"legacy": True}
        for f in ("consistent", "turbo", "debug", "dry_run"):
            if r.random() < 0.35:
                body[f] = r.choice([True, True, False, None])
                if body[f]:
                    env[f] = True
        env["dataset"], env["app_id"], env["tenant_ids"] = entity, "legacy", {"legacy": "legacy"}
        for f, vs in (("dataset", ["events", "sessions", "my-ds"]), ("app_id", ["app", "x.y"]), ("tenant_ids", [{"organization_id": 1}, {"a": "b", "c": 3}, {"referrer": "r", "organization_id": 0}, {"legacy": 1}, {"": "x"}, {harvest.word(r): r.choice([0, 1, "x", ""]) for _ in range(3)}])):
            if r.random() < 0.4:
                body[f] = r.choice(vs + [None])
                if body[f] is not None:
                    env[f] = body[f]
        if r.random() < 0.15:
            body[r.choice(["referrer", "extra", "polling"])] = r.choice([1, "x", None])
        names = list(body)
        r.shuffle(names)
        return {n: body[n] for n in names}, entity, q, env
