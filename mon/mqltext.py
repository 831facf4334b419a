"""MQL texts in every layout the language permits, together with what they denote.

An expression is drawn once as a list of tokens and, at the same time, as the spec
(see mql.py) it means; the tokens can then be laid out in many ways.
"""
from __future__ import annotations

import re

import harvest
import mql


class Mark:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


OPT, REQ = Mark("OPT"), Mark("REQ")  # whitespace: optional, required
AND = Mark("AND")  # (kept with its neighbours: see join_and)


class Br(str):
    """a bracket that is part of the structure"""


BARE = re.compile(r'[^,\[\]"}{()\s*]+')
SPACES = [" ", " ", " ", "  ", "\n", "\t", " \n ", "\r\n", "    "]


def layout(tokens, r, tight=None):
    """one text for the tokens"""
    if tight is None:
        tight = r.choice([0.1, 0.5, 0.5, 0.95])
    out = []
    for t in tokens:
        if t is OPT:
            if r.random() > tight:
                out.append(r.choice(SPACES))
        elif t is REQ:
            out.append(r.choice(SPACES))
        else:
            out.append(t)
    return "".join(out)


def quote(v):
    return '"%s"' % v.replace('"', '\\"')


class Text:
    def __init__(self, rng, depth=None):
        self.r = rng
        self.g = mql.MGen(rng)
        self.fuel = rng.choice([2, 5, 10, 25, 60])
        self.depth = rng.choice([0, 1, 2, 3, 5, 9]) if depth is None else depth

    # ---- atoms
    def number(self):
        r = self.r
        v = self.g.number()
        if isinstance(v, int):
            t = str(v)
        else:
            t = "%.12f" % v
            if r.random() < 0.5:
                t = t.rstrip("0")
                t = t + "0" if t.endswith(".") else t
        if r.random() < 0.1:
            t = "00" + t
        return t, float(t)

    def metric(self):
        r = self.r
        kind, m = self.g.metric()
        if kind == "name":
            return ("`%s`" % m if r.random() < 0.25 else m), (kind, m)
        if re.search(r'[(){}\[\]"`,\s]', m) or r.random() < 0.25:
            return "`%s`" % m, (kind, m)
        return m, (kind, m)

    def value(self, v):
        """quoted or bare"""
        if BARE.fullmatch(v) and v.isprintable() and not v.startswith("$") and self.r.random() < 0.5:
            return v
        return quote(v)

    # ---- filters: tokens, filter spec
    def cond(self):
        r = self.r
        c = self.g.cond()
        key, op, v = c[1], c[2], c[3]
        toks = ["!"] if op in ("NEQ", "NOT_IN", "NOT_LIKE") else []
        toks += [key, OPT, ":", OPT]
        if op in ("IN", "NOT_IN"):
            toks += [Br("["), OPT]
            for i, x in enumerate(v):
                toks += ([OPT, ",", OPT] if i else []) + [self.value(x)]
            toks += [OPT, Br("]")]
        elif op in ("LIKE", "NOT_LIKE"):
            toks += [v if r.random() < 0.5 else quote(v)]
        else:
            toks += [self.value(v)]
        return toks, c

    def factor(self, depth):
        r = self.r
        if depth > 0 and self.fuel > 0 and r.random() < 0.3:
            toks, f = self.filter_or(depth - 1)
            return [Br("("), OPT] + toks + [OPT, Br(")")], f
        self.fuel -= 1
        return self.cond()

    @staticmethod
    def closed(toks):
        """does the last token end by itself (a quote or bracket)?"""
        return toks[-1][-1] in '")]'

    def filter_and(self, depth):
        r = self.r
        toks, f = self.factor(depth)
        parts = [f]
        n = (r.choice([1, 1, 1, 2, 2, 3, 5]) if r.random() < 0.97 else min(40, harvest.big(r))) if self.fuel > 0 else 1
        n2 = None
        for _ in range(n - 1):
            t, f = self.factor(depth) if n2 is None or r.random() < 0.9 else n2
            n2 = (t, f)
            key = next((x for x in t if isinstance(x, str) and not isinstance(x, Br) and x != "!"), "")
            blank_ok = key.lower() not in ("and", "or") or isinstance(t[0], Br) or t[0] == "!"
            how = r.choice(["AND", "and", ",", ""] if blank_ok else ["AND", "and", ","])
            before = OPT if self.closed(toks) or how == "," else REQ
            if how == "":
                toks = toks + [REQ]
            elif how == ",":
                toks = toks + [before, ",", OPT]
            else:
                toks = toks + [before, how, OPT if isinstance(t[0], Br) or t[0] == "!" else REQ]
            toks = toks + t
            parts.append(f)
        return toks, parts[0] if len(parts) == 1 else ("bool", "AND", tuple(parts), "short")

    def filter_or(self, depth):
        r = self.r
        toks, f = self.filter_and(depth)
        parts = [f]
        n = (r.choice([1, 1, 1, 2, 3]) if r.random() < 0.97 else min(40, harvest.big(r))) if self.fuel > 0 else 1
        prev = None
        for _ in range(n - 1):
            t, f = self.filter_and(depth) if prev is None or r.random() < 0.9 else prev
            prev = (t, f)
            before = OPT if self.closed(toks) else REQ
            toks = toks + [before, r.choice(["OR", "or"]), OPT if isinstance(t[0], Br) or t[0] == "!" else REQ] + t
            parts.append(f)
        return toks, parts[0] if len(parts) == 1 else ("bool", "OR", tuple(parts), "short")

    def braces(self):
        """{...}: tokens, tuple of filters"""
        if self.r.random() < 0.08:
            return [Br("{"), Br("}")], ()
        toks, f = self.filter_or(self.r.choice([0, 1, 2, 4]))
        return [Br("{"), OPT] + toks + [OPT, Br("}")], (f,)

    def group(self, closed=False):
        r = self.r
        n = r.choice([1, 1, 2, 3, 7]) if r.random() < 0.97 else min(60, harvest.big(r))
        keys = tuple(self.g.key() for _ in range(n))
        toks = [OPT if closed else REQ, "by"]
        if n == 1 and r.random() < 0.6:
            return toks + [REQ, keys[0]], keys
        toks += [OPT, Br("("), OPT]
        for i, k in enumerate(keys):
            toks += ([OPT, ",", OPT] if i else []) + [k]
        return toks + [OPT, Br(")")], keys

    def maybe_suffix(self, toks, s, p=0.35):
        """target{...} by ...: outer filters and groups go before inner ones"""
        r = self.r
        if r.random() < p:
            t, fs = self.braces()
            toks = toks + t
            s = s[:4] + (fs + tuple(s[4] or ()), s[5])
        if r.random() < p:
            t, gb = self.group(closed=toks[-1][-1] in ")}`")
            toks = toks + t
            s = s[:5] + (gb + tuple(s[5] or ()),)
        return toks, s

    # ---- expressions: tokens, spec, level (0 coefficient, 1 unary, 2 term, 3 expression)
    def params(self):
        r = self.r
        toks, vals = [Br("("), OPT], []
        for i in range(r.choice([0, 1, 1, 1, 2, 3]) if r.random() < 0.95 else harvest.big(r, 130)):
            if i:
                toks += [OPT, ",", OPT]
            if r.random() < 0.6:
                t, v = self.number()
            else:
                v = self.g.plain()
                t = v if BARE.fullmatch(v) and v.isprintable() and re.match(r"[a-zA-Z_]", v) and r.random() < 0.5 else quote(v)
            toks.append(t)
            vals.append(v)
        return toks + [OPT, Br(")")], tuple(vals)

    def name(self, pool):
        return mql.fname(self.r, pool)

    def ts(self):
        """aggregate(metric...)"""
        r = self.r
        self.fuel -= 1
        name = self.name(mql.AGGS)
        toks, params = [name], None
        if r.random() < 0.25:
            t, params = self.params()
            toks += t
        mt, m = self.metric()
        inner, s = self.maybe_suffix([mt], ("ts", m, name, params, None, None), 0.25)
        toks = toks + [Br("("), OPT] + inner + [OPT, Br(")")]
        return self.call_group(toks, s)

    def call_group(self, toks, s):
        if self.r.random() < 0.1:
            t, gb = self.group(closed=True)
            return toks + t, s[:5] + (gb + tuple(s[5] or ()),)
        return toks, s

    def bare(self):
        mt, m = self.metric()
        return self.maybe_suffix([mt], ("ts", m, "AGGREGATE_PLACEHOLDER", None, None, None))

    def func(self, depth):
        r = self.r
        self.fuel -= 1
        name = self.name(mql.FUNCS)
        toks, params = [name], None
        if r.random() < 0.25:
            t, params = self.params()
            toks += t
        toks += [Br("("), OPT]
        ops = []
        for i in range(r.choice([1, 1, 2, 2, 3]) if r.random() < 0.97 else r.choice([6, 10, 13])):
            if i == 0 or r.random() < 0.9:
                t, s, _ = self.expr(depth - 1, bare=i > 0)
            toks += ([OPT, ",", OPT] if i else []) + t
            ops.append(s)
        toks += [OPT, Br(")")]
        return self.call_group(toks, ("fm", name, tuple(ops), params, None, None))

    def coefficient(self, depth, bare=True):
        r = self.r
        k = r.random()
        if k < 0.15:
            t, v = self.number()
            return [t], ("num", v)
        if depth > 0 and self.fuel > 0:
            if k < 0.4:
                t, s, _ = self.expr(depth - 1, bare=bare)
                toks = [Br("("), OPT] + t + [OPT, Br(")")]
                if s[0] == "num":
                    return toks, s
                return self.maybe_suffix(toks, s, 0.25)
            if k < 0.55:
                toks, s = self.func(depth)
                return self.maybe_suffix(toks, s)
        if bare and k > 0.93:
            return self.bare()
        toks, s = self.ts()
        return self.maybe_suffix(toks, s)

    def unary(self, depth, bare=True):
        if self.r.random() < 0.15:
            t, s = self.coefficient(depth, bare)
            if s[0] == "num":
                return ["-"] + t, ("num", -s[1])
            return ["-"] + t, ("fm", "negate", (s,), None, None, None)
        return self.coefficient(depth, bare)

    def chain(self, sub, ops, depth, bare, p):
        """left associative chain"""
        r = self.r
        n = (r.choice([2, 2, 3, 5]) if r.random() < 0.95 else min(30, harvest.big(r))) if depth > 0 and self.fuel > 0 and r.random() < p else 1
        toks, s = sub(depth if n == 1 else depth - 1, bare or n > 1)
        last = None
        for _ in range(n - 1):
            op = r.choice(list(ops)) if last is None or r.random() < 0.7 else last[0]
            t, s2 = sub(depth - 1, True) if last is None or r.random() < 0.85 else last[1:]  # the same again, sometimes
            last = (op, t, s2)
            toks = toks + [OPT if toks[-1][-1:] in ")}" else REQ, op, OPT] + t
            s = ("fm", ops[op], (s, s2), None, None, None)
        return toks, s

    def term(self, depth, bare=True):
        return self.chain(self.unary, {"*": "multiply", "/": "divide"}, depth, bare, 0.35)

    def expr(self, depth, bare=True):
        toks, s = self.chain(self.term, {"+": "plus", "-": "minus"}, depth, bare, 0.35)
        return toks, s, 3

    def query(self):
        """tokens and spec of a whole query (never a lone number)"""
        while True:
            toks, s, _ = self.expr(self.depth)
            if mql.has_ts(s):
                return toks, s
            self.fuel = max(self.fuel, 3)


def broken(tokens, r):
    """tokens that are certainly outside the language -> (text, why) """
    t = list(tokens)
    brs = [i for i, x in enumerate(t) if isinstance(x, Br)]
    words = [i for i, x in enumerate(t) if isinstance(x, str) and not isinstance(x, Br)]
    how = r.choice(["unbalance", "unbalance", "extra", "trailing", "leading", "twice", "commas", "by", "variable", "empty", "swap", "lost"])
    if how == "unbalance" and brs:
        i = r.choice(brs)
        del t[i]
        return layout(t, r), "bracket removed"
    if how == "extra":
        i = r.choice([0, len(t), r.choice(brs) if brs else 0])
        t.insert(i, Br(r.choice("(){}[]")))
        return layout(t, r), "bracket added"
    if how == "swap" and brs:
        i = r.choice(brs)
        flip = {"(": "[", ")": "]", "{": "(", "}": ")", "[": "{", "]": "}"}
        t[i] = Br(flip[t[i]])
        return layout(t, r), "wrong kind of bracket"
    if how == "trailing":
        return layout(t, r) + " " + r.choice(["+", "-", "*", "/", "+ ", ",", "by", "by ()", ":", "AND a:b", "foo(", "`", '"', "5 5", "$"]), "dangling text at the end"
    if how == "leading":
        return r.choice(["+ ", "* ", "/ ", ", ", ": ", ") ", "}", "!", "() ", "{} ", "[] ", '" ']) + "(" + layout(t, r) + ")", "dangling text at the start"
    if how == "twice":
        text = layout(t, r)
        return "(%s) (%s)" % (text, text), "two expressions"
    if how == "commas":
        cs = [i for i, x in enumerate(t) if x == ","]
        if cs:
            i = r.choice(cs)
            t.insert(i, ",")
            return layout(t, r), "doubled comma"
    if how == "by":
        return "(%s) by %s" % (layout(t, r), r.choice(["", "(", "(a", "(a,)", "(,a)", "(a b)", "a, b", "[a]", '"a"', "a:b", "`a`"])), "bad group by"
    if how == "lost":  # a function of a metric that nothing aggregates and something else
        g = Text(r)
        m, _ = g.bare()
        p = g.params()[0] if r.random() < 0.7 else []
        more = [x for _ in range(r.choice([1, 1, 2, 3])) for x in [OPT, ",", OPT] + g.expr(1)[0]]
        call = [g.name(r.choice([mql.FUNCS, mql.AGGS]))] + p + [Br("("), OPT] + m + more + [OPT, Br(")")]
        return layout(call if r.random() < 0.5 else [Br("(")] + t + [Br(")"), OPT, r.choice("+-*/"), OPT] + call, r), "a metric without aggregate among arguments"
    if how == "variable":
        return "(%s) + $%s" % (layout(t, r), r.choice(["x", "foo.bar", "1"])), "variable"
    if how == "empty":
        return r.choice(["", " ", "()", "{}", "sum()", "sum(){a:b}", "sum(foo){a}", "sum(foo){a:}", "sum(foo){:b}", "sum(foo){a:[]}", "sum(foo){!}",
                         "sum(foo){a:b AND}", "sum(foo){AND a:b}", "sum(foo){a:b OR}", "sum(foo){OR}", "sum(foo){(a:b}", "sum(foo){()}", "sum(foo){a:b,}",
                         "sum(foo){a::}{", "sum(foo)(", "sum(foo)()", "sum(foo,)", "sum(,foo)", "(sum(foo)) (5)", "sum(foo) 5", "5 sum(foo)",
                         "sum(foo){a:[b}", "sum(foo){a:b]}", "sum(foo)*", "sum(foo)**sum(foo)", "sum(foo)+*5", "-", "--sum(foo)", "+sum(foo)",
                         "sum(foo){a:b c}", 'sum(foo){a:"b}', "sum(`foo)", "sum(foo`)", "sum(FOO)", "sum(foo.)", "sum(.foo)", "sum(foo..bar)",
                         "f(foo, 5)", "f((foo))", "(5){a:b} + sum(foo)", "5{a:b} * sum(foo)", "5 by a", "sum(foo){$a:b}", "$x", "sum($x)", "sum(foo){!!a:b}",
                         "sum(foo){a:b by c}", "by a", "sum(foo) by", "sum(foo) by (a", "sum(foo) by a b", "sum(foo);", "sum(foo).", "1.5.2*sum(foo)", ".5*sum(foo)",
                         "5.*sum(foo)", "1e5*sum(foo)", "sum(foo)%5", "sum(foo)^2", "sum(foo)=5", "!sum(foo)", "sum(foo bar)"]), "not an expression"
    i = r.choice(brs) if brs else 0
    return layout(t[:i] + t[i + 1:] if brs else t + [Br(")")], r), "bracket removed"
