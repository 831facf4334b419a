"""An independent reader of SnQL text (grammar: docs of the SnQL language), written
without reference to the SDK's printer.  Gives the syntax tree that spec.canon
predicts, or raises Bad."""
from __future__ import annotations

import re

from spec import norm_datetime_call


class Bad(Exception):
    pass


WS = re.compile(r"[ \t\n]+")
NAME = re.compile(r"[^\W\d]\w*(?:[\w.:/@]*)(?:\[[^\[\]]*\])?")
NUM = re.compile(r"-?\d+(\.\d+)?([eE][+-]?\d+)?")
OPS2 = (">=", "<=", "!=", "->")
STOP = {
    "SELECT", "BY", "ARRAY", "WHERE", "HAVING", "ORDER", "LIMIT", "OFFSET",
    "GRANULARITY", "TOTALS", "AND", "OR", "AS", "ASC", "DESC", "IN", "NOT", "LIKE", "IS",
}
ESC = {"n": "\n", "\\": "\\", "'": "'"}


def lex(text):
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in " \t\n":
            i = WS.match(text, i).end()
            continue
        if c == "'":
            buf, k = [], i + 1
            while True:
                if k >= n:
                    raise Bad("unterminated string at %d" % i)
                d = text[k]
                if d == "\\":
                    if k + 1 >= n or text[k + 1] not in ESC:
                        raise Bad("bad escape at %d" % k)
                    buf.append(ESC[text[k + 1]])
                    k += 2
                elif d == "'":
                    break
                elif d == "\n":
                    raise Bad("raw newline in a string at %d" % k)
                else:
                    buf.append(d)
                    k += 1
            out.append(("str", "".join(buf)))
            i = k + 1
            # 'a''b' is not two adjacent tokens in any dialect of SQL
            if i < n and (text[i] == "'" or text[i].isalnum()):
                raise Bad("junk after a string at %d" % i)
            continue
        if c == "`":
            k = text.find("`", i + 1)
            if k < 0:
                raise Bad("unterminated backtick")
            out.append(("tick", text[i + 1 : k]))
            i = k + 1
            continue
        if text[i : i + 2] in OPS2:
            out.append(("p", text[i : i + 2]))
            i += 2
            continue
        m = NUM.match(text, i)
        if m:
            t = m.group()
            out.append(("float", repr(float(t)), t) if ("." in t or "e" in t or "E" in t) else ("int", int(t)))
            i = m.end()
            if i < n and (text[i].isalnum() or text[i] in "_."):
                raise Bad("junk after a number at %d" % i)
            continue
        m = NAME.match(text, i)
        if m:
            out.append(("name", m.group()))
            i = m.end()
            continue
        if c in "(),{}=<>[]:-":
            out.append(("p", c))
            i += 1
            continue
        raise Bad("unexpected %r at %d" % (c, i))
    return out


class Reader:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def isp(self, p, k=0):
        return self.peek(k) == ("p", p)

    def isw(self, w, k=0):
        return self.peek(k) == ("name", w)

    def p(self, p):
        if not self.isp(p):
            raise Bad("expected %r, found %r (token %d)" % (p, self.peek(), self.i))
        self.i += 1

    def w(self, w):
        if not self.isw(w):
            raise Bad("expected %r, found %r (token %d)" % (w, self.peek(), self.i))
        self.i += 1

    def int(self):
        t = self.next()
        if t[0] != "int":
            raise Bad("expected an integer, found %r" % (t,))
        return t[1]

    # ---------------------------------------------------------------- clauses
    def query(self):
        q = {}
        self.w("MATCH")
        q["match"] = self.match()
        q["select"] = self.listof("SELECT", self.aliased)
        q["groupby"] = self.listof("BY", self.aliased)
        q["array_join"] = None
        if self.isw("ARRAY"):
            self.next()
            q["array_join"] = self.listof("JOIN", self.name)
        q["where"] = self.conditions("WHERE")
        q["having"] = self.conditions("HAVING")
        q["orderby"] = None
        if self.isw("ORDER"):
            self.next()
            q["orderby"] = self.listof("BY", self.order)
        q["limitby"] = q["limit"] = q["offset"] = q["granularity"] = q["totals"] = None
        if self.isw("LIMIT") and self.isw("BY", 2):
            self.next()
            n = self.int()
            q["limitby"] = (n, self.listof("BY", self.name))
        for k in ("limit", "offset", "granularity"):
            if self.isw(k.upper()):
                self.next()
                q[k] = self.int()
        if self.isw("TOTALS"):
            self.next()
            t = self.next()
            if t not in (("name", "True"), ("name", "False"), ("name", "TRUE"), ("name", "FALSE")):
                raise Bad("bad TOTALS %r" % (t,))
            q["totals"] = t[1].upper() == "TRUE"
        return q

    def listof(self, word, item):
        if not self.isw(word):
            return None
        self.next()
        out = [item()]
        while self.isp(","):
            self.next()
            out.append(item())
        return tuple(out)

    def match(self):
        if self.isp("{"):
            self.next()
            q = self.query()
            self.p("}")
            return ("sub", q)
        if self.isw("STORAGE"):
            self.next()
            self.p("(")
            t = self.word()
            s = self.sample()
            self.p(")")
            return ("storage", t, s)
        first = self.entity()
        if first[1] is None and not self.isp("-"):
            return first
        rels = []
        lhs = first
        while True:
            self.p("-")
            self.p("[")
            rel = self.word()
            self.p("]")
            self.p("->")
            rhs = self.entity()
            if lhs[1] is None or rhs[1] is None:
                raise Bad("entity without alias in a join")
            rels.append((lhs, rel, rhs))
            if not self.isp(","):
                break
            self.next()
            lhs = self.entity()
        return ("join", tuple(rels))

    def word(self):
        t = self.next()
        if t[0] != "name":
            raise Bad("expected a name, found %r" % (t,))
        return t[1]

    def sample(self):
        if self.isw("SAMPLE"):
            self.next()
            t = self.next()
            if t[0] not in ("float", "int") or t[0] == "float" and "e" in t[2].lower():
                raise Bad("bad SAMPLE %r" % (t,))
            return float(t[1])
        return None

    def entity(self):
        self.p("(")
        t = self.word()
        alias = None
        if t.endswith(":"):
            alias, t = t[:-1], self.word()
        elif self.isp(":"):
            self.next()
            alias, t = t, self.word()
        s = self.sample()
        self.p(")")
        return ("entity", alias, t, s)

    # ------------------------------------------------------------ expressions
    def name(self):
        t = self.word()
        if t in STOP:
            raise Bad("keyword %s where a column belongs" % t)
        return ("name", t)

    def aliased(self):
        e = self.expr()
        return e

    def order(self):
        e = self.expr()
        t = self.word()
        if t not in ("ASC", "DESC"):
            raise Bad("bad direction %r" % t)
        return (e, t)

    def expr(self):
        e = self.primary()
        if self.isw("AS"):
            self.next()
            t = self.next()
            if t[0] != "tick":
                raise Bad("alias must be quoted, found %r" % (t,))
            return ("as", e, t[1])
        return e

    def args(self):
        self.p("(")
        out = []
        if self.isp(")"):
            self.next()
            return ()
        while True:
            out.append(self.expr())
            if self.isp(","):
                self.next()
                continue
            self.p(")")
            return tuple(out)

    def primary(self):
        t = self.next()
        if t[0] in ("str", "int", "float"):
            return t[:2]
        if t[0] == "tick":
            return ("quoted", t[1])
        if t == ("p", "("):  # a lambda: (`x`, `y`) -> f(...)
            ids = []
            if not self.isp(")"):
                while True:
                    u = self.next()
                    if u[0] != "tick":
                        raise Bad("expected an identifier, found %r" % (u,))
                    ids.append(u[1])
                    if self.isp(","):
                        self.next()
                        continue
                    break
            self.p(")")
            self.p("->")
            return ("lambda", tuple(ids), self.expr())
        if t[0] == "name":
            w = t[1]
            if w == "NULL":
                return ("null",)
            if w in ("TRUE", "FALSE"):
                return ("bool", w == "TRUE")
            if w in STOP:
                raise Bad("keyword %s where an expression belongs" % w)
            if self.isp("("):
                a = self.args()
                if self.isp("("):
                    return ("call", w, a, self.args())
                return norm_datetime_call(("call", w, None, a))
            return ("name", w)
        raise Bad("unexpected %r" % (t,))

    # -------------------------------------------------------------- conditions
    def conditions(self, word):
        if not self.isw(word):
            return None
        self.next()
        e = self.disj()
        if e[0] == "bool" and e[1] == "AND" and not e[-1]:
            return e[2]
        return (strip(e),)

    def disj(self):
        parts = [self.conj()]
        while self.isw("OR"):
            self.next()
            parts.append(self.conj())
        return parts[0] if len(parts) == 1 else ("bool", "OR", tuple(map(strip, parts)), False)

    def conj(self):
        parts = [self.atom()]
        while self.isw("AND"):
            self.next()
            parts.append(self.atom())
        return parts[0] if len(parts) == 1 else ("bool", "AND", tuple(map(strip, parts)), False)

    def atom(self):
        if self.isp("(") and self.peek(1)[0] != "tick" and not self.isp(")", 1):
            self.next()
            e = self.disj()
            self.p(")")
            return e[:3] + (True,) if e[0] == "bool" else e
        lhs = self.expr()
        t = self.next()
        if t[0] == "p" and t[1] in (">", "<", ">=", "<=", "=", "!="):
            return ("cond", lhs, t[1], self.expr())
        if t == ("name", "IN") or t == ("name", "LIKE"):
            return ("cond", lhs, t[1], self.expr())
        if t == ("name", "NOT"):
            u = self.word()
            if u not in ("IN", "LIKE"):
                raise Bad("bad operator NOT %s" % u)
            return ("cond", lhs, "NOT " + u, self.expr())
        if t == ("name", "IS"):
            if self.isw("NOT"):
                self.next()
                self.w("NULL")
                return ("cond", lhs, "IS NOT NULL", None)
            self.w("NULL")
            return ("cond", lhs, "IS NULL", None)
        raise Bad("bad operator %r" % (t,))


def strip(e):
    return e[:3] if e[0] == "bool" else e


def read(text):
    r = Reader(lex(text))
    q = r.query()
    if r.peek()[0] != "end":
        raise Bad("trailing text: %r" % (r.t[r.i : r.i + 5],))
    return q


# ----------------------------------------------------- meaning of conditions


def flat(c):
    """Associativity only: nested ANDs and ORs of the same kind are merged."""
    if c[0] != "bool":
        return c
    kids = []
    for k in c[2]:
        k = flat(k)
        if k[0] == "bool" and k[1] == c[1]:
            kids.extend(k[2])
        else:
            kids.append(k)
    return kids[0] if len(kids) == 1 else ("bool", c[1], tuple(kids))


def atoms_form(c):
    """(op, kids) over atoms; set membership is a disjunction of equalities."""
    if c[0] == "bool":
        return (c[1], tuple(atoms_form(k) for k in c[2]))
    _, lhs, op, rhs = c
    if op in ("IN", "NOT IN") and rhs[0] == "call" and rhs[1] in ("array", "tuple") and rhs[2] is None:
        f = ("OR", tuple(("atom", ("=", lhs, v)) for v in rhs[3]))
        return f if op == "IN" else ("NOT", (f,))
    if op == "!=":
        return ("NOT", (("atom", ("=", lhs, rhs)),))
    if op == "IS NOT NULL":
        return ("NOT", (("atom", ("IS NULL", lhs, None)),))
    if op == "NOT LIKE":
        return ("NOT", (("atom", ("LIKE", lhs, rhs)),))
    if op == "NOT IN":
        return ("NOT", (("atom", ("IN", lhs, rhs)),))
    return ("atom", (op, lhs, rhs))


def _atoms(f, acc):
    if f[0] == "atom":
        acc.setdefault(f[1], len(acc))
    else:
        for k in f[1]:
            _atoms(k, acc)


def _ev(f, val):
    if f[0] == "atom":
        return val[f[1]]
    if f[0] == "AND":
        return all(_ev(k, val) for k in f[1])
    if f[0] == "OR":
        return any(_ev(k, val) for k in f[1])
    return not _ev(f[1][0], val)


def _aim(f, want, val, rng):
    """set atoms so that f takes the wanted value, critically if it can"""
    if f[0] == "atom":
        val[f[1]] = want
    elif f[0] == "NOT":
        _aim(f[1][0], not want, val, rng)
    elif want == (f[0] == "AND"):
        for k in f[1]:
            _aim(k, want, val, rng)
    elif f[1]:
        one = rng.randrange(len(f[1]))
        for i, k in enumerate(f[1]):
            if i != one:
                _aim(k, not want, val, rng)
        _aim(f[1][one], want, val, rng)


def _foldable(c):
    """is there an OR that serializing may fold into an IN?"""
    if c[0] != "bool":
        return False
    if c[1] == "OR":
        eq = [k[1] for k in c[2] if k[0] == "cond" and k[2] == "="]
        if len(eq) != len(set(eq)):
            return True
    return any(_foldable(k) for k in c[2])


def strict_form(c):
    """like atoms_form, but only what folding produces is taken apart"""
    if c[0] == "bool":
        return (c[1], tuple(strict_form(k) for k in c[2]))
    _, lhs, op, rhs = c
    if op == "IN" and rhs[0] == "call" and rhs[1] in ("array", "tuple") and rhs[2] is None and len(rhs[3]) > 1:
        return ("OR", tuple(("atom", ("=", lhs, v)) for v in rhs[3]))
    return ("atom", (op, lhs, rhs))


def equivalent(a, b, rng, strict=False):
    """Are two conjunctions of conditions the same filter?  -> None or a witness.
    Exact up to 10 atoms; beyond that up to 500 valuations: single atoms true or
    false, random ones, and ones steered to make either side true or just false.
    strict: the same conditions in the same order and groups, except that an OR of
    equalities may have been folded."""
    fa = flat(("bool", "AND", tuple(a or ())))
    fb = flat(("bool", "AND", tuple(b or ())))
    if fa == fb:
        return None
    if strict and not _foldable(fa):
        return "conditions differ: expected %r, text says %r" % (fa, fb)
    form = strict_form if strict else atoms_form
    ga, gb = form(fa), form(fb)
    acc = {}
    _atoms(ga, acc)
    _atoms(gb, acc)
    names = list(acc)
    n = len(names)
    if n <= 10:
        vals = ({k: bool(m >> i & 1) for i, k in enumerate(names)} for m in range(1 << n))
    else:
        def gen():
            m = max(30, min(300, 60000 // n))
            step = max(1, n // min(100, m))
            for base in (False, True):
                yield dict.fromkeys(names, base)
                for i in range(0, n, step):
                    v = dict.fromkeys(names, base)
                    v[names[i]] = not base
                    yield v
            for i in range(m):
                d = rng.random()
                v = {k: rng.random() < d for k in names}
                if i % 3:  # steer one side to true or (just) false
                    _aim(ga if i % 2 else gb, i % 4 < 2, v, rng)
                yield v

        vals = gen()
    for v in vals:
        x, y = _ev(ga, v), _ev(gb, v)
        if x != y:
            return "filters differ when exactly these hold: %r (expected %s, text says %s)" % (
                [k for k, t in v.items() if t][:6], x, y)
    return None


def compare(want, got, rng, path="", strict=False):
    """None, or how the meaning of the text differs from the meaning of the query."""
    for f in want:
        w, g = want[f], got[f]
        if f in ("where", "having"):
            if (w is None) != (g is None):
                return "%s%s: expected %r, text says %r" % (path, f, w, g)
            why = equivalent(w, g, rng, strict)
            if why:
                return "%s%s: %s" % (path, f, why)
        elif f == "match" and w[0] == "sub" and g[0] == "sub":
            why = compare(w[1], g[1], rng, path + "inner ", strict)
            if why:
                return why
        elif w != g:
            return "%s%s: expected %r, text says %r" % (path, f, w, g)
    return None
