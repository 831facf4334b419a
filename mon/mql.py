"""Specifications of metrics expressions, an independent reader of MQL text and the
normal form in which meanings are compared.

 spec:  ("ts", metric, aggregate, params|None, filters|None, groupby|None)
        ("fm", name, (operands...), params|None, filters|None, groupby|None)
        ("num", number)
 metric: ("mri", text) | ("name", text)
 filter: ("cond", key, op, value | (values...)) | ("bool", "AND"|"OR", (filters...), style)
"""
from __future__ import annotations

import re

import harvest
import snql
import spec
import snuba_sdk as S
from snuba_sdk.timeseries import Metric

INFIX = {"plus": "+", "minus": "-", "multiply": "*", "divide": "/"}
WILD = re.compile(r'[^,\[\]"}{()\s*]+\*', re.S)
KEY = re.compile(r"[a-zA-Z0-9_.]+")
MRIS = """d:transactions/duration@millisecond c:sessions/session@none s:sessions/user@none
d:spans/exclusive_time@millisecond g:custom/my.gauge@byte d:custom/sentry.process-profile@second
e:spans/count_1@none d:transactions/measurements.lcp@millisecond""".split()
ODD_MRIS = [
    "d:custom/with space@none", "d:custom/du(ration@none", "d:custom/a{b}@none", 'd:custom/q"q@none',
    "d:custom/b[0]@none", " d:custom/lead@none", "d:custom/x@none,second", "d:custom/plus+minus-@none",
    "d:custom/é日本@none", "d:custom/x)@none", "d:custom/trail@none ", "d:a:b/c/d@e@f", "d:custom/a@none by x",
    "d:custom/{x:1}@none", "d:custom/a*b@none", "d:custom/x@none)", "d:custom/a'b@none", "d:custom/$x@none",
]
NAMES = ["duration", "transaction.duration", "foo", "a.b.c", "session_count", "my_metric", "x", "by_the_way.and_or"]
AGGS = ["sum", "count", "avg", "max", "min", "uniq", "p50", "p95", "quantiles", "count_unique", "topK", "rate", "MyAgg1", "histogram"]
OPERATORS = {"plus", "minus", "multiply", "divide", "negate"}
NEAR_OPS = ["Plus", "DIVIDE", "Multiply", "mINUS", "Negate", "NEGATE", "plus_", "_minus", "divide2", "negate_", "Sum", "COUNT"]
FUNCS = ["apdex", "failure_rate", "abs", "topK", "time_shift", "divide_by", "myFunc2", "sum", "max", "per_second", "f"]
KEYS = ["environment", "release", "transaction", "a", "b", "status_code", "foo.bar", "user.id", "X1", "_u", "os.name", "by", "and_x", "AND_", "or1", "in"]
VALUES = ["prod", "dev", "500", "1.2.3", "hello world", "", "a,b", "x*y", "[a]", "{b}", "(c)", "it's", 'say "hi"', '"', "é", "日本",
          "a:b", "$v", "!x", "AND", "OR", "a OR b:c", '"} by (x)', "-", "tab\there", "*", "**", "NULL", "/api/*/x", "`t`", "a b*", "AND b:c", "#", "%", '"' * 12, 'a"b" ' * 10, "v" * 70, "é" * 300]


def public_name(r):
    if r.random() < 0.85:
        return r.choice(NAMES)
    return ".".join("".join(r.choice("abz_") for _ in range(r.choice([1, 2, 5]))) for _ in range(r.choice([1, 2, 3, 4, 5, 8, 20])))


def fname(r, pool):
    """the name of an aggregate or function, now and then an unusual one"""
    if r.random() < 0.93:
        return r.choice(pool)
    n = r.choice(NEAR_OPS) if r.random() < 0.4 else r.choice(pool)
    if r.random() < 0.6:
        n = r.choice([n + "_", n + "9", "_" + n, n + "__x", n.upper(), n.capitalize(), n + "_" + n, n + "x" * r.choice([20, 50, 64, 130])])
    return n if n not in OPERATORS else n + "_"


class MGen:
    def __init__(self, rng):
        self.r = rng
        self.fuel = rng.choice([3, 6, 12, 30])
        self.depth = rng.choice([0, 1, 2, 2, 3, 6])
        self.dups = False  # a grouping may name a column twice

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return r.choice([0, 1, 2, 100, 1000, 10**18, 3600])
        if k < 0.5:
            return r.choice([0.5, 1.0, 0.1, 99.9, 1e-05, 1e-7, 1e16, 1e20, 123456.789, 1.5e300, 2.5e-12])
        if k < 0.7:
            return abs(r.choice(harvest.INTS or [3]) + r.choice([-1, 0, 1]))
        if k < 0.85:
            return r.randint(0, 10**6)
        return r.uniform(0, 1) * 10 ** r.randint(-8, 19)

    def metric(self, odd=True):
        r = self.r
        k = r.random()
        if k < 0.45:
            return ("mri", r.choice(MRIS))
        if k < 0.6 and odd:
            return ("mri", r.choice(ODD_MRIS))
        if k < 0.7:
            w = lambda: "".join(r.choice("abz_.019-") for _ in range(r.randint(1, 8)))
            return ("mri", "%s:%s/%s@%s" % (r.choice("dcsge"), w(), w(), w()))
        return ("name", public_name(r))

    def key(self):
        r = self.r
        if r.random() < 0.8:
            return r.choice(KEYS)
        if harvest.TAG_LIKE and r.random() < 0.5:
            return r.choice(harvest.TAG_LIKE)
        return r.choice("abcXYZ_") + "".join(r.choice("abz09_.") for _ in range(r.choice([0, 2, 8, 8, 40])))

    def text(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return r.choice(VALUES)
        if k < 0.7 and harvest.STRS:
            return r.choice([s for s in harvest.STRS if "\\" not in s and "\n" not in s] or ["z"])
        return "".join(r.choice('ab*,[]{}()": \'`é!$.-/' if r.random() < 0.5 else "abcdefgh123") for _ in range(r.choice([1, 2, 3, 6, 15])))

    def wild(self):
        r = self.r
        return r.choice(["a*", "prod*", "1.2.*", "/api/x*", "it's*", "é*", "a:b*", "x-y*", "\\d*" if False else "q*", "a/b?c=d*"])

    def plain(self):
        for _ in range(50):
            t = self.text()
            if not WILD.fullmatch(t):
                return t
        return "zz"

    def cond(self):
        r = self.r
        op = r.choice(["EQ", "EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"])
        if op in ("EQ", "NEQ"):
            return ("cond", self.key(), op, self.plain())
        if op in ("LIKE", "NOT_LIKE"):
            return ("cond", self.key(), op, self.wild())
        n = r.choice([1, 2, 3, 5, 5, 12]) if r.random() < 0.95 else r.choice(harvest.SIZES or [30])
        return ("cond", self.key(), op, tuple(self.text() for _ in range(n)))

    def filt(self, depth=None, top=True):
        r = self.r
        if depth is None:
            depth = r.choice([0, 1, 2, 2, 3, 5])
        if depth and self.fuel > 0 and r.random() < (0.35 if top else 0.5):
            n = r.choice([2, 2, 3, 4]) if r.random() < 0.9 else min(40, harvest.big(r))
            self.fuel -= n
            kids = [self.filt(depth - 1, False) for _ in range(n)]
            if r.random() < 0.1:
                kids[r.randrange(n)] = r.choice(kids)
            return ("bool", r.choice(["AND", "OR"]), tuple(kids), r.choice(["short", "generic"]))
        if depth and r.random() < 0.1:
            key = self.key()
            n = r.choice([2, 3, 5]) if r.random() < 0.9 else min(40, harvest.big(r))
            return ("bool", "OR", tuple(("cond", key, "EQ" if r.random() < 0.95 else "NEQ", self.plain()) for _ in range(n)), "short")
        self.fuel -= 1
        return self.cond()

    def filters(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return None
        if k < 0.5:
            return ()
        fs = [self.filt() for _ in range(r.choice([1, 1, 2, 3]) if r.random() < 0.97 else min(40, harvest.big(r)))]
        if r.random() < 0.1:
            fs.insert(r.randint(0, len(fs)), r.choice(fs))
        return tuple(fs)

    def group(self):
        r = self.r
        if r.random() < 0.5:
            return None
        keys = tuple(dict.fromkeys(self.key() for _ in range(r.choice([1, 1, 2, 3, 6]) if r.random() < 0.97 else min(60, harvest.big(r)))))
        return keys + (r.choice(keys),) if self.dups and r.random() < 0.1 else keys

    def params(self):
        r = self.r
        k = r.random()
        if k < 0.75:
            return None
        if k < 0.8:
            return ()
        ps = [self.number() if r.random() < 0.7 else self.plain() for _ in range(r.choice([1, 1, 2, 3]) if r.random() < 0.95 else harvest.big(r, 130))]
        if r.random() < 0.1:
            ps.insert(r.randint(0, len(ps)), r.choice(ps))
        return tuple(ps)

    def ts(self, group=None):
        return ("ts", self.metric(), self.r.choice(AGGS), self.params(), self.filters(), group)

    def expr(self, depth=None, group=None, top=True):
        """group: the one grouping every part of a formula may carry"""
        r = self.r
        if depth is None:
            depth = self.depth
            group = self.group()
        g = group if r.random() < 0.6 else None
        if depth == 0 or self.fuel <= 0:
            return self.ts(g)
        self.fuel -= 1
        kind = r.choice(["infix", "infix", "infix", "func", "negate"])
        if kind == "negate":
            return ("fm", "negate", (self.expr(depth - 1, group, False),), None, self.filters(), g)
        n = r.choice([2, 2, 2, 3]) if kind == "infix" else r.choice([1, 2, 3])
        if r.random() < 0.02:
            n = r.choice([5, 10, 11, 13])
        ops = []
        for _ in range(n):
            k = r.random()
            if ops and k < 0.05:
                ops.append(r.choice(ops))
            elif k < 0.2:
                v = self.number()
                ops.append(("num", -v if r.random() < 0.3 else v))
            elif k < 0.6:
                ops.append(self.ts(group if r.random() < 0.6 else None))
            else:
                ops.append(self.expr(depth - 1, group, False))
        if not any(has_ts(o) for o in ops):
            ops[r.randrange(n)] = self.ts(g)
        if kind == "infix":
            return ("fm", r.choice(list(INFIX)), tuple(ops), None, self.filters(), g)
        return ("fm", fname(r, FUNCS), tuple(ops), self.params(), self.filters(), g)


def has_ts(s):
    return s[0] == "ts" or (s[0] == "fm" and any(has_ts(o) for o in s[2]))


# ------------------------------------------------------------------ build


def build_filter(f):
    if f[0] == "cond":
        rhs = f[3]
        return S.Condition(S.Column(f[1]), S.Op[f[2]], list(rhs) if isinstance(rhs, tuple) else rhs)
    kids = [build_filter(k) for k in f[2]]
    if f[3] == "short":
        return (S.And if f[1] == "AND" else S.Or)(kids)
    return S.BooleanCondition(S.BooleanOp[f[1]], kids)


def opt(v, fn):
    return None if v is None else [fn(x) for x in v]


def build(s):
    if spec.SHARE is not None and s[0] != "num":
        key = "m" + repr(s)
        o = spec.SHARE.get(key)
        if o is None:
            o = spec.SHARE[key] = build_new(s)
        return o
    return build_new(s)


def build_new(s):
    if s[0] == "num":
        return s[1]
    if s[0] == "ts":
        m = Metric(mri=s[1][1]) if s[1][0] == "mri" else Metric(public_name=s[1][1])
        return S.Timeseries(m, s[2], opt(s[3], lambda x: x), opt(s[4], build_filter), opt(s[5], S.Column))
    return S.Formula(s[1], [build(o) for o in s[2]], opt(s[3], lambda x: x), opt(s[4], build_filter), opt(s[5], S.Column))


# ------------------------------------------------------------ normal form


OPTEXT = {"EQ": "=", "NEQ": "!=", "IN": "IN", "NOT_IN": "NOT IN", "LIKE": "LIKE", "NOT_LIKE": "NOT LIKE"}


def nf_filter(f):
    if f[0] == "bool":
        return ("bool", f[1], tuple(nf_filter(k) for k in f[2]))
    v = f[3]
    rhs = ("call", "array", None, tuple(("str", x) for x in v)) if isinstance(v, tuple) else ("str", v)
    return ("cond", ("name", f[1]), OPTEXT[f[2]], rhs)


def nf_param(p):
    return float(p) if not isinstance(p, str) else p


def nf(s, filters=(), group=(), negated=False):
    """filters, group: pushed down from a unary minus around this node"""
    if s[0] == "num":
        return ("num", float(s[1]))
    fs = tuple(filters) + tuple(nf_filter(f) for f in (s[4] or ()))
    gb = tuple(group) + tuple(s[5] or ())
    if negated:
        gb = tuple(dict.fromkeys(gb))
    if s[0] == "ts":
        return ("ts", s[1], s[2], tuple(nf_param(p) for p in (s[3] or ())), fs, gb)
    if s[1] == "negate":
        return ("fm", "negate", (nf(s[2][0], fs, gb, True),), (), (), ())
    ops = [nf(o) for o in s[2]]
    if s[1] in INFIX:
        acc = ops[0]
        for o in ops[1:-1]:
            acc = ("fm", s[1], (acc, o), (), (), ())
        return ("fm", s[1], (acc, ops[-1]), (), fs, gb)
    return ("fm", s[1], tuple(ops), tuple(nf_param(p) for p in (s[3] or ())), fs, gb)


def differ(a, b, rng, path="query", strict=False):
    """None, or how two normal forms differ"""
    if a[0] != b[0]:
        return "%s: %r vs %r" % (path, a, b)
    if a[0] == "num":
        return None if a == b else "%s: number %r vs %r" % (path, a[1], b[1])
    if a[0] == "ts":
        if a[1:4] != b[1:4]:
            return "%s: %r vs %r" % (path, a[1:4], b[1:4])
    else:
        if a[1] != b[1] or a[3] != b[3] or len(a[2]) != len(b[2]):
            return "%s: function %r vs %r" % (path, (a[1], a[3], len(a[2])), (b[1], b[3], len(b[2])))
    if a[5] != b[5]:
        return "%s: group by %r vs %r" % (path, a[5], b[5])
    why = snql.equivalent(a[4], b[4], rng, strict)
    if why:
        return "%s: %s" % (path, why)
    if a[0] == "fm":
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            why = differ(x, y, rng, "%s.%s[%d]" % (path, a[1], i), strict)
            if why:
                return why
    return None


# ------------------------------------------- from SDK objects back to specs


def unbuild_filter(c):
    if isinstance(c, S.BooleanCondition):
        return ("bool", c.op.value, tuple(unbuild_filter(k) for k in c.conditions), "short")
    if not isinstance(c, S.Condition) or type(c.lhs) is not S.Column:
        raise TypeError("not a filter: %r" % (c,))
    rhs = tuple(c.rhs) if isinstance(c.rhs, (list, tuple)) else c.rhs
    if not all(isinstance(x, str) for x in (rhs if isinstance(rhs, tuple) else (rhs,))):
        raise TypeError("not a string value: %r" % (c,))
    return ("cond", c.lhs.name, c.op.name, rhs)


def unbuild(o):
    if isinstance(o, (int, float)) and not isinstance(o, bool):
        return ("num", o)
    fs = None if o.filters is None else tuple(unbuild_filter(f) for f in o.filters)
    gb = None if o.groupby is None else tuple(c.name for c in o.groupby)
    ap = None if o.aggregate_params is None else tuple(o.aggregate_params)
    if isinstance(o, S.Timeseries):
        m = ("mri", o.metric.mri) if o.metric.mri is not None else ("name", o.metric.public_name)
        return ("ts", m, o.aggregate, ap, fs, gb)
    if isinstance(o, S.Formula):
        return ("fm", o.function_name, tuple(unbuild(p) for p in o.parameters), ap, fs, gb)
    raise TypeError("neither timeseries nor formula: %r" % (o,))


# --------------------------------------------------------------- MQL reader


class Bad(Exception):
    pass


SPECIAL = '(){}[]"`,'


class Reader:
    """Reads MQL as documented.  Strings are unescaped fully: \\\\, \\" and \\n."""

    def __init__(self, text):
        self.s, self.i = text, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def at(self, t):
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if not self.at(t):
            raise Bad("expected %r at %d: %r" % (t, self.i, self.s[self.i : self.i + 20]))
        self.i += len(t)

    def rx(self, r):
        m = re.compile(r).match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group()
        return None

    def full(self):
        self.ws()
        e = self.expression()
        self.ws()
        if self.i != len(self.s):
            raise Bad("trailing text at %d: %r" % (self.i, self.s[self.i : self.i + 30]))
        return e

    def binary(self, sub, ops):
        left = sub()
        while True:
            save = self.i
            self.ws()
            op = next((o for o in ops if self.at(o)), None)
            if op is None:
                self.i = save
                return left
            self.i += 1
            self.ws()
            left = ("fm", ops[op], (left, sub()), None, None, None)

    def expression(self):
        return self.binary(self.term, {"+": "plus", "-": "minus"})

    def term(self):
        return self.binary(self.unary, {"*": "multiply", "/": "divide"})

    def unary(self):
        if self.at("-"):
            self.i += 1
            c = self.coefficient()
            if c[0] == "num":
                return ("num", -c[1])
            return ("fm", "negate", (c,), None, None, None)
        return self.coefficient()

    def coefficient(self):
        n = self.rx(r"[0-9]+(\.[0-9]+)?")
        if n is not None:
            return ("num", float(n))
        t = self.target()
        fs, gb = self.suffix()
        if fs or gb:
            if t[0] == "num":
                raise Bad("filter on a number")
            t = t[:4] + (tuple(fs or ()) + tuple(t[4] or ()), tuple(gb or ()) + tuple(t[5] or ()))
        return t

    def suffix(self):
        fs = self.braces() if self.at("{") else None
        return fs, self.groupby()

    def groupby(self):
        save = self.i
        self.ws()
        if self.rx(r"by(?![a-zA-Z0-9_.])") is None:
            self.i = save
            return None
        self.ws()
        if self.at("("):
            out = []
            self.eat("(")
            while True:
                self.ws()
                k = self.rx(r"[a-zA-Z0-9_.]+")
                if k is None:
                    raise Bad("bad group by at %d" % self.i)
                out.append(k)
                self.ws()
                if self.at(","):
                    self.eat(",")
                    continue
                self.eat(")")
                return tuple(out)
        k = self.rx(r"[a-zA-Z0-9_.]+")
        if k is None:
            raise Bad("bad group by at %d" % self.i)
        return (k,)

    def target(self):
        if self.at("("):
            self.eat("(")
            self.ws()
            e = self.expression()
            self.ws()
            self.eat(")")
            return e
        save = self.i
        name = self.rx(r"[a-zA-Z0-9_]+")
        if name is not None and self.at("("):
            return self.call(name)
        self.i = save
        return ("ts", self.metric(), "AGGREGATE_PLACEHOLDER", None, None, None)

    def metric(self):
        if self.at("`"):
            k = self.s.find("`", self.i + 1)
            if k < 0:
                raise Bad("unterminated `")
            t = self.s[self.i + 1 : k]
            self.i = k + 1
            return ("mri", t) if ":" in t else ("name", t)
        m = re.compile(r'[^:(){}\[\]"`,\s]+:[^/(){}\[\]"`,\s]+/[^@(){}\[\]"`,\s]+@[^(){}\[\]"`,\s]+').match(self.s, self.i)
        if m:
            self.i = m.end()
            return ("mri", m.group())
        n = self.rx(r"[a-z_]+(\.[a-z_]+)*")
        if n is None:
            raise Bad("expected a metric at %d: %r" % (self.i, self.s[self.i : self.i + 20]))
        return ("name", n)

    def call(self, name):
        first = self.i
        # name(params)(...)?
        try:
            params = self.paramlist()
            if self.at("("):
                return self.args(name, params)
        except Bad:
            pass
        self.i = first
        return self.args(name, None)

    def paramlist(self):
        self.eat("(")
        self.ws()
        out = []
        if self.at(")"):
            self.eat(")")
            return ()
        while True:
            n = self.rx(r"-?[0-9]+(\.[0-9]+)?(?=\s*[,)])")
            if n is not None:
                out.append(float(n))
            elif self.at('"'):
                out.append(self.string())
            else:
                t = self.rx(r'[^,\[\]"}{()\s*]+')
                if t is None:
                    raise Bad("bad parameter")
                out.append(t)
            self.ws()
            if self.at(","):
                self.eat(",")
                self.ws()
                continue
            self.eat(")")
            return tuple(out)

    def args(self, name, params):
        """(metric{..} by ..) makes an aggregate, (expr, expr) a function"""
        start = self.i
        try:
            self.eat("(")
            self.ws()
            save = self.i
            w = self.rx(r"[a-zA-Z0-9_]+")
            if w is not None and self.at("("):
                raise Bad("a call")
            self.i = save
            m = self.metric()
            fs, gb = self.suffix()
            self.ws()
            self.eat(")")
            r = ("ts", m, name, params, fs, gb)
        except Bad:
            self.i = start
            self.eat("(")
            ops = []
            while True:
                self.ws()
                ops.append(self.expression())
                self.ws()
                if self.at(","):
                    self.eat(",")
                    continue
                self.eat(")")
                break
            r = ("fm", name, tuple(ops), params, None, None)
        gb = self.groupby()
        if gb:
            r = r[:5] + (gb + tuple(r[5] or ()),)
        return r

    # filters
    def braces(self):
        self.eat("{")
        self.ws()
        if self.at("}"):
            self.eat("}")
            return ()
        f = self.filter_or()
        self.ws()
        self.eat("}")
        return (f,)

    def filter_or(self):
        parts = [self.filter_and()]
        while True:
            save = self.i
            self.ws()
            if self.rx(r"(OR|or)") is None:
                self.i = save
                break
            self.ws()
            parts.append(self.filter_and())
        return parts[0] if len(parts) == 1 else ("bool", "OR", tuple(parts), "short")

    def filter_and(self):
        parts = [self.factor()]
        while True:
            save = self.i
            self.ws()
            if self.at("}") or self.at(")") or re.compile(r"(OR|or)[\s(]").match(self.s, self.i):
                self.i = save
                break
            self.rx(r",|AND|and")
            self.ws()
            parts.append(self.factor())
        return parts[0] if len(parts) == 1 else ("bool", "AND", tuple(parts), "short")

    def factor(self):
        if self.at("("):
            self.eat("(")
            self.ws()
            f = self.filter_or()
            self.ws()
            self.eat(")")
            return f
        neg = self.at("!")
        if neg:
            self.eat("!")
        k = self.rx(r"[a-zA-Z0-9_.]+")
        if k is None:
            raise Bad("expected a tag key at %d: %r" % (self.i, self.s[self.i : self.i + 20]))
        self.ws()
        self.eat(":")
        self.ws()
        if self.at("["):
            vals = []
            self.eat("[")
            while True:
                self.ws()
                vals.append(self.string() if self.at('"') else self.bare())
                self.ws()
                if self.at(","):
                    self.eat(",")
                    continue
                self.eat("]")
                break
            return ("cond", k, "NOT_IN" if neg else "IN", tuple(vals))
        if self.at('"'):
            v = self.string()
            like = WILD.fullmatch(v) is not None
        else:
            v = self.bare()
            like = self.at("*")
            if like:
                self.eat("*")
                v += "*"
        return ("cond", k, ("NOT_LIKE" if like else "NEQ") if neg else ("LIKE" if like else "EQ"), v)

    def bare(self):
        t = self.rx(r'[^,\[\]"}{()\s*]+')
        if t is None:
            raise Bad("expected a value at %d" % self.i)
        return t

    def string(self):
        self.eat('"')
        out = []
        while True:
            if self.i >= len(self.s):
                raise Bad("unterminated string")
            c = self.s[self.i]
            self.i += 1
            if c == '"':
                return "".join(out)
            if c == "\\":
                if self.i >= len(self.s):
                    raise Bad("unterminated string")
                d = self.s[self.i]
                self.i += 1
                if d not in '\\"n':
                    raise Bad("bad escape \\%s" % d)
                out.append("\n" if d == "n" else d)
            else:
                out.append(c)


def read(text):
    return Reader(text).full()
