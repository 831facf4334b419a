"""C09: MQL strings parse to the metrics query they denote."""
from datetime import datetime

import mql
import mqltext
import snuba_sdk as S
import util
from snuba_sdk.mql.mql import parse_mql

PROPERTY = "C09"
RULE = (
    "A random MQL expression is drawn as tokens and, at the same time, as what it denotes; the tokens are laid out three "
    "times (spacing, line breaks, AND spelled AND/and/comma/blank, quoted or bare values and metrics, redundant parentheses) "
    "and each text is parsed by the SDK. Monitor: the parsed object, unfolded to a neutral form, has the "
    "denoted operators, operands, names, parameters, metrics, groupings in order, and filters equivalent on sampled rows. One "
    "in four cases breaks the token list so that it is certainly outside the language (unbalanced brackets, "
    "dangling operators, ...): parsing must raise. Distinct by shape of the expression tree; non-trivial: all."
)
ASSUMPTIONS = [
    "the language is MQL as documented by the grammar and tests: no blank before { or between a name and (, none after unary minus",
    "not judged: backslashes in strings, unquoted parameters starting with digit or '-', function names starting with digits, quoted strings as operands",
]
BUDGET = {"quick": 60000, "thorough": 600000}
FLOOR = {"evaluations": 3000, "parsed": 6000, "rejected": 700, "distinct": 1000}


def shape(s):
    if s[0] == "num":
        return "n"
    f = "%s%s%s" % ("p" if s[3] else "", "f" if s[4] else "", "g" if s[5] else "")
    if s[0] == "ts":
        return "t" + f + s[1][0][0]
    return "%s%s(%s)" % (s[1] if s[1] in mql.INFIX or s[1] == "negate" else "F", f, ",".join(shape(o) for o in s[2]))


def case(ctx):
    r = ctx.rng
    t = mqltext.Text(r)
    toks, s = t.query()
    if r.random() < 0.25:
        text, why = mqltext.broken(toks, r)
        got = None
        try:
            got = parse_mql(text)
        except Exception:
            ctx.saw("rejected")
            ctx.saw("rejected: " + why)
        else:
            ctx.violation("a string outside the language was accepted (%s)" % why, text=text, parsed=got)
            return
        try:
            S.MetricsQuery(text, datetime(2024, 1, 1), datetime(2024, 1, 2), S.Rollup(interval=60, granularity=60), S.MetricsScope([1], [2], "x"),
                           indexer_mappings={}).validate()
        except Exception:
            return
        ctx.violation("MetricsQuery accepted a string outside the language", text=text)
        return
    want = mql.nf(s)
    for tight in (None, r.choice([0, 1]), 0.5):
        text = mqltext.layout(toks, r, tight)
        if r.random() < 0.2:
            text = r.choice([" ", "\n", "\t\n"]) + text + r.choice([" ", "\n", ""])
        try:
            got = parse_mql(text)
        except Exception as e:
            ctx.violation("a string of the language was rejected", text=text, denotes=s, error=repr(e)[:300])
            return
        try:
            back = mql.unbuild(got)
        except (TypeError, AttributeError) as e:
            ctx.violation("the parse result is not a metrics expression", text=text, error=repr(e), parsed=got)
            return
        why = mql.differ(want, mql.nf(back), r, strict=True)
        if why:
            ctx.violation("the string was parsed to something else: " + why, text=text, denotes=s, parsed=got)
            return
        ctx.saw("parsed")
    ctx.distinct(shape(s))
    if len(text) < 200:
        ctx.sample(repr(text))
