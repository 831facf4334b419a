"""C14: legacy bodies convert to requests with the same meaning."""
import json

from snuba_sdk.legacy import json_to_snql

import legacy
import snql
import spec
import util

PROPERTY = "C14"
RULE = (
    "Legacy bodies are generated together with the query they mean (every key present, absent or null; functions and conditions nested in each other, raw curried names, "
    "OR groups, date-like strings and near misses against tags/release/other left hand sides, quoted strings, tuples and lists, all operators in any case). "
    "json_to_snql converts them; the text of the request is read back by the independent SnQL reader and compared clause by clause, the envelope key by key. "
    "Illegal bodies (nothing selected, limit out of range, totals without group by) must raise an SDK error. Distinct by the text; non-trivial: a condition, function or ordering is present."
)
ASSUMPTIONS = [
    "organization, project: integers or non-empty lists of them; dates in the four formats the converter documents",
    "the meaning of a body is the one generated with it in mon/legacy.py",
]
BUDGET = {"quick": 120000, "thorough": 900000}
FLOOR = {"evaluations": 8000, "distinct": 5000, "converted": 7000, "refused": 200}


def case(ctx):
    r = ctx.rng
    body, entity, q, env = legacy.LGen(r).body()
    if r.random() < 0.06:
        k = r.random()
        if k < 0.3:
            body.pop("selected_columns", None)
            body["aggregations"] = []
        elif k < 0.6:
            f = r.choice(["limit", "granularity"])
            body[f] = r.choice([0, -1]) if f != "limit" else r.choice([0, -1, 10001])
        elif k < 0.8:
            body["offset"] = -1
        else:
            body.pop("groupby", None)
            body["totals"] = True
        try:
            out = json_to_snql(body, entity).to_dict()
        except Exception as e:
            if not util.is_sdk_error(e):
                ctx.violation("an illegal body raised %s" % type(e).__name__, body=body, entity=entity, error=repr(e))
            ctx.saw("refused")
            return
        ctx.violation("an illegal body was converted", body=body, entity=entity, got=out)
        return
    want = spec.canon_query(q)
    req = json_to_snql(body, entity)
    out = req.to_dict()
    ctx.saw("converted")
    for k in sorted(env) + ["parent_api"]:
        w = env.get(k, "<unknown>")
        if k not in out or util.freeze(out[k]) != util.freeze(w):
            ctx.violation("%s of the request differs" % k, body=body, entity=entity, got=out.get(k), want=w)
            return
    extra = set(out) - set(env) - {"query", "parent_api"}
    if extra:
        ctx.violation("the request has more than the body: %s" % sorted(extra), body=body, entity=entity, got=out)
        return
    texts = [out["query"], req.query.print()]
    if r.random() < 0.2:
        texts.append(json.loads(json_to_snql(body, entity).serialize())["query"])
    for text in texts:
        try:
            got = snql.read(text)
        except snql.Bad as e:
            ctx.violation("the text is not readable SnQL: %s" % e, body=body, entity=entity, text=text)
            return
        why = snql.compare(want, got, r)
        if why:
            ctx.violation("the converted query means something else: %s" % why, body=body, entity=entity, text=text)
            return
    for k in body:
        ctx.saw("has_" + k) if k in spec.FIELDS or k in ("conditions", "project", "organization", "from_date", "to_date", "sample", "limitby") else None
    ctx.distinct(out["query"])
    ctx.sample(repr(body))
