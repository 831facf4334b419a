"""C13: requests carry query, routing and flags completely, or are rejected."""
import json
import types
from datetime import datetime

import mql
import snuba_sdk as S
import spec
import util
from checks.c06 import HOSTILE, Odd

PROPERTY = "C13"
RULE = (
    "Requests crossing query kind (SnQL, metrics, delete; valid or invalid) with dataset, app id, parent API, tenant ids and "
    "the six flags (unset, true, false), each drawn legal or illegal (hostile characters, empty, wrong types), given to the constructor "
    "or assigned afterwards, rendered several times. Monitors: to_dict equals, key by key and type by type, the payload computed from the arguments; "
    "serialize, serialize_mql, str and print decode to the same JSON; illegal requests raise an SDK error in every rendering. "
    "Distinct by (kind, flags, legality, fields); non-trivial: all."
)
ASSUMPTIONS = ["the query text inside the payload is compared with the query's own serialize(), which C01 and C10 judge"]
BUDGET = {"quick": 130000, "thorough": 1500000}
FLOOR = {"evaluations": 8000, "accepted": 3500, "rejected": 2500, "distinct": 1500}

OK_CHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+*/:-[]")
FLAGS = ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")


def ok_name(n):
    return isinstance(n, str) and n != "" and all(c in OK_CHARS for c in n)


def a_name(r, bad):
    n = r.choice(["events", "discover", "a", "my-app", "x.y:z", "a[b]", "*", "+", "A9", "metrics/x"])
    if r.random() < 0.04:
        n = (n * 260)[: r.choice([32, 33, 63, 64, 65, 128, 129, 255, 256, 257, 600])]
    if bad and r.random() < 0.8:
        i = r.randint(0, len(n))
        n = n[:i] + r.choice(HOSTILE) + n[i:]
    elif bad:
        n = r.choice(["", None, 1, b"events", ["events"], Odd(), 0, "events\n", " ", True])
    return n


def a_query(r, bad):
    """-> kind, query, legal"""
    k = r.random()
    if k < 0.5:
        g = spec.Gen(r)
        q = g.query(r.choice([0, 0, 1]))
        if bad:
            q = dict(q)
            if r.random() < 0.5:
                q["select"] = r.choice([None, ()])
            else:
                q["totals"], q["groupby"] = True, r.choice([None, ()])
        return "snql", spec.build_query(q), not bad
    if k < 0.8:
        kw = dict(
            query=mql.build(mql.MGen(r).expr()) if r.random() < 0.7 else "sum(foo)", start=datetime(2024, 1, 1), end=datetime(2024, 1, 2),
            rollup=S.Rollup(interval=60, granularity=60), scope=S.MetricsScope([1], [2], "x"), indexer_mappings={"a": 1},
        )
        if bad:
            n = r.choice(sorted(kw))
            kw[n] = 5 if n == "indexer_mappings" else r.choice([None, 5])
            if n == "query" and r.random() < 0.5:
                kw[n] = r.choice(["sum(", "", "5", "sum(foo) + $x"])
        return "metrics", S.MetricsQuery(**kw), not bad
    c = {}
    for _ in range(r.choice([1, 2, 4])):
        c[r.choice(["id", "status", "a b", "", "é"])] = [r.choice([1, 0, "x", "", 2**70, "it's"]) for _ in range(r.choice([1, 2, 5]))]
    if bad:
        if r.random() < 0.4:
            c = {}
        else:
            c[r.choice(sorted(c))] = []
    return "delete", S.DeleteQuery(r.choice(["events", "search_issues", ""]), c), not bad


class NotJSON(Exception):
    pass


def render(req, name):
    if name == "to_dict":
        return req.to_dict()
    out = str(req) if name == "str" else getattr(req, name)()
    try:
        return json.loads(out)
    except (ValueError, TypeError) as e:
        raise NotJSON("%s: %s" % (name, e))


RENDERINGS = ("to_dict", "serialize", "serialize_mql", "print", "str")


def same(a, b):
    return util.unset_dicts(util.freeze(a)) == util.unset_dicts(util.freeze(b))


def case(ctx):
    r = ctx.rng
    wrong = r.choice([None, None, None, "dataset", "app_id", "parent_api", "tenant_ids", "flags", "query"])
    dataset, app_id = a_name(r, wrong == "dataset"), a_name(r, wrong == "app_id")
    g = spec.Gen(r)
    parent = r.choice(["<unknown>", "api", "/api/0/", "é x", "a\nb", g.string() or "z"])
    if wrong == "parent_api":
        parent = r.choice(["", None, 1, b"x", ["x"], Odd(), 0])
    tenants = {}
    for _ in range(r.choice([0, 1, 2, 5])):
        tenants[r.choice(["organization_id", "referrer", "", g.string()])] = r.choice([0, 1, 2**63, "x", "", g.string()])
    if wrong == "tenant_ids":
        tenants = r.choice([None, [], [("a", 1)], "x", 1, types.MappingProxyType({"a": 1}), Odd(), ()])
    values = {f: r.choice([None, None, True, False]) for f in FLAGS}
    if wrong == "flags":
        values[r.choice(FLAGS)] = r.choice([0, 1, "true", "", "False", [], {}, 1.0, Odd()])
    kind, query, qlegal = a_query(r, wrong == "query")
    legal = (
        ok_name(dataset) and ok_name(app_id) and isinstance(parent, str) and parent != "" and isinstance(tenants, dict) and qlegal
        and all(v is None or isinstance(v, bool) for v in values.values())
    )
    no_flags = wrong != "flags" and r.random() < 0.1
    if no_flags:
        values = {f: None for f in FLAGS}
    flags = None if no_flags and r.random() < 0.5 else S.Flags(**{f: v for f, v in values.items() if v is not None or r.random() < 0.3})
    if r.random() < 0.75:
        kw = {}
        if not (flags == S.Flags() and r.random() < 0.5):
            kw["flags"] = flags
        if parent != "<unknown>" or r.random() < 0.5:
            kw["parent_api"] = parent
        if tenants != {} or r.random() < 0.5:
            kw["tenant_ids"] = tenants
        req = S.Request(dataset, app_id, query, **kw)
    else:  # assigned later, after having been rendered with other values
        _, other, _ = a_query(r, False)
        req = S.Request("d0", "a0", other, S.Flags(turbo=True))
        render(req, "to_dict" if r.random() < 0.5 else r.choice(RENDERINGS))
        order = [("dataset", dataset), ("app_id", app_id), ("query", query), ("flags", flags), ("parent_api", parent), ("tenant_ids", tenants)]
        r.shuffle(order)
        for n, v in order:
            setattr(req, n, v)
        ctx.saw("assigned_later")
    show = dict(kind=kind, dataset=dataset, app_id=app_id, parent_api=parent, tenant_ids=tenants, flags=values)
    names = list(RENDERINGS)
    r.shuffle(names)
    if not legal:
        for n in names + ["validate"]:
            try:
                out = req.validate() if n == "validate" else render(req, n)
            except Exception as e:
                if util.is_sdk_error(e):
                    continue
                ctx.violation("%s of an illegal request raised %s" % (n, type(e).__name__), error=repr(e), **show)
                return
            ctx.violation("%s accepted an illegal request (%s)" % (n, wrong), out=out, query=query, **show)
            return
        ctx.saw("rejected")
        ctx.saw("rejected_" + str(wrong))
        ctx.distinct("%s %s %r %r" % (kind, wrong, show.get(wrong), sorted(values.items(), key=str) if wrong == "flags" else ""))
        return
    want = {f: v for f, v in values.items() if v is not None}
    want.update(app_id=app_id, tenant_ids=tenants, parent_api=parent)
    if kind == "delete":
        want["query"] = {"columns": query.column_conditions}
    elif kind == "metrics":
        m = query.serialize()
        want.update(query=m["mql"], mql_context=m["mql_context"], dataset=dataset)
    else:
        want.update(query=query.serialize(), dataset=dataset)
    req.validate()
    for n in names:
        try:
            out = render(req, n)
        except NotJSON as e:
            ctx.violation("the rendering is not JSON: %s" % e, **show)
            return
        if not isinstance(out, dict) or set(out) != set(want):
            ctx.violation("%s: the payload has other keys" % n, got=sorted(out), want=sorted(want), **show)
            return
        for key in want:
            if not same(out[key], want[key]):
                ctx.violation("%s: %r in the payload differs" % (n, key), got=out[key], want=want[key], **show)
                return
    ctx.saw("accepted")
    ctx.saw("accepted_" + kind)
    ctx.distinct("%s %r %s" % (kind, sorted(values.items()), (dataset, app_id, len(tenants))))
    ctx.sample(repr(show))
