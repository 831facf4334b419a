"""C12: the MQL context carries every query parameter unchanged."""
import json

import mql
import mqltext
import snuba_sdk as S
import spec
import util

PROPERTY = "C12"
RULE = (
    "Metrics queries with random parameters (naive and zoned datetimes, every legal rollup combination, id lists of any "
    "length, falsy and boundary limits and offsets, extrapolate unset/false/true, indexer mappings with any keys), built at once or by setters. Monitor: the context in "
    "serialize, print, str and request payloads is compared key by key, with types, with the one computed from the arguments; it must survive "
    "JSON; without indexer mappings every rendering must raise an SDK error. Distinct by context; non-trivial: all."
)
ASSUMPTIONS = ["datetimes are compared as ISO text: seconds, microseconds and offset of the value given"]
BUDGET = {"quick": 120000, "thorough": 1500000}
FLOOR = {"evaluations": 5000, "contexts": 8000, "refused": 500, "distinct": 4000}


def iso(d):
    """ISO text, written out here"""
    t = "%04d-%02d-%02dT%02d:%02d:%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second)
    if d.microsecond:
        t += ".%06d" % d.microsecond
    off = d.utcoffset()
    if off is not None:
        s = int(off.total_seconds())
        sign = "-" if s < 0 else "+"
        s = abs(s)
        t += "%s%02d:%02d" % (sign, s // 3600, s // 60 % 60)
        if s % 60:
            t += ":%02d" % (s % 60)
    return t


def same(a, b):
    return util.unset_dicts(util.freeze(a)) == util.unset_dicts(util.freeze(b))


def case(ctx):
    r = ctx.rng
    g = spec.Gen(r)
    k = r.random()
    if k < 0.4:
        query = S.Timeseries(S.Metric("m") if hasattr(S, "Metric") else mql.Metric("m"), "sum")
    elif k < 0.6:
        query = "sum(foo){a:b} by c"
    else:
        query = mql.build(mql.MGen(r).expr())
    start, end = g.dt(), g.dt()
    while True:
        interval = r.choice([None, 10, 60, 61, 3600, 86400, 10**9, g.limit_int(10, 10**6)])
        totals = r.choice([None, True, False])
        orderby = r.choice([None, None, S.Direction.ASC, S.Direction.DESC]) if interval is None else None
        gran = r.choice([10, 60, 3600, 86400])
        if (interval is None or interval >= gran) and not (interval is None and totals is None):
            break
    org = [abs(g.integer()) for _ in range(r.choice([0, 1, 1, 2, 7]))]
    proj = [abs(g.integer()) for _ in range(r.choice([0, 1, 1, 2, 40]))]
    use_case = r.choice([None, "", "transactions", g.string()])
    limit = r.choice([None, 1, 10000, g.limit_int()])
    offset = r.choice([None, 0, 1, g.limit_int(0, 10**9)])
    extra = r.choice([None, True, False])
    mappings = {}
    for _ in range(r.choice([0, 1, 2, 9])):
        mappings[r.choice(["", "d:transactions/duration@millisecond", "a", g.string()])] = r.choice([0, 1, 10**18, "x", "", g.string()])
    no_map = r.random() < 0.07
    if no_map and r.random() < 0.4:  # or no granularity: cannot be serialized either
        gran = None
    parts = {
        "query": query, "start": start, "end": end, "rollup": S.Rollup(interval, totals, orderby, gran), "scope": S.MetricsScope(org, proj, use_case),
        "limit": limit, "offset": offset, "extrapolate": extra, "indexer_mappings": None if no_map and gran is not None else mappings,
    }
    how = r.random()
    if how < 0.5:
        kw = dict(parts)
        for n, c in (("limit", S.Limit), ("offset", S.Offset), ("extrapolate", S.Extrapolate)):
            if kw[n] is not None:
                kw[n] = c(kw[n])
            elif r.random() < 0.5:
                del kw[n]
        mq = S.MetricsQuery(**kw)
    else:
        names = [n for n, v in parts.items() if v is not None]
        r.shuffle(names)
        mq = S.MetricsQuery()
        for n in names:
            mq = getattr(mq, "set_" + n)(parts[n])
    want = {
        "start": iso(start),
        "end": iso(end),
        "rollup": {
            "orderby": orderby.name if orderby is not None else None,
            "granularity": gran,
            "interval": interval,
            "with_totals": None if totals is None else str(totals),
        },
        "scope": {"org_ids": org, "project_ids": proj, "use_case_id": use_case},
        "limit": limit,
        "offset": offset,
        "extrapolate": extra,
        "indexer_mappings": mappings,
    }
    renderings = {
        "serialize": lambda: mq.serialize(),
        "print": lambda: json.loads(mq.print()),
        "str": lambda: json.loads(str(mq)),
        "request": lambda: S.Request("metrics", "app", mq).to_dict(),
        "request.serialize": lambda: json.loads(S.Request("metrics", "app", mq).serialize()),
        "request.print": lambda: json.loads(S.Request("metrics", "app", mq).print()),
    }
    picked = ["serialize"] + r.sample(sorted(renderings), 2)
    for name in picked:
        if no_map:
            if name == "str" and gran is None:  # str() does not validate
                continue
            try:
                out = renderings[name]()
            except Exception as e:
                if util.is_sdk_error(e):
                    ctx.saw("refused")
                    continue
                ctx.violation("%s without indexer mappings or granularity raised %s" % (name, type(e).__name__), error=repr(e))
                return
            ctx.violation("%s worked without indexer mappings or granularity" % name, out=out)
            return
        out = renderings[name]()
        c = out.get("mql_context")
        if not isinstance(c, dict) or set(c) != set(want):
            ctx.violation("%s: the context has other keys" % name, got=c, want=want)
            return
        for key in want:
            if not same(c[key], want[key]):
                ctx.violation("%s: %s in the context differs from the query" % (name, key), got=c[key], want=want[key], parts=parts)
                return
        text_key = "query" if name.startswith("request") else "mql"
        if not isinstance(out.get(text_key), str) or not out[text_key]:
            ctx.violation("%s has no MQL text" % name, out=out)
            return
        if name == "serialize" and set(out) != {"mql", "mql_context"}:
            ctx.violation("serialize gives other keys", got=sorted(out))
            return
        if not same(json.loads(json.dumps(c)), want):
            ctx.violation("%s: the context is not plain JSON data" % name, got=c)
            return
        ctx.saw("contexts")
        ctx.saw("via_" + name)
    ctx.distinct(repr(want))
    ctx.sample(repr(want))
