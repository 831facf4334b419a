"""C01: the SnQL text denotes exactly the query that was built."""
import snuba_sdk as S

import snql
import spec

PROPERTY = "C01"
RULE = (
    "Random query specifications (all match kinds incl. joins and nested subqueries, all 12 "
    "clauses, every expression kind, boundary sizes and harvested constants) are built with the "
    "public API (constructor or setters in random order) and serialize()d, print()ed and str()ed; "
    "an independent SnQL reader recovers the meaning of each text and it is compared clause by "
    "clause with the specification. Non-trivial: at least two clauses beside MATCH or a nested "
    "expression; distinct by the serialized text."
)
ASSUMPTIONS = [
    "the reader in mon/snql.py is the reference for SnQL syntax",
    "conditions are compared as boolean functions of their atoms (exact to 10 atoms, else ~500 valuations)",
]
BUDGET = {"quick": 80000, "thorough": 700000}
FLOOR = {"evaluations": 5000, "distinct": 3000, "text_read": 10000, "join": 500, "subquery": 500, "storage": 300}


def case(ctx):
    g = spec.Gen(ctx.rng)
    q = g.query(nest=ctx.rng.choice([0, 1, 1, 2, 3]) if g.profile != "wide" else 1)
    query = spec.build_query(q) if ctx.rng.random() < 0.5 else spec.build_query_by_setters(q, ctx.rng)
    want = spec.canon_query(q)
    texts = {"serialize": query.serialize(), "print": query.print(), "str": str(query)}
    if ctx.rng.random() < 0.3:
        texts["request"] = S.Request("ds", "app", query).to_dict()["query"]
    kind = {"entity": "entity", "storage": "storage", "join": "join", "query": "subquery"}[q["match"][0]]
    ctx.saw(kind)
    for how, text in texts.items():
        if not isinstance(text, str):
            ctx.violation("%s() did not return text" % how, got=text, spec=q)
            return
        try:
            got = snql.read(text)
        except snql.Bad as e:
            ctx.violation("%s text is not readable SnQL: %s" % (how, e), text=text, spec=q)
            return
        ctx.saw("text_read")
        why = snql.compare(want, got, ctx.rng, strict=True)
        if why:
            ctx.violation("%s text does not mean the query: %s" % (how, why), text=text, spec=q)
            return
    if sum(v is not None for v in want.values()) > 3 or len(texts["serialize"]) > 80:
        ctx.distinct(texts["serialize"])
        ctx.sample(texts["serialize"])
