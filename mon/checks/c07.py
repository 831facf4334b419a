"""C07: queries validate exactly when their clauses and column references are consistent."""
import snuba_sdk as S
import spec
import util

PROPERTY = "C07"
RULE = (
    "Random queries over all match kinds (with and without data models, joins, nested subqueries); then up to three "
    "column references at random positions (any clause, any depth: parameters, initializers, lambdas, list and tuple "
    "elements, both sides of conditions, limit by, array join) are replaced by near-miss or unknown names or wrong entity "
    "qualifiers, and select/group by/totals are emptied or set. Legality is computed on the neutral description. "
    "Observed: outcome of build, validate, serialize, print, str. Distinct by (match kind, position of the replaced "
    "reference, verdict); non-trivial: the query has a reference that the match can refuse."
)
ASSUMPTIONS = ["not judged: outer queries naming a column that the inner query selects only through an aliased expression"]
BUDGET = {"quick": 140000, "thorough": 900000}
FLOOR = {"evaluations": 12000, "accepted": 5000, "rejected": 5000, "distinct": 150}


def columns(node, path=()):
    """all (path, column spec) inside an expression spec"""
    if not isinstance(node, tuple):
        return
    if len(node) == 3 and node[0] == "col":
        yield path, node
        return
    if node and node[0] in ("lit", "entity", "ident"):
        return
    for i, x in enumerate(node):
        if isinstance(x, tuple):
            yield from columns(x, path + (i,))


def replace_at(node, path, new):
    if not path:
        return new
    i = path[0]
    return node[:i] + (replace_at(node[i], path[1:], new),) + node[i + 1 :]


CLAUSES = ("select", "groupby", "array_join", "where", "having", "orderby", "limitby")


def refs(q):
    for f in CLAUSES:
        if q[f]:
            for p, c in columns(q[f]):
                yield f, p, c


def base(name):
    return name.partition("[")[0]


def in_model(model, name):
    return model is None or base(name) in {n for n, _ in model[0]}


class Unclear(Exception):
    pass


def ok_ref(q, c):
    name, ent = c[1], c[2]
    if ent is not None and not in_model(ent[4], name):
        return False  # the column cannot even be built
    m = q["match"]
    if m[0] == "entity":
        return in_model(m[4], name)
    if m[0] == "storage":
        return in_model(m[3], name)
    if m[0] == "join":
        if ent is None:
            return False
        return any(ent[2] == e[2] and ent[1] == e[1] for a, _, b in m[1] for e in (a, b))
    names, unclear = set(), set()
    for s in m[1]["select"] or ():
        if s[0] == "col":
            names.add(s[1])
        elif s[0] in ("fn", "cfn"):
            names.add(s[-1])
        else:
            unclear.update((s[1][1], s[2]))
    if name in names:
        return True
    if name in unclear:
        raise Unclear()
    return False


def legal(q):
    if q["match"][0] == "query" and not legal(q["match"][1]):
        return False
    if not q["select"]:
        return False
    if q["totals"] and not q["groupby"]:
        return False
    return all([ok_ref(q, c) for _, _, c in refs(q)])


def shape(path_root, node, path):
    """where a reference sits, as a short string"""
    out = [path_root]
    for i in path:
        tag = node[0] if isinstance(node[0], str) else ""
        if tag in ("fn", "cfn", "lambda", "cond", "bool", "aliased", "list", "tuple"):
            out.append("%s%s" % (tag, i if tag in ("cond", "cfn") else ""))
        node = node[i]
    dedup = [x for i, x in enumerate(out) if i == 0 or x != out[i - 1]]
    return ".".join(dedup[:5])


def words(x):
    """every short string in a description"""
    out = set()
    if isinstance(x, str):
        if len(x) < 60:
            out.add(x)
    elif isinstance(x, dict):
        out |= words(tuple(x.values()))
    elif isinstance(x, tuple):
        for y in x:
            out |= words(y)
    return out


def near(g, r, c, q):
    """another name, near the old one"""
    n = c[1]
    b = base(n)
    pool = [g.colname(), "zz_missing", n + "x", n[:-1] if len(n) > 1 and not n.endswith("]") else "zz", b, b + "[zz]", b.swapcase() if b else "q", "zz[%s]" % b,
            "_" + n, b + "." + "x"]
    if r.random() < 0.35:  # a name that something else in the query has
        pool = sorted(words(tuple((f, q[f]) for f in q)))
    for _ in range(10):
        k = r.choice(pool)
        if spec.valid_column_name(k):
            return k
    return "zz_missing"


def case(ctx):
    r = ctx.rng
    g = spec.Gen(r, p_model=r.choice([0.3, 0.9]))
    q = g.query(r.choice([0, 1, 1, 2]))
    want_kind = r.random()
    notes = []

    def hurt(q):
        q = dict(q)
        rs = list(refs(q))
        n = r.choice([0, 1, 1, 1, 2, 3])
        for f, p, c in r.sample(rs, min(n, len(rs))):
            k = q["match"][0]
            if k == "join" and r.random() < 0.6:
                ent = c[2]
                kind = r.choice(["none", "unknown", "other", "sample", "swap"])
                if kind == "none":
                    new = ("col", c[1], None)
                elif kind == "unknown":
                    a = ent[2]
                    new = ("col", c[1], ("entity", ent[1], r.choice([a + "zz", a.swapcase(), a.lower(), a.upper(), a[:-1] or "q", a + "_", "_" + a, a + a[-1], ent[1], a + " ", a[0] + "x"]), None, None))
                elif kind == "other":
                    new = ("col", c[1], ("entity", r.choice([ent[1] + "zz", ent[1].swapcase(), ent[1].lower(), ent[1].upper(), ent[1][:-1] or "q", ent[1] + "s"]), ent[2], None, None))
                elif kind == "sample":
                    new = ("col", c[1], ("entity", ent[1], ent[2], 0.25, None))
                else:
                    other = r.choice([e for a, _, b in q["match"][1] for e in (a, b)])
                    new = ("col", c[1], ("entity", ent[1], other[2], None, None))
            else:
                new = ("col", near(g, r, c, q), c[2])
            at = shape(f, q[f], p)
            q[f] = replace_at(q[f], p, new)
            notes.append((q["match"][0], at))
        k = r.random()
        if k < 0.04:
            q["select"] = r.choice([None, ()])
        elif k < 0.1:
            q["totals"] = True
        elif k < 0.14:
            q["groupby"] = r.choice([None, ()])
        return q

    if want_kind > 0.15:
        if q["match"][0] == "query" and r.random() < 0.3:
            q = dict(q)
            inner = hurt(q["match"][1])
            if inner["match"][0] == "query" and r.random() < 0.3:
                inner["match"] = ("query", hurt(inner["match"][1]))
            q["match"] = ("query", inner)
        else:
            q = hurt(q)
    try:
        expect = legal(q)
    except Unclear:
        ctx.saw("unclear")
        return

    by_setters = r.random() < 0.3 and q["select"] and expect
    stage = "build"
    texts = []
    err = None
    try:
        query = spec.build_query_by_setters(q, r) if by_setters else spec.build_query(q)
        stage = "validate"
        query.validate()
        stage = "serialize"
        texts.append(query.serialize())
    except Exception as e:
        err = e
    if err is not None and not util.is_sdk_error(err):
        ctx.violation("%s raised %s, which is not an SDK error" % (stage, type(err).__name__), error=repr(err), spec=q, replaced=notes)
        return
    if expect and err is not None:
        ctx.violation("a consistent query was rejected in %s" % stage, error=repr(err), spec=q, replaced=notes)
        return
    if not expect and err is None:
        ctx.violation("an inconsistent query was accepted", spec=q, replaced=notes, text=texts[0])
        return
    if stage == "validate":
        # every way to get text must refuse as well
        for how in ("serialize", "print", "__str__", "request"):
            try:
                text = S.Request("d", "a", query).serialize() if how == "request" else getattr(query, how)()
            except Exception as e:
                if util.is_sdk_error(e):
                    continue
                ctx.violation("%s of an invalid query raised %s" % (how, type(e).__name__), error=repr(e), spec=q, replaced=notes)
                return
            ctx.violation("%s gave text for an invalid query" % how, spec=q, replaced=notes, text=text)
            return
    ctx.saw("accepted" if expect else "rejected")
    ctx.saw("match_" + q["match"][0])
    for m, at in notes:
        ctx.distinct("%s %s %s" % (m, at, expect))
        ctx.saw("replaced_in_" + at.split(".")[0])
    if notes and not expect:
        ctx.sample("%s -> %s" % (notes, type(err).__name__))
