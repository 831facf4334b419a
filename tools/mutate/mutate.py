"""Systematic mutants of the SDK: which survive the tests, and which of those the checks miss.

    python3 mutate.py gen OUTDIR            write mutants (one per file NNNN.json: file, line, what, source)
    python3 mutate.py tests OUTDIR [n]      run the tests on each, in private mount namespaces -> status
    python3 mutate.py checks OUTDIR [n] [scale]   run the checks on the survivors

Works on copies: /repo is bind-mounted over inside each job's own namespace only.
"""
import ast
import copy
import glob
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))


def sites(tree):
    """(description, line, function(tree_copy_node) -> None) by node index"""
    nodes = list(ast.walk(tree))
    parents = {}
    for p in nodes:
        for c in ast.iter_child_nodes(p):
            parents[c] = p
    doc = {id(n.body[0].value) for n in nodes if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    ann = set()
    for n in nodes:
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                ann.update(id(x) for x in ast.walk(a))
    jn = {id(v) for n in nodes if isinstance(n, ast.JoinedStr) for v in n.values}
    in_raise = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            in_raise.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in ann:
            continue
        msg = id(n) in in_raise
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alts = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
                    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for a in alts.get(type(n.ops[0]), []):
                yield i, L, "compare -> %s" % a.__name__, (lambda m, a=a: m.ops.__setitem__(0, a()))
            if isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)):
                for k in range(len(n.comparators[0].elts)):
                    yield i, L, "drop member %d" % k, (lambda m, k=k: m.comparators[0].elts.pop(k))
        if isinstance(n, ast.BoolOp):
            yield i, L, "swap and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            if len(n.values) >= 2:
                for k in range(len(n.values)):
                    yield i, L, "drop operand %d" % k, (lambda m, k=k: m.values.pop(k))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                if not (isinstance(n, ast.While) and v):
                    yield i, L, "test -> %s" % v, (lambda m, v=v: setattr(m, "test", ast.Constant(v)))
            yield i, L, "negate test", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
        if isinstance(n, ast.Constant) and id(n) not in doc and not msg:
            v = n.value
            if isinstance(v, bool):
                yield i, L, "flip constant", lambda m: setattr(m, "value", not m.value)
            elif isinstance(v, int):
                for d in (1, -1):
                    yield i, L, "constant %+d" % d, (lambda m, d=d: setattr(m, "value", m.value + d))
            elif isinstance(v, str) and v:
                yield i, L, "string -> ''", lambda m: setattr(m, "value", "")
                if len(v) > 1:
                    yield i, L, "string tail dropped", lambda m: setattr(m, "value", m.value[:-1])
            elif v is None and isinstance(parents.get(n), (ast.keyword, ast.Return, ast.Assign)):
                yield i, L, "None -> ''", lambda m: setattr(m, "value", "")
        if isinstance(n, ast.BinOp) and not msg:
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}.get(type(n.op))
            if swap:
                yield i, L, "operator", (lambda m, s=swap: setattr(m, "op", s()))
            yield i, L, "keep left", lambda m: replace(m, m.left)
            yield i, L, "keep right", lambda m: replace(m, m.right)
            yield i, L, "swap sides", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, L, "drop not", lambda m: replace(m, m.operand)
        if isinstance(n, ast.Call) and not msg:
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                yield i, L, "call -> argument", lambda m: replace(m, m.args[0])
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    yield i, L, "swap args %d" % k, (lambda m, k=k: m.args.__setitem__(slice(k, k + 2), m.args[k : k + 2][::-1]))
                yield i, L, "drop last arg", lambda m: m.args.pop()
            for k in range(len(n.keywords)):
                yield i, L, "drop keyword %d" % k, (lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                yield i, L, "method call -> object", lambda m: replace(m, m.func.value)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[-1], ast.Tuple):
                for k in range(len(n.args[-1].elts)):
                    yield i, L, "drop type %d" % k, (lambda m, k=k: m.args[-1].elts.pop(k))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and not msg:
            if not (isinstance(parents.get(n), ast.Call) and getattr(parents[n].func, "id", "") == "isinstance") and not isinstance(parents.get(n), (ast.Compare, ast.Subscript)):
                for k in range(min(8, len(n.elts))):
                    yield i, L, "drop element %d" % k, (lambda m, k=k: m.elts.pop(k))
        if isinstance(n, ast.Dict):
            for k in range(len(n.keys)):
                yield i, L, "drop key %d" % k, (lambda m, k=k: (m.keys.pop(k), m.values.pop(k)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield i, L, "slice -> all", lambda m: replace(m, m.value)
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                yield i, L, "drop filter", (lambda m, k=k: m.ifs.pop(k))
            for what, src in LOOPS:
                yield i, L, "comprehension over " + what, (lambda m, s=src: setattr(m, "iter", wrap(s, m.iter)))
        if isinstance(n, ast.For):
            for what, src in LOOPS:
                yield i, L, "loop over " + what, (lambda m, s=src: setattr(m, "iter", wrap(s, m.iter)))
            yield i, L, "break after first", lambda m: m.body.append(ast.Break())
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield i, L, "return None", lambda m: setattr(m, "value", ast.Constant(None))
        if isinstance(n, ast.IfExp):
            yield i, L, "swap branches", lambda m: (lambda a, b: (setattr(m, "body", b), setattr(m, "orelse", a)))(m.body, m.orelse)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.For, ast.If, ast.Expr, ast.Continue, ast.Break, ast.Try, ast.With)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield i, L, "delete statement", lambda m: to_pass(m)
        if isinstance(n, ast.ExceptHandler):
            yield i, L, "handler: reraise", lambda m: setattr(m, "body", [ast.Raise()])
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            pass
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            other = {"lhs": "rhs", "rhs": "lhs", "start": "end", "end": "start", "limit": "offset", "where": "having", "having": "where", "select": "groupby", "filters": "groupby", "name": "alias", "alias": "name", "org_ids": "project_ids", "project_ids": "org_ids"}.get(n.attr)
            if other:
                yield i, L, ".%s -> .%s" % (n.attr, other), (lambda m, o=other: setattr(m, "attr", o))


LOOPS = [
    ("all but the last when many", "(lambda _x: _x[:-1] if len(_x) > 9 else _x)(list(X))"),
    ("all but the first when three", "(lambda _x: _x[1:] if len(_x) == 3 else _x)(list(X))"),
    ("reversed", "list(X)[::-1]"),
    ("deduplicated by text", "list({repr(_y): _y for _y in X}.values())"),
]


def wrap(src, it):
    e = ast.parse(src, mode="eval").body

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            return it if n.id == "X" else n

    return T().visit(e)


def replace(m, by):
    """turn node m into node by, in place"""
    d = dict(by.__dict__)
    m.__class__ = by.__class__
    m.__dict__.clear()
    m.__dict__.update(d)


def to_pass(m):
    replace(m, ast.copy_location(ast.Pass(), m))


def gen(out):
    os.makedirs(out, exist_ok=True)
    n = 0
    for f in sorted(glob.glob(REPO + "/snuba_sdk/**/*.py", recursive=True)):
        if f.endswith("__init__.py"):
            continue
        src = open(f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for i, line, what, fn in list(sites(tree)):
            t = copy.deepcopy(tree)
            node = list(ast.walk(t))[i]
            try:
                fn(node)
                ast.fix_missing_locations(t)
                new = ast.unparse(t)
                compile(new, f, "exec")
            except Exception:
                continue
            if new == base:
                continue
            json.dump({"file": f, "line": line, "text": src.splitlines()[line - 1].strip() if line else "", "what": what, "source": new}, open("%s/%05d.json" % (out, n), "w"))
            n += 1
    print(n, "mutants")


JOB = r"""
set -e
cp -a /repo $1/repo
cp $1/source.py $1/repo/${2#/repo/}
mount --bind $1/repo /repo
cd /repo
"""


def job(d, m, script, timeout):
    os.makedirs(d, exist_ok=True)
    open(d + "/source.py", "w").write(m["source"])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=d + "/pyc", VMON_PROCS="1")
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), "unshare", "-Urm", "bash", "-c", JOB + script, "job", d, m["file"]], capture_output=True, text=True, env=env)
        return p.returncode, p.stdout, p.stderr
    finally:
        subprocess.run(["rm", "-rf", d])


def tests(out, n=8):
    files = [f for f in sorted(glob.glob(out + "/*.json")) if "tests" not in json.load(open(f))]

    def one(f):
        m = json.load(open(f))
        rc, o, e = job("/tmp/mutjob/%s" % os.path.basename(f)[:-5], m, "/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=60 -W ignore::DeprecationWarning tests", 120)
        m["tests"] = rc
        json.dump(m, open(f, "w"))
        return rc

    with ThreadPoolExecutor(n) as ex:
        rcs = list(ex.map(one, files))
    print(len(rcs), "run,", rcs.count(0), "survive the tests")


ALL = ["C%02d" % i for i in range(1, 22)]
BY_FILE = [  # which checks can see a change in a file; the first match counts
    ("legacy", "C14 C17 C04"), ("delete", "C15 C13 C18 C04"), ("request", "C13 C15 C21 C18"), ("query_validation", "C08 C07 C17"), ("metrics_query_visitors", "C12 C11 C10 C17"), ("metrics_query", "C12 C11 C20 C10 C17"),
    ("metrics_visitors", "C10 C12 C03 C11 C17 C05"), ("query_visitors", "C01 C19 C07 C17 C02 C03 C05"), ("mql_visitor", "C10 C09 C17 C12 C11"), ("visitors", "C01 C02 C10 C19 C07 C17 C05"), ("mql/", "C09 C10 C17"),
    ("mql_context", "C12 C10 C17"), ("timeseries", "C11 C20 C12 C10 C18 C17 C04"), ("formula", "C11 C20 C10 C18 C17 C04"), ("or_opt", "C03 C01 C10"), ("schema", "C21 C08 C18 C07 C19"), ("query.py", "C20 C07 C01 C17 C18 C03 C04"), ("snuba.py", "C19"),
    ("relationships", "C06 C21 C07 C01 C08 C18 C04"), ("conditions", "C06 C21 C01 C03 C08 C18 C17 C04"), ("entity", "C06 C01 C14 C18 C07 C04"), ("storage", "C06 C01 C18 C07 C04"), ("", "C06 C01 C02 C20 C11 C18 C17 C04"),
]


def order(f):
    rel = f[len("/repo/snuba_sdk"):]
    first = next(v.split() for k, v in BY_FILE if k in rel)
    return first if not os.environ.get("MUT_ALL") else first + [c for c in ALL if c not in first]


def checks(out, n=8, scale="0.02"):
    todo = []
    for f in sorted(glob.glob(out + "/*.json")):
        m = json.load(open(f))
        if m.get("tests") == 0 and "caught" not in m or os.environ.get("MUT_AGAIN") and m.get("tests") == 0 and not m["caught"] and not m.get("equivalent"):
            todo.append(f)
    subprocess.run(["rm", "-rf", "/tmp/mutverif"])
    os.makedirs("/tmp/mutverif")
    subprocess.run("cp -a %s/mon %s/run.sh %s/known_findings.json /tmp/mutverif/" % (VERIF, VERIF, VERIF), shell=True, check=True)

    def one(f):
        m = json.load(open(f))
        script = "cp -a /tmp/mutverif $1/v; for c in %s; do VMON_SCALE=%s bash $1/v/run.sh $c > $1/o 2>&1 || { r=$?; if grep -q 'VIOLATION' $1/o; then echo CAUGHT $c; grep -m1 '^---' $1/o; exit 0; fi; if grep -q 'error(s)' $1/o; then echo ERROR $c; tail -5 $1/o; fi; }; done" % (" ".join(order(m["file"])), scale)
        rc, o, e = job("/tmp/mutjob/%s" % os.path.basename(f)[:-5], m, script, 1500)
        m["out"] = o[-1500:] + e[-300:]
        m["caught"] = next((l.split()[1] for l in o.splitlines() if l.startswith("CAUGHT")), None)
        json.dump(m, open(f, "w"))
        if not m["caught"]:
            print(os.path.basename(f), m["file"][17:], m["line"], m["what"], "|", m["text"][:90], "|", o[-200:].replace("\n", " "), flush=True)
        return m["caught"]

    with ThreadPoolExecutor(n) as ex:
        r = list(ex.map(one, todo))
    print(len(r), "survivors,", sum(1 for x in r if x), "caught")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "gen":
        gen(a[1])
    elif a[0] == "tests":
        tests(a[1], int(a[2]) if len(a) > 2 else 8)
    else:
        checks(a[1], int(a[2]) if len(a) > 2 else 8, a[3] if len(a) > 3 else "0.02")
