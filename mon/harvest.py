"""Constants that occur in the code under test, used as a fuzzing dictionary.

Only the *values* are used, as extra boundary inputs (numbers n-1, n, n+1, sizes,
strings, characters); nothing is ever decided by looking at the source text.
"""
import ast
import os
import re

ROOT = "/repo/snuba_sdk"


def _collect():
    ints, strs, chars = set(), set(), set()
    for base, _, files in os.walk(ROOT):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(base, f)).read())
            except SyntaxError:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float):
                        ints.add(int(v)) if v == int(v) else None
                    elif isinstance(v, str):
                        if 0 < len(v) <= 40 and "\n" not in v.strip("\n"):
                            strs.add(v)
                        if len(v) <= 4:
                            chars.update(v)
    return sorted(ints), sorted(strs), sorted(chars)


INTS, STRS, CHARS = _collect()
SIZES = sorted({s for i in INTS if 2 <= i <= 1200 for s in (i - 1, i, i + 1)})
BIG = sorted({s for s in SIZES if s > 1} | {5, 8, 11, 17, 33, 64, 65, 101, 130, 257, 513, 1025})


def big(r, cap=1100):
    """a large size; small ones more often"""
    return min(cap, r.choice(BIG) if r.random() < 0.5 else r.choice([11, 17, 33, 65, 101, 130]))


def word(r):
    """a short text of the kind used as a key"""
    return r.choice(STRS) if r.random() < 0.5 else r.choice(["organization_id", "referrer", "a", "", "legacy", "use_case_id", "é", "x y", "0"])


COLUMN_LIKE = [s for s in STRS if re.fullmatch(r"[a-zA-Z_][\w.:/@]*", s)]
FUNC_LIKE = [s for s in STRS if re.fullmatch(r"[a-zA-Z][\w]+", s)]
TAG_LIKE = [s for s in STRS if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_.]*", s)]
