"""Helpers shared by the monitors."""
from __future__ import annotations

import dataclasses
import enum
import os
import pickle
import signal
import sys
from datetime import date, datetime

import snuba_sdk as S

import core

SDK = "/repo/snuba_sdk/"


def is_sdk_error(e):
    return type(e).__module__.split(".")[0] == "snuba_sdk"


def freeze(x, depth=0):
    """A value by which two object graphs can be compared and remembered: every
    public dataclass field, container kind, literal type and value."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (
            type(x).__name__,
            tuple(
                (f.name, freeze(getattr(x, f.name), depth + 1))
                for f in dataclasses.fields(x)
                if not f.name.startswith("_")
            ),
        )
    if isinstance(x, enum.Enum):
        return (type(x).__name__, x.name)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y, depth + 1) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((freeze(y) for y in x), key=repr)))
    if isinstance(x, datetime):
        return ("datetime", repr(x.replace(tzinfo=None)), x.fold, str(x.utcoffset()))
    if x is None or isinstance(x, (bool, int, float, str, bytes, date)):
        return (type(x).__name__, repr(x))
    return ("object", type(x).__name__, repr(x))


def unset_dicts(f):
    """frozen form with dictionaries order-insensitive"""
    if isinstance(f, tuple):
        if len(f) == 2 and f[0] == "dict":
            return ("dict", tuple(sorted((unset_dicts(i) for i in f[1]), key=repr)))
        return tuple(unset_dicts(i) for i in f)
    return f


def outcome(fn, *args):
    """("ok", frozen result) or ("error", class name); never the message."""
    try:
        r = fn(*args)
    except Exception as e:
        return ("error", type(e).__module__ + "." + type(e).__name__)
    return ("ok", freeze(r))


def canon_obj(o, j=False):
    """SDK expression objects -> the tree spec.canon predicts."""
    import spec

    if isinstance(o, S.Column):
        return ("name", "%s.%s" % (o.entity.alias, o.name) if j and o.entity is not None else o.name)
    if isinstance(o, S.CurriedFunction):
        ci = None if o.initializers is None else tuple(canon_obj(x, j) for x in o.initializers)
        cp = None if o.parameters is None else tuple(canon_obj(x, j) for x in o.parameters)
        if ci is None and cp is None:
            node = ("name", o.function)
        elif cp is None:
            node = ("call", o.function, None, ci)
        else:
            node = ("call", o.function, ci, cp)
        if node[0] == "call":
            node = spec.norm_datetime_call(node)
        return spec.with_alias(node, o.alias)
    if isinstance(o, S.Identifier):
        return ("quoted", o.name)
    if isinstance(o, S.Lambda):
        return ("lambda", tuple(o.identifiers), canon_obj(o.transformation, j))
    if isinstance(o, S.AliasedExpression):
        return spec.with_alias(canon_obj(o.exp, j), o.alias)
    if isinstance(o, S.Condition):
        if o.op.name in spec.UNARY:
            return ("cond", canon_obj(o.lhs, j), o.op.value, None)
        return ("cond", canon_obj(o.lhs, j), o.op.value, canon_obj(o.rhs, j))
    if isinstance(o, S.BooleanCondition):
        return ("bool", o.op.value, tuple(canon_obj(c, j) for c in o.conditions))
    if isinstance(o, list):
        return ("call", "array", None, tuple(canon_obj(x, j) for x in o))
    if isinstance(o, tuple):
        return ("call", "tuple", None, tuple(canon_obj(x, j) for x in o))
    return spec.canon_lit(o)


# ------------------------------------------------------------------- forking


def in_fork(fn, *args):
    """Run fn in a child forked from this process; its pickled result comes back.
    The child starts from exactly this process' state and leaves no trace in it."""
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if left:  # the child gives up a little before its parent
                signal.setitimer(signal.ITIMER_REAL, max(0.1, 0.9 * left))
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except core.CaseTimeout as e:
                import traceback

                data = pickle.dumps(("hang", (core.in_sdk(e), traceback.format_exc())))
            except BaseException as e:  # noqa
                import traceback

                data = pickle.dumps(("crash", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked child died")
    kind, val = pickle.loads(data)
    if kind == "hang":
        raise core.CaseTimeout(*val)
    if kind == "crash":
        raise RuntimeError("forked child failed: " + val)
    return val


# -------------------------------------------------- interrupting the real code


class Interrupt(Exception):
    pass


class HardInterrupt(BaseException):
    pass


def count_lines(fn):
    """Run fn, counting the line events in SDK frames; -> (count, error or None)"""
    n = 0

    def local(frame, event, arg):
        nonlocal n
        if event == "line":
            n += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SDK) else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    except Exception:
        pass
    finally:
        sys.settrace(old)
    return n


def interrupted(fn, at, exc=Interrupt):
    """Run fn with an exception raised at SDK line event number `at`.
    -> True if the exception was injected"""
    n, fired = 0, False

    def local(frame, event, arg):
        nonlocal n, fired
        if event == "line":
            n += 1
            if n == at and not fired:
                fired = True
                raise exc("injected")
        return local

    def glob(frame, event, arg):
        return local if not fired and frame.f_code.co_filename.startswith(SDK) else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    except Exception:
        pass
    except HardInterrupt:
        pass
    finally:
        sys.settrace(old)
    return fired
