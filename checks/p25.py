"""P25: stateful model-based testing: random histories of declare/set/update/read/membership/clone operations against a reference dictionary, plus the same on the options of every public class"""
import copy
import inspect
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, Violation, rng_of
from smt.utils.options_dictionary import OptionsDictionary
from smt import surrogate_models as SMO, sampling_methods as SAM, problems as PRO, applications as APP


class Odd:
    """a kind of value no option of the package asks for"""


def pool(i):
    """fresh value number i (mutable ones are never shared between calls)"""
    mk = [lambda: None, lambda: True, lambda: False, lambda: 0, lambda: 1, lambda: 7, lambda: -2.5, lambda: 1.0, lambda: "a", lambda: "b", lambda: "ab", lambda: "",
          lambda: [1, 2], lambda: [], lambda: ("a", 3), lambda: {"k": [1]}, lambda: np.array([1.0, 2.0]), lambda: np.zeros((0, 2)), lambda: np.float64(2.0), lambda: np.int64(3),
          lambda: Odd, lambda: len, lambda: [[1.0], [2.0]], lambda: np.array(["a", "b"])]
    return mk[i % len(mk)]()


NPOOL = 24
VALUES = [None, (True, False), ("a", "b"), [0, 1, 7], ("a", None), ["ab"], (None, 1.0)]
TYPES = [None, bool, int, float, str, list, (list, np.ndarray), dict, (int, float), (type(None), int, str), np.ndarray, (tuple, list), type, object]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and (a == b).all()
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def ok(decl, v):
    """the documented rule"""
    values, types = decl
    inv = values is not None and not isinstance(v, np.ndarray) and any(v == w for w in values)
    int_ = types is not None and isinstance(v, types)
    return (values is None and types is None) or inv or int_


def mutate(v):
    """change a mutable value in place; None when it is immutable"""
    if isinstance(v, list):
        v.append("changed")
    elif isinstance(v, dict):
        v["changed"] = 1
    elif isinstance(v, np.ndarray) and v.size and v.dtype.kind == "f":
        v.flat[0] += 1
    else:
        return False
    return True


OP = st.tuples(st.sampled_from(["declare", "set", "set", "get", "update", "clone", "in", "mutate", "set", "wrong"]), st.integers(0, 2), st.integers(0, 4), st.integers(0, NPOOL - 1), st.integers(0, 6), st.integers(0, 13), st.integers(0, 4), st.integers(0, NPOOL - 1))


def check_all(objs):
    for o, m in objs:
        for n in "pqr":
            if n in m:
                need(o.is_declared(n), "declared option %s reported as undeclared" % n)
                need(same(o[n], m[n][1]), lambda: "option %s reads %r, expected %r" % (n, o[n], m[n][1]))
            elif m.get("?" + n) is None:
                need(n not in o and not o.is_declared(n), "option %s was never declared" % n)


def refused(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation(what)


# most histories start with declared options: pairs of (values, types) and the number of an acceptable default
START = st.lists(st.tuples(st.integers(0, 6), st.integers(0, 13), st.integers(0, NPOOL - 1)), max_size=3)


@sub(st.fixed_dictionaries(dict(start=START, ops=st.lists(OP, min_size=3, max_size=25))), quick=15000, rule="a history with a declaration, a refused assignment and a stored one, or a copy")
def histories(case):
    objs = [(OptionsDictionary(), {})]
    seen = set()
    for n, (wi, ti, vi) in zip("pqr", case["start"]):
        dec = (VALUES[wi], TYPES[ti])
        good = [i for i in range(NPOOL) if ok(dec, pool(i))] or [0]
        v = pool(good[vi % len(good)])
        objs[0][0].declare(n, v, values=dec[0], types=dec[1], desc="d")
        objs[0][1][n] = (dec, copy.deepcopy(v))
    for op, oi, ni, vi, wi, ti, n2, v2 in case["ops"]:
        o, m = objs[oi % len(objs)]
        n = "pqr"[ni % 3]
        known = n in m
        if v2 % 3 and (known or op == "declare"):
            # mostly acceptable values
            dec = (VALUES[wi], TYPES[ti]) if op == "declare" else m[n][0]
            good = [i for i in range(NPOOL) if ok(dec, pool(i))]
            vi = good[vi % len(good)] if good else 0
        v = pool(vi)
        if m.get("?" + n):
            continue
        if op == "declare":
            dec = (VALUES[wi], TYPES[ti])
            if v is None or ok(dec, v):
                o.declare(n, v, values=dec[0], types=dec[1], desc="d")
                m[n] = (dec, copy.deepcopy(v))
                seen.add("declare")
            else:
                # a bad default is refused; what is left of that name is not specified
                refused(lambda: o.declare(n, v, values=dec[0], types=dec[1]), "default %r accepted for values %r types %r" % (v, dec[0], dec[1]))
                m.pop(n, None)
                m["?" + n] = True
                seen.add("bad default")
        elif op in ("set", "wrong"):
            if op == "wrong":
                v = Odd()
            if known and ok(m[n][0], v):
                o[n] = v
                m[n] = (m[n][0], v if isinstance(v, Odd) else copy.deepcopy(v))
                seen.add("set")
            else:
                def go():
                    o[n] = v
                refused(go, "%r stored in option %s: %r" % (v, n, m.get(n)))
                seen.add("refused" if known else "undeclared")
        elif op == "update":
            na, nb = n, "pqr"[n2 % 3]
            if m.get("?" + nb) or na == nb:
                continue
            d = {na: v, nb: pool(v2)}
            good = [k in m and ok(m[k][0], d[k]) for k in (na, nb)]
            before = {k: m[k] for k in (na, nb) if k in m}
            if all(good):
                o.update(d)
                for k in d:
                    m[k] = (m[k][0], copy.deepcopy(d[k]))
                seen.add("update")
            else:
                refused(lambda: o.update(d), "bulk update with %r accepted" % d)
                # the rejected entry keeps its value; the other may or may not have been set
                for k, g in zip((na, nb), good):
                    if g and same(o[k], d[k]):
                        m[k] = (m[k][0], copy.deepcopy(d[k]))
                seen.add("refused")
        elif op == "get":
            if known:
                need(n in o, "declared option not found")
            else:
                refused(lambda: o[n], "undeclared option %s was read" % n)
        elif op == "in":
            need((n in o) == known, "membership of %s" % n)
            need(o.is_declared(n) == known, "declaration of %s" % n)
        elif op == "clone":
            if len(objs) < 4 and not any(k[0] == "?" for k in m):
                objs.append((o.clone(), {k: (w[0], w[1] if isinstance(w[1], Odd) else copy.deepcopy(w[1])) for k, w in m.items()}))
                if any(isinstance(w[1], Odd) for w in m.values()):
                    objs.pop()
                else:
                    seen.add("clone")
        elif op == "mutate":
            if known and mutate(o[n]):
                mutate(m[n][1])
                seen.add("mutate")
        check_all(objs)
    return ("set" in seen and "refused" in seen) or "clone" in seen, sorted(seen)


def classes():
    out = []
    for mod in (SMO, SAM, PRO, APP):
        for n, c in sorted(vars(mod).items()):
            if inspect.isclass(c) and n not in ("Evaluator", "NestedLHS", "ReducedProblem") and hasattr(c, "__call__" if mod in (SAM, PRO) else "__init__"):
                out.append((mod, c))
    return out


CLS = classes()
ADDED = ["weight_of_test", "x"]


def build(mod, c, **kw):
    if mod is SAM:
        kw.setdefault("xlimits", np.array([[0.0, 1.0], [-1.0, 2.0]]))
    return c(**kw)


@sub(gen.cases(c=st.integers(0, len(CLS) - 1), pick=st.integers(0, 40), v=st.integers(0, NPOOL - 1)), quick=1500, rule="an option was assigned through the constructor and read back")
def public_classes(case):
    mod, c = CLS[case["c"]]
    a, b = build(mod, c), build(mod, c)
    names = sorted(k for k in a.options._declared_entries) if hasattr(a.options, "_declared_entries") else sorted(a.options._dict)
    n = names[case["pick"] % len(names)]
    need(n in a.options and a.options.is_declared(n), "%s: declared option %s not found" % (c.__name__, n))
    need(same(a.options[n], b.options[n]) or isinstance(a.options[n], object) and type(a.options[n]) is type(b.options[n]), "%s: default of %s differs between objects" % (c.__name__, n))
    # undeclared options are refused everywhere
    refused(lambda: build(mod, c, no_such_option=1), "%s accepted an undeclared option" % c.__name__)

    def und():
        a.options["no_such_option"] = 1
    refused(und, "%s stored an undeclared option" % c.__name__)
    need("no_such_option" not in a.options, "undeclared option became a member")
    # a value of a kind nobody declares
    free = n in ("allow", "deny", "name_model_LF", "name_model_bridge")
    old = a.options[n]
    keep = copy.deepcopy(old)

    def bad():
        a.options[n] = Odd()
    if not free:
        refused(bad, "%s stored an unrelated object in option %s" % (c.__name__, n))
        need(a.options[n] is old and (same(old, keep) or not isinstance(old, (list, dict, np.ndarray, str, float, int))), "%s: a refused assignment changed option %s" % (c.__name__, n))
        refused(lambda: build(mod, c, **{n: Odd()}), "%s accepted an unrelated object for option %s" % (c.__name__, n))
    # a value that is accepted is stored, here and only here
    v = pool(case["v"]) if case["v"] % 3 else copy.deepcopy(keep)
    try:
        a.options[n] = v
    except Exception:
        need(a.options[n] is old, "%s: a refused assignment changed option %s" % (c.__name__, n))
        return False, [c.__name__]
    need(a.options[n] is v or same(a.options[n], v), "%s: option %s reads %r after storing %r" % (c.__name__, n, a.options[n], v))
    need(not (mutable(v) and b.options[n] is v) and (same(b.options[n], keep) or not isinstance(keep, (list, dict, np.ndarray, str, float, int, bool, type(None)))), "%s: option %s of another object changed" % (c.__name__, n))
    if mutable(b.options[n]) and mutate(b.options[n]):
        need(same(build(mod, c).options[n], keep) or n == "xlimits", "%s: default of option %s is shared between objects" % (c.__name__, n))
    try:
        d = build(mod, c, **{n: v})
    except Exception:
        return True, [c.__name__]      # accepted as an option, refused for what it means (e.g. dimensions)
    if mod is not PRO:
        need(d.options[n] is v or same(d.options[n], v), "%s(%s=%r) stores %r" % (c.__name__, n, v, d.options[n]))
    return True, [c.__name__]


def mutable(v):
    return isinstance(v, (list, dict, np.ndarray))
