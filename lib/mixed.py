"""Mixed-variable specifications: generation and an independent model of the encoding."""
import numpy as np
from hypothesis import strategies as st

# one variable: F (float), I (integer) or a number of levels
VARS = st.lists(st.sampled_from(["F", "I", 2, 3, 4, 1, 7, "F", "I"]), min_size=1, max_size=5)


def xtypes(spec):
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    return [FLOAT if v == "F" else INT if v == "I" else (ENUM, v) for v in spec]


def limits(spec, rng, form="list", small=False):
    out = []
    for j, v in enumerate(spec):
        if v == "F":
            lo = rng.uniform(-5, 5)
            out.append([lo, lo + rng.uniform(0.1, 10)])
        elif v == "I":
            lo = int(rng.randint(-6, 7))
            out.append([lo, lo + int(rng.randint(1, 4 if small else 12))])
        else:
            out.append(["v%d_%d" % (j, i) for i in rng.permutation(v)])
    if form == "object":
        a = np.empty(len(out), dtype=object)
        for i, o in enumerate(out):
            a[i] = o
        return a
    if form == "numeric":
        return np.array([o if not isinstance(o[0], str) else [0, 1] for o in out], float)
    return out


def width(spec):
    return sum(v if isinstance(v, int) else 1 for v in spec)


def relaxed_bounds(spec, lim):
    out = []
    for v, l in zip(spec, lim):
        out += [[0.0, 1.0]] * v if isinstance(v, int) else [[float(l[0]), float(l[1])]]
    return np.array(out)


def folded(spec, lim, rng, n):
    X = np.empty((n, len(spec)))
    for j, (v, l) in enumerate(zip(spec, lim)):
        X[:, j] = rng.uniform(l[0], l[1], n) if v == "F" else rng.randint(l[0], l[1] + 1, n) if v == "I" else rng.randint(0, v, n)
    return X


def encode(spec, X):
    cols = []
    for j, v in enumerate(spec):
        if isinstance(v, int):
            cols.append((X[:, j][:, None] == np.arange(v)[None, :]).astype(float))
        else:
            cols.append(X[:, j:j + 1])
    return np.hstack(cols)


def nearest(spec, Z):
    """folded feasible point for each relaxed one; None where a rounding tie leaves a choice"""
    X, tie, c = np.empty((len(Z), len(spec))), np.zeros(len(Z), bool), 0
    for j, v in enumerate(spec):
        if v == "F":
            X[:, j] = Z[:, c]
        elif v == "I":
            X[:, j] = np.floor(Z[:, c] + 0.5)
            tie |= Z[:, c] - np.floor(Z[:, c]) == 0.5
        else:
            S = Z[:, c:c + v]
            X[:, j] = S.argmax(axis=1)
            tie |= (S == S.max(axis=1)[:, None]).sum(axis=1) > 1
        c += v if isinstance(v, int) else 1
    return X, tie


def feasible(spec, lim, X, what, need):
    """folded points X are feasible choices"""
    need(X.shape[1] == len(spec), "%s: %d columns" % (what, X.shape[1]))
    for j, (v, l) in enumerate(zip(spec, lim)):
        x = X[:, j]
        if isinstance(v, int):
            need(np.isin(x, np.arange(v)).all(), "%s: variable %d is no level index: %s" % (what, j, x[:5]))
            continue
        need((x >= l[0]).all() and (x <= l[1]).all(), "%s: variable %d leaves [%g, %g]: %g .. %g" % (what, j, l[0], l[1], x.min(), x.max()))
        if v == "I":
            need((x == np.round(x)).all(), "%s: integer variable %d is fractional: %s" % (what, j, x[:5]))


def relaxed(spec, lim, rng, n, ties=True):
    B = relaxed_bounds(spec, lim)
    Z = rng.uniform(B[:, 0], B[:, 1], (n, len(B)))
    c = 0
    for v, l in zip(spec, lim):
        k = v if isinstance(v, int) else 1
        if ties:
            for i in range(n):
                r = rng.randint(8)
                if isinstance(v, int) and r < 3:
                    Z[i, c:c + k] = [0.0, 0.5, 1.0][r] if rng.rand() < 0.5 else np.round(Z[i, c:c + k] * 2) / 2
                elif v == "I" and r < 3:
                    Z[i, c] = [l[0], l[1], np.floor(Z[i, c]) + 0.5][r]
                elif v == "F" and r < 2:
                    Z[i, c] = l[r]
        c += k
    return Z
