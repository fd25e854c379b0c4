"""Structured generators. Strategies draw small JSON-able cases; arrays are expanded from the drawn seed."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)
BOX_KINDS = ("unit", "sym", "wide", "tiny", "shift", "mixed")
FAR_KINDS = BOX_KINDS + ("far",)   # also boxes far from the origin for their width


def cases(**kw):
    """fixed dictionary with a seed; plain values become constants."""
    d = {k: (v if isinstance(v, st.SearchStrategy) else st.just(v)) for k, v in kw.items()}
    d["seed"] = seeds
    return st.fixed_dictionaries(d)


def box(rng, kind, d):
    """Bounds [d, 2] of very different magnitudes."""
    lo, w = np.zeros(d), np.ones(d)
    if kind == "sym":
        lo, w = -np.ones(d), 2 * np.ones(d)
    elif kind == "wide":
        lo = rng.uniform(-1e3, 1e3, d)
        w = rng.uniform(1e2, 1e4, d)
    elif kind == "tiny":
        lo = rng.uniform(-1e-3, 1e-3, d)
        w = rng.uniform(1e-4, 1e-2, d)
    elif kind == "shift":
        lo = rng.uniform(-20, 20, d)
        w = rng.uniform(0.5, 5, d)
    elif kind == "mixed":
        w = 10.0 ** rng.uniform(-3, 3, d)
        lo = rng.uniform(-2, 2, d) * w
    elif kind == "far":
        w = 10.0 ** rng.uniform(-2, 2, d)
        lo = rng.choice([-1, 1], d) * w * 10.0 ** rng.uniform(2, 8, d)
    return np.stack([lo, lo + w], axis=1)


def spread(rng, n, d, cand=6):
    """n points of [0,1]^d kept apart (greedy farthest of a few random candidates)."""
    C = rng.rand(max(n * cand, n + 5), d)
    P = [C[0]]
    dist = np.sum((C - P[0]) ** 2, axis=1)
    for _ in range(n - 1):
        i = int(np.argmax(dist))
        P.append(C[i])
        dist = np.minimum(dist, np.sum((C - C[i]) ** 2, axis=1))
    return np.array(P)[rng.permutation(n)]


def unit_design(rng, kind, n, d):
    if kind == "lhs":
        X = np.empty((n, d))
        for j in range(d):
            X[:, j] = (rng.permutation(n) + rng.uniform(0.2, 0.8, n)) / n
        return X
    if kind == "grid":
        m = 2
        while m ** d < n:
            m += 1
        g = np.linspace(0, 1, m)
        G = np.stack([a.ravel() for a in np.meshgrid(*[g] * d, indexing="ij")], axis=1)
        return G[rng.permutation(len(G))[:n]]
    if kind == "uniform":
        return rng.rand(n, d)
    return spread(rng, n, d)


DESIGNS = st.sampled_from(["spread", "lhs", "grid"])


def scale(U, xl):
    return xl[:, 0] + U * (xl[:, 1] - xl[:, 0])


def outputs(rng, U, ny=1, fam="smooth"):
    """Outputs [n, ny] as functions of unit-box points; every family is O(1)."""
    n, d = U.shape
    Y = np.empty((n, ny))
    for k in range(ny):
        w, c, b = rng.uniform(-2, 2, d), rng.uniform(-1, 1, d), rng.uniform(-1, 1)
        if fam == "linear":
            Y[:, k] = b + U @ c
        elif fam == "quad":
            A = rng.uniform(-1, 1, (d, d))
            Y[:, k] = b + U @ c + np.einsum("ni,ij,nj->n", U, A, U)
        elif fam == "rough":
            Y[:, k] = rng.uniform(-1, 1, n)
        elif fam == "const":
            Y[:, k] = b
        else:
            Y[:, k] = np.sin(2.5 * U @ w + b) + 0.5 * np.cos(3 * U @ c) + 0.3 * (U @ c)
    return Y


FAMS = st.sampled_from(["smooth", "quad", "rough", "linear"])
QUIET = dict(print_global=False)


def queries(rng, n, d, xt_unit=None, outside=0.15):
    """Query points in unit coordinates: interior, slightly outside, near training points."""
    Q = rng.uniform(-outside, 1 + outside, (n, d))
    if xt_unit is not None and n > 2:
        i = rng.randint(len(xt_unit))
        Q[0] = xt_unit[i] + rng.uniform(-0.02, 0.02, d)
    return Q
