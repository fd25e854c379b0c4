"""P08: IDW vs the Shepard formula, range bound, exactness, constants."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard
import gen
from smt.surrogate_models import IDW

RULE = "trained model on >= 2 points, queries inside, far outside, very near and at training points"
POW = st.one_of(st.sampled_from([0.5, 1, 1.5, 2, 2.5, 3, 4, 6, 8, 12]), st.floats(0.3, 16))


def shepard(X, Y, Q, p):
    out = np.empty((len(Q), Y.shape[1]))
    for i, q in enumerate(Q):
        r = np.sqrt(((X - q) ** 2).sum(1))
        j = int(np.argmin(r))
        if r[j] == 0:
            out[i] = Y[j]
            continue
        w = (r / r[j]) ** (-float(p))
        out[i] = (w[:, None] * Y).sum(0) / w.sum()
    return out


def make(case):
    rng = rng_of(case)
    U = gen.unit_design(rng, case["design"], case["n"], case["d"])
    xl = gen.box(rng, case["box"], case["d"])
    X = gen.scale(U, xl)
    Y = gen.outputs(rng, U, case["ny"], case["fam"]) * 10.0 ** case["ye"]
    n, d = X.shape
    Q = [gen.scale(rng.uniform(-0.2, 1.2, (5, d)), xl), gen.scale(rng.uniform(-100, 100, (2, d)), xl), X[rng.permutation(n)[:2]]]
    w = xl[:, 1] - xl[:, 0]
    near = X[rng.randint(0, n, 3)] + rng.uniform(-1, 1, (3, d)) * w * 10.0 ** np.array([[-3], [-6], [-9]])
    Q = np.vstack(Q + [near])
    return rng, X, Y, Q, U


BASE = dict(p=POW, n=st.integers(1, 20), d=st.integers(1, 5), ny=st.sampled_from([1, 2, 3, 5]), design=gen.DESIGNS,
            box=st.sampled_from(gen.FAR_KINDS), ye=st.integers(-4, 4))


@sub(gen.cases(fam=gen.FAMS, **BASE), quick=2000, rule=RULE)
def formula(case):
    rng, X, Y, Q, U = make(case)
    sm = IDW(p=case["p"], **gen.QUIET)
    sm.set_training_values(X, Y)
    sm.train()
    got = sm.predict_values(Q)
    want = shepard(X, Y, Q, case["p"])
    close(got, want, 1e-9, 1e-10 * np.abs(Y).max(), "Shepard average")
    eps = 1e-12 * np.abs(Y).max()
    need(np.all(got >= Y.min(0) - eps) and np.all(got <= Y.max(0) + eps), "prediction leaves the range of the training outputs")
    close(sm.predict_values(X), Y, 0, 0, "training outputs")
    return len(X) > 1, ["n1" if len(X) == 1 else "n+", case["box"]]


@sub(gen.cases(fam="const", **BASE), quick=500, rule=RULE)
def constant_data(case):
    rng, X, Y, Q, U = make(case)
    Y[:] = Y[0]
    sm = IDW(p=case["p"], **gen.QUIET)
    sm.set_training_values(X, Y)
    sm.train()
    close(sm.predict_values(Q), np.tile(Y[0], (len(Q), 1)), 1e-12, 0, "constant data")
    for k in range(X.shape[1]):
        g = sm.predict_derivatives(Q, k)
        gap = np.sqrt(((Q[:, None] - X[None]) ** 2).sum(-1)).min(1)
        lim = 1e-12 * np.abs(Y).max() * case["p"] / np.where(gap > 0, gap, 1)
        need(np.all(np.abs(g) <= lim[:, None] + 1e-300), "derivative of constant data %g" % np.abs(g).max())
    return len(X) > 1


@sub(gen.cases(fam=gen.FAMS, far=st.floats(3, 90), big=st.floats(8, 60), **BASE), quick=400, rule=RULE)
def extreme_scales(case):
    """Weights must not overflow or vanish: very far and very near queries, large powers."""
    rng, X, Y, Q, U = make(case)
    d = X.shape[1]
    e = 10.0 ** case["far"]
    Q = np.vstack([rng.uniform(-1, 1, (3, d)) * e, X[:1] + rng.uniform(-1, 1, (1, d)) / e, X[:1]])
    sm = IDW(p=case["big"], **gen.QUIET)
    sm.set_training_values(X, Y)
    sm.train()
    got = sm.predict_values(Q)
    want = shepard(X, Y, Q, case["big"])
    close(got, want, 1e-8, 1e-9 * np.abs(Y).max(), "Shepard average")
    return len(X) > 1
