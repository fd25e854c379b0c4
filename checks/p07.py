"""P07: LS and QP predictions vs an orthogonal least-squares solution of the same polynomial basis."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard
import gen, ref
from smt.surrogate_models import LS, QP

RULE = "design determines the polynomial (scaled basis condition < 1e4), more than one query point judged"
COMMON = dict(kind=st.sampled_from(["LS", "QP"]), d=st.integers(1, 5), ny=st.sampled_from([1, 2, 3, 5]), extra=st.integers(0, 12),
              design=st.sampled_from(["spread", "lhs", "uniform"]), box=st.sampled_from(gen.FAR_KINDS), ye=st.integers(-4, 5))


def setup(case):
    rng = rng_of(case)
    d = case["d"]
    poly = "linear" if case["kind"] == "LS" else "quadratic"
    p = {"linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[poly]
    n = p + case["extra"]
    U = gen.unit_design(rng, case["design"], n, d)
    xl = gen.box(rng, case["box"], d)
    X = gen.scale(U, xl)
    T = lambda Z: 2 * (Z - xl[:, 0]) / (xl[:, 1] - xl[:, 0]) - 1
    F = lambda Z: ref.basis(poly, T(Z))
    c = np.linalg.cond(F(X))
    if not c < 1e4:
        raise Discard("polynomial not determined")
    return rng, d, poly, p, n, U, xl, X, F, c


def fit(case, X, Y):
    sm = dict(LS=LS, QP=QP)[case["kind"]](**gen.QUIET)
    sm.set_training_values(X, Y)
    sm.train()
    return sm


def tol_of(xl, c, kind, mag, X=None):
    # conditioning of the raw monomials: off-centre boxes lose digits
    r = np.max(np.maximum(np.abs(xl[:, 0]), np.abs(xl[:, 1])) / (xl[:, 1] - xl[:, 0]))
    wr = np.max(xl[:, 1] - xl[:, 0]) / np.min(xl[:, 1] - xl[:, 0]) if kind == "LS" else 1.0
    return mag * c * 1e-13 * wr ** 0.5 * (1 + r) ** (1 if kind == "LS" else 2)


@sub(gen.cases(fam=st.sampled_from(["smooth", "rough", "quad"]), **COMMON), quick=1500, rule=RULE)
def best_fit(case):
    rng, d, poly, p, n, U, xl, X, F, c = setup(case)
    Y = gen.outputs(rng, U, case["ny"], case["fam"]) * 10.0 ** case["ye"]
    sm = fit(case, X, Y)
    co = np.linalg.lstsq(F(X), Y, rcond=None)[0]
    Q = gen.scale(rng.uniform(-0.3, 1.3, (6, d)), xl)
    want = F(Q) @ co
    close(sm.predict_values(Q), want, 1e-9, tol_of(xl, c, case["kind"], np.abs(Y).max()) * 10, "prediction vs least squares")
    return True, [case["kind"], case["box"]]


@sub(gen.cases(**COMMON), quick=1500, rule=RULE)
def reproduces_polynomials(case):
    rng, d, poly, p, n, U, xl, X, F, c = setup(case)
    co = rng.uniform(-1, 1, (p, case["ny"])) * 10.0 ** case["ye"]
    Y = F(X) @ co
    sm = fit(case, X, Y)
    Q = gen.scale(rng.uniform(-1, 2, (6, d)), xl)
    close(sm.predict_values(Q), F(Q) @ co, 1e-9, tol_of(xl, c, case["kind"], np.abs(co).max()) * 30, "polynomial data reproduced")
    w = xl[:, 1] - xl[:, 0]
    for k in range(d):
        h = 0.5 * w[k]
        P, M = Q.copy(), Q.copy()
        P[:, k] += h
        M[:, k] -= h
        want = (F(P) @ co - F(M) @ co) / (P[:, k] - M[:, k])[:, None]  # exact for degree <= 2
        close(sm.predict_derivatives(Q, k), want, 1e-8, tol_of(xl, c, case["kind"], np.abs(co).max()) * 100 / w[k],
              "polynomial slope reproduced")
    return True, [case["kind"], case["box"], "d%d" % d]
