"""P09: RBF vs a dense reference solution of the Gaussian basis + trend system."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard
import gen, ref
from smt.surrogate_models import RBF

RULE = "system condition number below 1e11, queries inside and far outside the data"


def system(X, d0, deg, reg):
    n = len(X)
    A = np.exp(-(((X[:, None] - X[None]) / d0) ** 2).sum(-1)) + reg * np.eye(n)
    P = {-1: np.zeros((n, 0)), 0: np.ones((n, 1)), 1: ref.basis("linear", X)}[deg]
    k = P.shape[1]
    return np.block([[A, P], [P.T, np.zeros((k, k))]]), P


def solve_scaled(M, b):
    s = 1.0 / np.sqrt(np.maximum(np.abs(M).max(1), 1e-300))
    Ms = M * s[:, None] * s[None]
    return s[:, None] * np.linalg.solve(Ms, s[:, None] * b), np.linalg.cond(Ms)


def make(case):
    rng = rng_of(case)
    d = case["d"]
    n = max(case["n"], d + 2 if case["deg"] == 1 else 2)
    U = gen.unit_design(rng, case["design"], n, d)
    xl = gen.box(rng, case["box"], d)
    X = gen.scale(U, xl)
    if case["deg"] == 1 and np.linalg.cond(ref.basis("linear", U)) > 1e4:
        raise Discard("trend not determined")
    w = xl[:, 1] - xl[:, 0]
    shape = case["shape"]
    if shape == "scalar":
        d0 = case["d0"] * float(w.max()) * np.ones(d)
        opt = float(d0[0])
    else:
        d0 = case["d0"] * w * 10.0 ** rng.uniform(-0.3, 0.3, d)
        opt = list(d0) if shape == "list" else d0.copy()
    return rng, U, X, xl, d0, opt


BASE = dict(d=st.integers(1, 4), n=st.integers(2, 16), ny=st.sampled_from([1, 2, 3, 5]), deg=st.sampled_from([-1, 0, 1]),
            d0=st.sampled_from([0.05, 0.2, 0.5, 1.0]), shape=st.sampled_from(["scalar", "list", "array"]),
            reg=st.sampled_from([1e-10, 1e-10, 1e-12, 1e-3, 0.5]), design=gen.DESIGNS, box=st.sampled_from(gen.FAR_KINDS),
            ye=st.integers(-3, 3))


def fitted(case, X, Y, opt):
    sm = RBF(d0=opt, poly_degree=case["deg"], reg=case["reg"], **gen.QUIET)
    sm.set_training_values(X, Y)
    sm.train()
    return sm


@sub(gen.cases(fam=gen.FAMS, **BASE), quick=2000, rule=RULE)
def reference(case):
    rng, U, X, xl, d0, opt = make(case)
    Y = gen.outputs(rng, U, case["ny"], case["fam"]) * 10.0 ** case["ye"]
    M, P = system(X, d0, case["deg"], case["reg"])
    n, k = len(X), P.shape[1]
    co, c = solve_scaled(M, np.vstack([Y, np.zeros((k, Y.shape[1]))]))
    craw = np.linalg.cond(M)
    if not (c < 1e9 and craw < 1e13):
        raise Discard("ill-conditioned")
    sm = fitted(case, X, Y, opt)
    d = X.shape[1]
    Q = gen.scale(np.vstack([rng.uniform(-0.2, 1.2, (6, d)), rng.uniform(-20, 20, (2, d))]), xl)
    G = np.exp(-(((Q[:, None] - X[None]) / d0) ** 2).sum(-1))
    T = {-1: np.zeros((len(Q), 0)), 0: np.ones((len(Q), 1)), 1: ref.basis("linear", Q)}[case["deg"]]
    want = np.hstack([G, T]) @ co
    mag = np.hstack([G, np.abs(T)]) @ np.abs(co)
    close(sm.predict_values(Q), want, 1e-9, np.minimum(1e-15 * max(c, min(craw, 1e9)), 1e-4) * (mag + np.abs(Y).max()) + 1e-11 * mag, "RBF expansion")
    return True, ["deg%d" % case["deg"], case["shape"], case["box"]]


@sub(gen.cases(**dict(BASE, deg=st.sampled_from([0, 1]))), quick=1200, rule=RULE)
def reproduces_trend(case):
    rng, U, X, xl, d0, opt = make(case)
    d, ny = X.shape[1], case["ny"]
    b = rng.uniform(-1, 1, ny) * 10.0 ** case["ye"]
    C = rng.uniform(-1, 1, (d, ny)) * 10.0 ** case["ye"] * (case["deg"] == 1)
    f = lambda Z: b + ((Z - xl[:, 0]) / (xl[:, 1] - xl[:, 0])) @ C
    M, P = system(X, d0, case["deg"], case["reg"])
    c, craw = solve_scaled(M, np.zeros((len(M), 1)))[1], np.linalg.cond(M)
    if not (c < 1e9 and craw < 1e13):
        raise Discard("ill-conditioned")
    sm = fitted(case, X, f(X), opt)
    Q = gen.scale(np.vstack([rng.uniform(-0.2, 1.2, (6, d)), rng.uniform(-20, 20, (2, d))]), xl)
    r = 1 + np.max(np.abs(xl).max(1) / (xl[:, 1] - xl[:, 0]))
    tol = np.minimum(3e-15 * max(c, min(craw, 1e9)), 1e-4) * 10.0 ** case["ye"] * r * 40 + 1e-10 * 10.0 ** case["ye"] * r
    close(sm.predict_values(Q), f(Q), 1e-9, tol, "trend data reproduced")
    return True, ["deg%d" % case["deg"]]
