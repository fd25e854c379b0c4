"""P01: interpolating models predicted at their own training points."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref, models

RULE = "trained model on distinct, separated points, judged at every training point (order shuffled)"


def separated(D, lim=0.02):
    if D.n > 1:
        d2 = ((D.U[:, None] - D.U[None]) ** 2).sum(-1) + np.eye(D.n) * 9
        if np.sqrt(d2.min()) < lim:
            raise Discard("points too close")


def case_data(case, need_n):
    s = case["spec"]
    d = min(case["d"], models.max_dim(s["kind"]))
    if s["kind"] == "GEKPLS":
        d = max(d, 2)
    ny = 1 if models.single_output(s["kind"]) else case["ny"]
    D = models.Data(case, max(case["n"], models.min_points(s, d)), d, ny)
    separated(D)
    if np.any(np.std(D.Y, axis=0) < 1e-9 * np.abs(D.Y).max()):
        raise Discard("constant")
    return s, D


def interp(sm, X, Y, rng, tol):
    p = rng.permutation(len(X))
    close(sm.predict_values(X[p].copy()), Y[p], 1e-10, tol, "prediction at training points")


def gp_tol(sm, ysd, lvl=None):
    """Round-off: nugget and solve errors are proportional to the coefficients of the correlation expansion."""
    pars = [sm.optimal_par] if lvl is None else sm.optimal_par
    g = max(float(np.abs(p["gamma"]).sum()) for p in pars)
    if not g < 1e9:
        raise Discard("ill-conditioned")
    return ysd * max(1e-9, 2e-12 * g)


def mk(kinds, **kw):
    return gen.cases(**{**dict(spec=models.any_spec(kinds), n=st.integers(4, 16), d=st.integers(1, 4), ny=st.integers(1, 3),
                     design=gen.DESIGNS, box=st.sampled_from(gen.FAR_KINDS), fam=gen.FAMS, ye=st.integers(-3, 4)), **kw})


@sub(mk(["KRG", "KPLS", "KPLSK", "GEKPLS"]), quick=1600, rule=RULE)
def kriging(case):
    s, D = case_data(case, 0)
    sm = models.trained(s, case, D)
    interp(sm, D.X, D.Y, D.rng, gp_tol(sm, D.Y.std(0, ddof=1).max()))
    return True, [s["kind"], s["poly"], "d%d" % D.d, D.fam]


@sub(mk(["MFK", "MFKPLS", "MFKPLSK"]), quick=500, rule=RULE)
def multi_fidelity(case):
    s, D = case_data(case, 0)
    sm = models.trained(s, case, D)
    lo = D.Ylo.std(ddof=1)
    interp(sm, D.X, D.Y, D.rng, 3 * gp_tol(sm, lo + D.Y.std(ddof=1), -1))
    return True, [s["kind"], s["poly"], s["rho"]]


@sub(mk(["MFK", "MFKPLS", "MFKPLSK"], lev=st.integers(3, 4), th=st.sampled_from([None, 1.0, 3.0, 10.0]), fam=st.sampled_from(["smooth", "rough", "quad"]), n=st.integers(5, 9), design=st.just("spread")), quick=200, rule=RULE + "; three or four levels")
def more_levels(case):
    s, D = case_data(case, 0)
    models.usable(s, D)
    if case["th"]:                   # short correlations keep the lowest level well conditioned
        s = dict(s, pin=True, theta0=case["th"])
    sm = models.build(s, D.d, D.xl)
    r = rng_of(case, 9)
    # each level holds the points of the one above
    U, Y, sd = D.U, D.Y, D.Y.std(ddof=1)
    sm.set_training_values(D.X, D.Y)
    for lvl in range(case["lev"] - 2, -1, -1):
        W = np.vstack([U, r.rand(len(D.U) // 2 + 2, D.d)])
        Y = np.vstack([Y[:, :1], D.f(W[len(U):])[:, :1]]) * r.uniform(0.5, 1.5) + D.ys * r.uniform(-1, 1) * np.sin(4 * (W @ r.uniform(-1, 1, D.d)))[:, None]
        U = W
        sd += Y.std(ddof=1)
        sm.set_training_values(gen.scale(U, D.xl), Y, name=lvl)
    models.train(sm, s)
    interp(sm, D.X, D.Y, D.rng, 3 * gp_tol(sm, sd, -1))
    return True, [s["kind"], "levels%d" % case["lev"]]


@sub(mk(["IDW"]), quick=600, rule=RULE)
def idw(case):
    s, D = case_data(case, 0)
    sm = models.trained(s, case, D)
    interp(sm, D.X, D.Y, D.rng, 0.0)
    return True, ["p%g" % s["p"]]


@sub(mk(["RBF"], reg=st.sampled_from([1e-10, 1e-14])), quick=700, rule=RULE)
def rbf(case):
    s, D = case_data(case, 0)
    models.usable(s, D)
    w = D.xl[:, 1] - D.xl[:, 0]
    d0 = s["d0"] * w if s["aniso"] else s["d0"] * np.ones(D.d) * w.max()
    A = np.exp(-(((D.X[:, None] - D.X[None]) / d0) ** 2).sum(-1))
    B = A + case["reg"] * np.eye(D.n)
    P = {-1: np.zeros((D.n, 0)), 0: np.ones((D.n, 1)), 1: ref.basis("linear", D.X)}[s["deg"]]
    k = P.shape[1]
    M = np.block([[B, P], [P.T, np.zeros((k, k))]])
    cM = np.linalg.cond(M / np.maximum(np.abs(M).max(0), 1e-300))
    if not cM < 1e11:
        raise Discard("ill-conditioned")
    co = np.linalg.solve(M, np.vstack([D.Y, np.zeros((k, D.ny))]))[:D.n]
    sm = models.build(s, D.d, D.xl, reg=case["reg"])
    sm.set_training_values(D.X, D.Y)
    sm.train()
    tol = 3 * case["reg"] * np.abs(co).max() + 1e-14 * cM * np.abs(D.Y).max() + 1e-12 * np.abs(co).sum()
    interp(sm, D.X, D.Y, D.rng, tol + 1e-10 * np.abs(D.Y).max())
    return True, ["deg%d" % s["deg"]]
