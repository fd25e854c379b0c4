"""P03: kriging predictions/variances vs an independent dense universal-kriging reference."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref
from smt.surrogate_models import KRG, KPLS, KPLSK

RULE = "trained model whose correlation matrix has condition number below 1e10, judged at >= 1 query point"


def train(model, case, rng):
    n, d = case["n"], case["d"]
    U = gen.unit_design(rng, case["design"], n, d)
    xl = gen.box(rng, case["box"], d)
    X = gen.scale(U, xl)
    Y = gen.outputs(rng, U, 1, case["fam"]) * 10.0 ** case["ye"] + case["yo"] * 10.0 ** case["ye"]
    opts = dict(gen.QUIET, corr=case["corr"], poly=case["poly"])
    Xs, ys = ref.standardize(X, Y)[:2]
    F = ref.basis(case["poly"], Xs)
    if np.linalg.cond(F) > 1e5:
        raise Discard("trend not determined by the design")
    if np.abs(ys - F @ np.linalg.lstsq(F, ys, rcond=None)[0]).max() < 1e-9:
        raise Discard("trend explains the data: degenerate process")
    return U, xl, X, Y, opts


def npoly(poly, d):
    return {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[poly]


BASE = dict(n=st.integers(4, 16), d=st.integers(1, 4), design=gen.DESIGNS, box=st.sampled_from(gen.FAR_KINDS),
            fam=gen.FAMS, ye=st.integers(-4, 4), yo=st.sampled_from([0, 1, -3]))


def judge_model(sm, g, X, xq, noise_free):
    """g: reference GP at the hyperparameters sm reports."""
    if not (g.cond < 1e10 and g.condM < 1e10):
        raise Discard("ill-conditioned")
    eps = 1e-13 * g.cond * max(1, g.condM ** 0.5)
    tol = max(1e-8, 10 * eps)
    sy = g.ys.max()
    m = sm.predict_values(xq)
    gm = g.mean(xq)
    mag = np.abs(g.gamma).sum() * sy * 1e-14 + sy * tol
    close(m, gm, 1e-9, mag + 1e-12 * np.abs(g.ym).max(), "predicted mean")
    v = sm.predict_variances(xq)
    need(np.all(v >= 0), lambda: "negative variance %g" % v.min())
    gv = g.var(xq)
    rs = g.s2 * g.ys ** 2
    close(v / rs, np.maximum(gv, 0) / rs, 1e-6, max(1e-8, 100 * eps), "predicted variance / process variance")
    if noise_free:
        vt = sm.predict_variances(X) / rs
        close(vt, np.zeros_like(vt), 0, max(1e-9, 100 * eps), "variance at training points")


def informative(Y):
    if np.any(np.std(Y, axis=0) < 1e-9 * (np.abs(Y).max() + 1e-300)):
        raise Discard("constant")


@sub(gen.cases(corr=st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"]),
               poly=st.sampled_from(["constant", "linear", "quadratic"]), noise=st.sampled_from([0.0, 0.0, 1e-3, 0.1]),
               theta0=st.sampled_from([1e-2, 0.3, 2.0]), opt=st.sampled_from(["Cobyla", "TNC"]),
               nugget=st.sampled_from([0, 0, 1e-8, 1e-3]), **BASE),
     quick=1200, rule=RULE)
def krg(case):
    rng = rng_of(case)
    d = case["d"]
    case = dict(case, n=max(case["n"], npoly(case["poly"], d) + 2))
    U, xl, X, Y, opts = train(KRG, case, rng)
    informative(Y)
    opts.update(theta0=[case["theta0"]] * d, noise0=[case["noise"]], hyper_opt=case["opt"])
    nug = 100 * np.finfo(float).eps
    if case["nugget"]:
        opts["nugget"] = nug = case["nugget"]
    sm = KRG(**opts)
    sm.set_training_values(X, Y)
    sm.train()
    g = ref.GP(X, Y, case["corr"], case["poly"], sm.optimal_theta, nug + case["noise"])
    judge_model(sm, g, X, gen.scale(gen.queries(rng, 8, d, U), xl), not case["noise"] and not case["nugget"])
    return True, [case["corr"], case["poly"], "noise" if case["noise"] else "nonoise"]


@sub(gen.cases(corr=st.sampled_from(["squar_exp", "abs_exp"]), model=st.sampled_from(["KPLS", "KPLSK"]),
               h=st.integers(1, 3), poly=st.sampled_from(["constant", "linear", "quadratic"]),
               noise=st.sampled_from([0.0, 0.0, 1e-2]),
               **dict(BASE, d=st.integers(1, 6), n=st.integers(6, 18))),
     quick=600, rule=RULE)
def kpls(case):
    from sklearn.cross_decomposition import PLSRegression
    rng = rng_of(case)
    d = case["d"]
    case = dict(case, n=max(case["n"], npoly(case["poly"], d) + 2), h=min(case["h"], d))
    if case["model"] == "KPLSK":
        case["corr"] = "squar_exp"
    U, xl, X, Y, opts = train(None, case, rng)
    informative(Y)
    h = case["h"]
    import models
    if not models.pls_ok(X, Y, h):
        raise Discard("fewer PLS components than requested")
    opts.update(n_comp=h, noise0=[case["noise"]])
    sm = (KPLS if case["model"] == "KPLS" else KPLSK)(**opts)
    sm.set_training_values(X, Y)
    sm.train()
    W = PLSRegression(h).fit(X.copy(), Y.copy()).x_rotations_ if case["model"] == "KPLS" else None
    if W is not None:
        need(np.size(sm.optimal_theta) == h, "one hyperparameter per component expected")
    else:
        need(np.size(sm.optimal_theta) == d, "one hyperparameter per input expected")
    g = ref.GP(X, Y, case["corr"], case["poly"], sm.optimal_theta, 100 * np.finfo(float).eps + case["noise"], W=W)
    judge_model(sm, g, X, gen.scale(gen.queries(rng, 8, d, U), xl), not case["noise"])
    return True, [case["model"], case["corr"], case["poly"], "h%d" % h]


@sub(gen.cases(corr=st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"]),
               poly=st.sampled_from(["constant", "linear"]), ny=st.integers(2, 3), **BASE),
     quick=200, rule=RULE)
def multi_output(case):
    rng = rng_of(case)
    d, ny = case["d"], case["ny"]
    case = dict(case, n=max(case["n"], npoly(case["poly"], d) + 2))
    U, xl, X, _, opts = train(None, case, rng)
    Y = gen.outputs(rng, U, ny, case["fam"]) * 10.0 ** rng.randint(-2, 3, ny) * 10.0 ** case["ye"] + case["yo"]
    informative(Y)
    sm = KRG(**opts)
    sm.set_training_values(X, Y)
    sm.train()
    g = ref.GP(X, Y, case["corr"], case["poly"], sm.optimal_theta, 100 * np.finfo(float).eps)
    judge_model(sm, g, X, gen.scale(gen.queries(rng, 6, d, U), xl), True)
    return True, ["ny%d" % ny]


@sub(gen.cases(kind=st.sampled_from(["het_given", "het_one", "hom_estimated", "het_estimated"]),
               corr=st.sampled_from(["squar_exp", "abs_exp", "matern52"]), poly=st.sampled_from(["constant", "linear"]),
               model=st.sampled_from(["KRG", "KRG", "KPLS"]), noise=st.sampled_from([1e-4, 1e-2, 0.5]), reps=st.integers(1, 4), **BASE),
     quick=500, rule=RULE)
def noisy(case):
    rng = rng_of(case)
    d = case["d"]
    case = dict(case, n=max(case["n"], npoly(case["poly"], d) + 3))
    if case["model"] == "KPLS" and (case["kind"] == "het_estimated" or case["corr"] == "matern52"):
        case["model"] = "KRG"
    U, xl, X, Y, opts = train(None, case, rng)
    informative(Y)
    n = len(X)
    kind = case["kind"]
    nug = 100 * np.finfo(float).eps
    if kind == "het_estimated":
        idx = np.concatenate([np.arange(n), rng.randint(0, n, case["reps"] * n)])
        U, X, Y = U[idx], X[idx], Y[idx] + np.sqrt(case["noise"]) * np.std(Y) * rng.standard_normal((len(idx), 1))
        opts.update(eval_noise=True, use_het_noise=True)
    elif kind == "het_given":
        nz = case["noise"] * 10 ** rng.uniform(-2, 0, n)
        opts.update(use_het_noise=True, noise0=nz)
    elif kind == "het_one":
        nz = case["noise"] * np.ones(n)
        opts.update(use_het_noise=True, noise0=[case["noise"]])
    else:
        Y = Y + np.sqrt(case["noise"]) * np.std(Y) * rng.standard_normal(Y.shape)
        opts.update(eval_noise=True, noise0=[case["noise"]])
    if case["model"] == "KPLS":
        sm = KPLS(n_comp=1, **opts)
    else:
        sm = KRG(**opts)
    sm.set_training_values(X, Y)
    sm.train()
    W = None
    if case["model"] == "KPLS":
        from sklearn.cross_decomposition import PLSRegression
        W = PLSRegression(1).fit(X.copy(), Y.copy()).x_rotations_
    std = True
    Xr, Yr = X, Y
    if kind == "hom_estimated":
        nz = float(np.squeeze(sm.optimal_noise))
        need(1e-14 * 0.99 <= nz <= 1e10 * 1.01, "estimated noise %g outside its bounds" % nz)
        full = nz
    elif kind == "het_estimated":
        Xs, ys, xm, xs, ym, ysd = ref.standardize(X, Y)
        Xu, inv, cnt = np.unique(Xs, return_inverse=True, return_counts=True, axis=0)
        inv = inv.ravel()
        yu = np.array([ys[inv == i].mean() for i in range(len(Xu))])
        full = np.array([(ys[inv == i].var(ddof=1) if cnt[i] > 1 else 0.0) / cnt[i] for i in range(len(Xu))])
        if len(Xu) != n:
            raise Discard("standardisation split replicates")
        std = (Xu, yu.reshape(-1, 1), xm, xs, ym, ysd)
        Xr, Yr = Xu, yu
    else:
        full = nug + nz
    g = ref.GP(Xr, Yr, case["corr"], case["poly"], sm.optimal_theta, full, W=W, std=std)
    judge_model(sm, g, X, gen.scale(gen.queries(rng, 6, d, U), xl), False)
    return True, [kind, case["model"]]
