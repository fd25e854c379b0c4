"""P05: Kriging likelihood value vs an independent formula, gradient/Hessian vs finite differences, search result vs bounds and start."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref
from smt.surrogate_models import KRG, KPLS, KPLSK, GEKPLS
from smt.applications import MFK

RULE = "trained model with a condition number below 1e9, judged at random hyperparameters or at the reported ones"
EPS = 100 * np.finfo(float).eps


def npoly(poly, d):
    return {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[poly]


def setup(case):
    rng = rng_of(case)
    d = case["d"]
    n = max(case["n"], npoly(case["poly"], d) + 3)
    U = gen.unit_design(rng, case["design"], n, d)
    xl = gen.box(rng, case["box"], d)
    X = gen.scale(U, xl)
    ny = case.get("ny", 1)
    Y = gen.outputs(rng, U, ny, case["fam"]) * 10.0 ** case["ye"]
    if np.any(np.std(Y, axis=0) < 1e-9 * (np.abs(Y).max() + 1e-300)):
        raise Discard("constant")
    Xs, ys = ref.standardize(X, Y)[:2]
    F = ref.basis(case["poly"], Xs)
    if np.linalg.cond(F) > 1e5 or np.any(np.abs(ys - F @ np.linalg.lstsq(F, ys, rcond=None)[0]).max(0) < 1e-6):
        raise Discard("trend degenerate")
    return rng, U, xl, X, Y


def lik(sm, th):
    sm.best_iteration_fail, sm._thetaMemory = None, None
    return sm._reduced_likelihood_function(np.array(th, float))[0]


def richardson(f, th, i, h):
    def cd(hh):
        a, b = th.copy(), th.copy()
        a[i] += hh
        b[i] -= hh
        return (np.asarray(f(a)) - np.asarray(f(b))) / (a[i] - b[i])
    a, b, c = cd(h), cd(h / 2), cd(h / 4)
    r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
    return r2, np.abs(r2 - r1)


def check_grad(sm, th, cond, tag=""):
    f0 = lik(sm, th)
    need(np.isfinite(f0), "likelihood not finite")
    g = np.asarray(sm._reduced_likelihood_gradient(np.array(th))[0]).ravel()
    need(g.shape == th.shape, "gradient shape %s" % (g.shape,))
    noise = 1e-15 * cond * max(1.0, abs(f0)) + 1e-14 * abs(f0) + 1e-13
    for i in range(len(th)):
        h = 1e-3 * abs(th[i])
        fd, err = richardson(lambda t: lik(sm, t), th, i, h)
        close(g[i], fd, 2e-5, 3 * err + 10 * noise / h + 1e-9 * np.abs(g).max(), "likelihood gradient %s[%d]" % (tag, i))
    return g


BASE = dict(n=st.integers(5, 13), d=st.integers(1, 4), design=gen.DESIGNS, box=st.sampled_from(["unit", "wide", "shift"]),
            fam=st.sampled_from(["smooth", "rough", "quad"]), ye=st.integers(-3, 3),
            poly=st.sampled_from(["constant", "linear", "quadratic"]))


def refgp(sm, X, Y, case, theta, nug):
    kind = case["model"]
    W = sm.coeff_pls if kind == "KPLS" else None
    return ref.GP(X, Y, sm.options["corr"], case["poly"], theta, nug, W=W)


def mk_model(case, X, Y, d):
    kind = case["model"]
    h = min(case["h"], d)
    if kind in ("KPLS", "KPLSK"):
        import models
        if not models.pls_ok(X, Y, h):
            raise Discard("fewer PLS components than requested")
    o = dict(gen.QUIET, poly=case["poly"], hyper_opt=case.get("opt", "TNC"), theta_bounds=case.get("bounds", [1e-6, 20.0]))
    th0 = case.get("theta0", 0.1)
    if case.get("eval"):
        o.update(eval_noise=True, noise0=[case.get("noise0", 1e-3)])
        if "nb" in case:
            o["noise_bounds"] = case["nb"]
    elif case.get("noise0"):
        o["noise0"] = [case["noise0"]]
    if kind == "KRG":
        return KRG(corr=case["corr"], theta0=[th0] * d, **o)
    if kind == "KPLS":
        return KPLS(corr=case["corr"] if case["corr"] in ("squar_exp", "abs_exp") else "squar_exp", n_comp=h, theta0=[th0] * h, **o)
    return KPLSK(n_comp=h, theta0=[th0] * h, **o)


CORR = st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"])


@sub(gen.cases(model=st.sampled_from(["KRG", "KRG", "KPLS", "KPLSK"]), corr=CORR, h=st.integers(1, 3), ny=st.sampled_from([1, 1, 2, 3]),
               eval=st.booleans(), noise0=st.sampled_from([0.0, 1e-6, 1e-2]), **BASE), quick=480, rule=RULE)
def value_and_gradient(case):
    if case["model"] != "KRG":
        case = dict(case, ny=1)
    rng, U, xl, X, Y = setup(case)
    d = case["d"]
    sm = mk_model(case, X, Y, d)
    sm.set_training_values(X, Y)
    sm.train()
    nth = sm.D.shape[1]
    for _ in range(2):
        th = 10.0 ** rng.uniform(-1.5, 0.7, nth)
        nug = EPS + (case["noise0"] or 0.0)
        full = th
        if case["eval"]:
            nug = 10.0 ** rng.uniform(-5, 0)
            full = np.append(th, nug)
        g = refgp(sm, X, Y, case, th, nug)
        if not (g.cond < 1e9 and g.condM < 1e9):
            raise Discard("ill-conditioned")
        tol = 1e-13 * g.cond + 1e-9
        close(lik(sm, full), g.loglik, tol, tol, "likelihood value")
        check_grad(sm, full, g.cond)
    return True, [case["model"], case["poly"], "ny%d" % case["ny"], "eval" if case["eval"] else "fixed"]


@sub(gen.cases(model=st.sampled_from(["KRG", "KRG", "KPLS", "KPLSK"]), corr=CORR, h=st.integers(1, 3), **BASE), quick=320, rule=RULE)
def hessian(case):
    rng, U, xl, X, Y = setup(case)
    d = case["d"]
    sm = mk_model(case, X, Y, d)
    sm.set_training_values(X, Y)
    sm.train()
    nth = sm.D.shape[1]
    th = 10.0 ** rng.uniform(-1.3, 0.5, nth)
    g = refgp(sm, X, Y, case, th, EPS)
    if not (g.cond < 1e7 and g.condM < 1e7):
        raise Discard("ill-conditioned")
    H, ij, _ = sm._reduced_likelihood_hessian(th.copy())
    H = np.asarray(H).ravel()
    pairs = [tuple(p) for p in np.asarray(ij)]
    need(sorted(pairs) == sorted((a, b) for a in range(nth) for b in range(a, nth)), "index pairs")

    def gr(t):
        return np.asarray(sm._reduced_likelihood_gradient(np.array(t))[0]).ravel()
    for a in range(nth):
        fd, err = richardson(gr, th, a, 1e-3 * th[a])
        for b in range(a, nth):
            v = H[pairs.index((a, b))]
            close(v, fd[b], 1e-4, 3 * err[b] + 1e-6 * np.abs(H).max() + 1e-14 * g.cond / th[a] * np.abs(fd).max(), "Hessian[%d,%d]" % (a, b))
    return True, [case["model"], sm.options["corr"], case["poly"]]


@sub(gen.cases(rho=st.sampled_from(["constant", "linear"]), corr=CORR, m=st.integers(4, 9), **dict(BASE, d=st.integers(1, 3), poly=st.sampled_from(["constant", "linear"]))),
     quick=160, rule=RULE)
def multi_fidelity_gradient(case):
    """likelihood gradient inside every level's training; the discrepancy level has extra regressors"""
    case = dict(case, n=max(case["n"], 2 * npoly("linear", case["d"]) + 2))
    rng, U, xl, X, Y = setup(case)
    d = case["d"]
    U2 = np.vstack([U, rng.rand(case["m"], d)])
    Xlo = gen.scale(U2, xl)
    ylo = np.sin(3 * U2.sum(1)) + 0.3 * U2[:, 0] ** 2
    sm = MFK(corr=case["corr"], poly=case["poly"], rho_regr=case["rho"], theta0=[0.1] * d, **gen.QUIET)
    sm.set_training_values(Xlo, ylo.reshape(-1, 1), name=0)
    sm.set_training_values(X, Y)
    orig = sm._optimize_hyperparam
    seen = []

    def wrapped(D):
        res = orig(D)
        th = 10.0 ** np.random.RandomState(case["seed"] % 99991).uniform(-1, 0.6, sm.D.shape[1])
        v, par = sm._reduced_likelihood_function(th.copy())
        if np.isfinite(v):
            c = np.linalg.cond(par["C"]) ** 2
            if c < 1e8 and np.abs(par["sigma2"]).min() > 1e-14 * sm.y_std ** 2:
                seen.append(check_grad(sm, th, c, "level %d " % len(seen)))
        return res
    sm._optimize_hyperparam = wrapped
    sm.train()
    return len(seen) > 0, ["levels%d" % len(seen)]


@sub(gen.cases(model=st.sampled_from(["KRG", "KRG", "KPLS", "KPLSK"]), corr=CORR, h=st.integers(1, 3), opt=st.sampled_from(["Cobyla", "TNC"]),
               ny=st.sampled_from([1, 1, 2]), theta0=st.sampled_from([2e-3, 0.05, 0.5, 3.0]),
               bounds=st.sampled_from([[1e-6, 20.0], [1e-3, 5.0], [2e-3, 3.0], [1e-4, 10.0]]), eval=st.booleans(),
               noise0=st.sampled_from([0.0, 1e-5, 1e-2]), nb=st.sampled_from([[100 * 2.220446049250313e-16, 1e10], [1e-6, 1e-1]]), **BASE),
     quick=480, rule=RULE)
def search(case):
    if case["model"] != "KRG":
        case = dict(case, ny=1)
    rng, U, xl, X, Y = setup(case)
    d = case["d"]
    sm = mk_model(case, X, Y, d)
    sm.set_training_values(X, Y)
    sm.train()
    th = np.asarray(sm.optimal_theta, float).ravel()
    lo, hi = case["bounds"]
    need(np.all(th >= lo * (1 - 1e-9)) and np.all(th <= hi * (1 + 1e-9)), lambda: "theta %s outside %s" % (th, [lo, hi]))
    nug = EPS + case["noise0"]
    noise = None
    if case["eval"]:
        noise = float(np.asarray(sm.optimal_noise).ravel()[0])
        need(case["nb"][0] * (1 - 1e-9) <= noise <= case["nb"][1] * (1 + 1e-9), "noise %g outside %s" % (noise, case["nb"]))
        nug = noise
    g = refgp(sm, X, Y, case, th, nug)
    if not (g.cond < 1e10 and g.condM < 1e9):
        raise Discard("ill-conditioned")
    tol = 1e-13 * g.cond + 1e-9
    rep = float(sm.optimal_rlf_value)
    close(rep, g.loglik, tol, tol, "reported likelihood vs likelihood at the reported hyperparameters")
    full = th if noise is None else np.append(th, noise)
    close(rep, lik(sm, full), 1e-9, 1e-9, "reported likelihood vs likelihood function")
    close(np.asarray(sm.optimal_par["sigma2"]).ravel(), g.s2 * g.ys ** 2, tol, 0, "reported variance")
    if case["model"] != "KPLSK" and np.all(sm.D.shape[1] == len(th)):
        start = np.full(len(th), case["theta0"])
        if not lo <= case["theta0"] <= hi:
            raise Discard("start outside bounds")
        n0 = EPS + case["noise0"]
        if case["eval"]:
            n0 = case["noise0"] if case["noise0"] >= case["nb"][0] else case["nb"][0]
            n0 = min(n0, case["nb"][1])
        g0 = refgp(sm, X, Y, case, start, n0)
        if g0.cond < 1e10:
            need(rep >= g0.loglik - max(1e-6, 1e-13 * g0.cond) * max(1, abs(g0.loglik)), lambda: "likelihood %.10g below the initial guess's %.10g" % (rep, g0.loglik))
    return True, [case["model"], case["opt"], case["poly"], "eval" if case["eval"] else "fixed"]


@sub(gen.cases(model=st.sampled_from(["KRG", "KRG", "KPLS", "KPLSK"]), corr=CORR, poly=st.sampled_from(["constant", "linear", "quadratic"]),
               d=st.integers(1, 2), n=st.integers(25, 90), nug=st.sampled_from([0.0, 1e-20, 1e-17, 2.2e-14]), t0=st.floats(-6, -2), eval=st.booleans(),
               opt=st.sampled_from(["TNC", "TNC", "Cobyla"]), noisy=st.booleans(), dup=st.sampled_from([0.0, 0.0, 1e-9, 1e-6])), quick=120,
     rule="the search met hyperparameters at which the correlation matrix cannot be factorised")
def singular_search(case):
    """matrices that cannot be factorised may be part of the search: it must end with a model or with the documented refusal"""
    rng = rng_of(case)
    d, n = case["d"], case["n"]
    X = rng.rand(n, d)
    if case["dup"]:
        X[1::5] = X[::5][:len(X[1::5])] + case["dup"]
    y = np.sin(3 * X.sum(1)) + (0.1 * rng.randn(n) if case["noisy"] else 0)
    o = dict(gen.QUIET, nugget=case["nug"], poly=case["poly"], hyper_opt=case["opt"], eval_noise=case["eval"], theta0=[10.0 ** case["t0"]])
    cl = dict(KRG=KRG, KPLS=KPLS, KPLSK=KPLSK)[case["model"]]
    if case["model"] == "KRG":
        o["corr"] = case["corr"]
    elif case["model"] == "KPLS":
        o["corr"] = case["corr"] if case["corr"].endswith("exp") else "squar_exp"
    sm = cl(**o)
    sm.set_training_values(X, y[:, None])
    met = []
    orig = sm._reduced_likelihood_function

    def watch(*a, **k):
        v = orig(*a, **k)
        met.append(not np.isfinite(v[0]))
        return v
    sm._reduced_likelihood_function = watch
    try:
        sm.train()
    except ValueError as e:
        need("attempts to train" in str(e), lambda: "training stopped with %r" % e)
        return any(met), ["refused"]
    except Discard:
        raise
    except Exception as e:
        raise Violation("training stopped with %r" % e)
    th = np.asarray(sm.optimal_theta, float).ravel()
    need(np.all(th >= 1e-6 * (1 - 1e-9)) and np.all(th <= 20 * (1 + 1e-9)), lambda: "theta %s outside its bounds" % th)
    need(np.isfinite(sm.optimal_rlf_value), "reported likelihood is not finite")
    need(np.isfinite(sm.predict_values(rng.rand(5, d))).all(), "the trained model predicts non-finite values")
    return any(met), ["trained", case["opt"], case["model"]]
