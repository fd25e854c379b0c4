"""P32: marginal Gaussian processes on random data with a low-dimensional structure: dense projected-Kriging reference, null-space and coordinate relations, finite differences over the hyperparameters for the extra variance, the likelihood gradient and its Hessian"""
import numpy as np
from hypothesis import strategies as st
import gen, ref
from core import sub, need, close, Discard, rng_of
from smt.surrogate_models import MGP

RULE = "model trained with a correlation matrix of condition number below 1e9 and a projection of full rank"
BASE = dict(d=st.sampled_from([2, 3, 4, 5, 1]), h=st.sampled_from([1, 1, 2, 3]), n=st.integers(8, 22), poly=st.sampled_from(["constant", "constant", "linear", "quadratic"]), mean=st.sampled_from([0.0, 0.0, 0.3, -1.0, 2.0]),
            var=st.sampled_from([1.25, 0.2, 5.0]), nug=st.sampled_from([1e-7, 1e-5, 1e-3]), theta0=st.sampled_from(["one", "vector", "equal"]), box=st.sampled_from(["unit", "wide", "shift", "tiny", "mixed"]), ye=st.sampled_from([0, -3, 4]),
            bounds=st.sampled_from([None, None, [1e-4, 5.0], [1e-6, 1.0]]), fam=st.sampled_from(["ridge", "ridge", "smooth", "rough"]))
NP = {"constant": lambda d: 1, "linear": lambda d: d + 1, "quadratic": lambda d: (d + 1) * (d + 2) // 2}


def build(case):
    rng = rng_of(case, 1)
    d, poly = case["d"], case["poly"]
    h = min(case["h"], d - 1 if case.get("k") and d > 1 else d)   # coordinates: fewer components than inputs
    n = max(case["n"], NP[poly](d) + 4)
    U = gen.unit_design(rng, "spread", n, d)
    xl = gen.box(rng, case["box"], d)
    X = gen.scale(U, xl)
    if case["fam"] == "ridge":
        W = rng.uniform(-1.5, 1.5, (d, h))
        Z = U @ W
        y = np.sin(2 * Z).sum(1) + 0.3 * (Z ** 2).sum(1)
    else:
        y = gen.outputs(rng, U, 1, case["fam"])[:, 0]
    y = y * 10.0 ** case["ye"]
    Xs, ys = ref.standardize(X, y[:, None])[:2]
    F = ref.basis(poly, Xs)
    if np.linalg.cond(F) > 1e5 or np.abs(ys - F @ np.linalg.lstsq(F, ys, rcond=None)[0]).max() < 1e-5:
        raise Discard("trend degenerate")
    t0 = {"one": [0.3], "vector": list(rng.uniform(-0.8, 0.8, d * h).round(3)), "equal": [0.4] * (d * h)}[case["theta0"]]
    kw = {}
    if case["bounds"]:
        kw["theta_bounds"] = list(case["bounds"])
    sm = MGP(print_global=False, n_comp=h, poly=poly, nugget=case["nug"], theta0=t0, prior={"mean": [case["mean"]], "var": case["var"]}, **kw)
    sm.set_training_values(X, y if case["seed"] % 2 else y[:, None])
    return sm, rng, U, xl, X, y, h


def trained(case):
    sm, rng, U, xl, X, y, h = build(case)
    sm.train()
    d = case["d"]
    th = np.asarray(sm.optimal_theta, float).ravel()
    need(th.shape == (d * h,), "%d hyperparameters for %d components of %d inputs" % (th.size, h, d))
    A = th.reshape(h, d).T
    gp = ref.GP(X, y, "act_exp", case["poly"], A, case["nug"])
    if not gp.cond < 1e9 or not gp.condM < 1e9:
        raise Discard("ill-conditioned")
    return sm, rng, U, xl, X, y, h, A, gp


def queries(rng, U, xl):
    d = U.shape[1]
    Q = rng.uniform(-0.2, 1.2, (6, d))
    Q[0] = U[0]
    Q[1] = U[1] + 1e-3
    return gen.scale(Q, xl)


def levels(gp):
    """rounding levels of the mean and of the variance"""
    c = np.abs(gp.gamma).max() + np.abs(gp.beta).max()
    return 1e-13 * gp.cond * c * gp.ys[0] + 1e-12 * abs(gp.ym[0]), 1e-13 * max(gp.cond, gp.condM) * gp.s2[0] * gp.ys[0] ** 2


@sub(gen.cases(**BASE), quick=200, thorough=8000, rule=RULE)
def moments(case):
    sm, rng, U, xl, X, y, h, A, gp = trained(case)
    b = sm.options["theta_bounds"]
    need(np.abs(A).max() <= b[1] * (1 + 1e-9), lambda: "hyperparameters %s outside +-%g" % (A, b[1]))
    Q = queries(rng, U, xl)
    em, ev = levels(gp)
    m = np.asarray(sm.predict_values(Q)).ravel()
    close(m, gp.mean(Q).ravel(), 1e-7, em, "MGP mean against Kriging of the projected data")
    full, plain = sm.predict_variances(Q, both=True)
    one = sm.predict_variances(Q)
    need(np.asarray(full).shape == (len(Q),) == np.asarray(plain).shape and np.array_equal(full, one), "variance differs with and without the plain one")
    want = gp.var(Q).ravel()
    close(plain, np.maximum(want, 0), 1e-6, ev, "plain MGP variance against Kriging of the projected data")
    need((plain >= 0).all() and (full >= 0).all() and np.isfinite(full).all(), lambda: "negative or infinite variance %s %s" % (plain, full))
    # the prediction depends on the query only through the projection
    labels = ["h%d" % h, case["poly"], case["fam"]]
    B = A / gp.xs[:, None]
    null = np.linalg.svd(B.T)[2][np.linalg.matrix_rank(B, 1e-12):]
    if case["poly"] == "constant" and len(null):
        w = np.linalg.norm(xl[:, 1] - xl[:, 0])
        step = null.T @ rng.uniform(-1, 1, (len(null), len(Q)))
        Q2 = Q + 2.0 * w * step.T
        # moving by rounding of the projection
        eps = 1e-13 * np.abs(Q2 - gp.xm).max(0) @ np.abs(B)
        slope = np.abs(gp.gamma).sum() * gp.ys[0]
        close(np.asarray(sm.predict_values(Q2)).ravel(), m, 1e-7, em + 1e2 * eps.max() * slope, "MGP mean after moving along inactive directions")
        p2 = sm.predict_variances(Q2, both=True)[1]
        close(p2, plain, 1e-6, ev + 1e2 * eps.max() * gp.cond * gp.s2[0] * gp.ys[0] ** 2, "plain MGP variance after moving along inactive directions")
        labels.append("null")
    return True, labels


@sub(gen.cases(**dict(BASE, k=st.integers(1, 6))), quick=150, thorough=6000, rule=RULE + ", fewer components than inputs")
def coordinates(case):
    sm, rng, U, xl, X, y, h, A, gp = trained(case)
    d = case["d"]
    if h >= d:
        raise Discard("no reduction")
    B = A / gp.xs[:, None]
    C = B / np.linalg.norm(B)
    if np.linalg.cond(C) > 1e4:
        raise Discard("rank-deficient projection")
    kc = np.linalg.cond(C)
    Q = queries(rng, U, xl)[:case["k"]]
    keep = Q.copy()
    u = np.asarray(sm.get_u_from_x(Q))
    need(u.shape == (len(Q), h), "projected coordinates of shape %s" % (u.shape,))
    big = np.abs(Q).max()
    close(u, Q @ C, 1e-9, 1e-12 * big, "projected coordinates against the normalised projection")
    x = np.asarray(sm.get_x_from_u(u))
    need(x.shape == Q.shape, "inputs of shape %s from projected coordinates" % (x.shape,))
    close(np.asarray(sm.get_u_from_x(x)), u, 1e-8, 1e-11 * kc * big, "projection of the inputs reconstructed from projected coordinates")
    # reconstruction: the point of the subspace itself
    P = C @ np.linalg.pinv(C)
    close(x, Q @ P, 1e-7, 1e-11 * kc ** 2 * big, "reconstructed inputs against the orthogonal projection on the subspace")
    em, ev = levels(gp)
    # rounding of the projection, amplified by the kernel
    eps = 1e-14 * kc ** 2 * (np.abs(x).max() + np.abs(gp.xm).max()) * np.linalg.norm(B)
    tm = em + 1e2 * eps * np.abs(gp.gamma).sum() * gp.ys[0]
    tv = ev + 1e2 * eps * gp.cond * gp.s2[0] * gp.ys[0] ** 2
    a, b = np.asarray(sm.predict_values(u)).ravel(), np.asarray(sm.predict_values(x)).ravel()
    close(a, b, 1e-6, tm, "MGP mean at projected coordinates against the corresponding inputs")
    (fu, pu), (fx, px) = sm.predict_variances(u, both=True), sm.predict_variances(x, both=True)
    close(pu, px, 1e-5, tv, "plain MGP variance at projected coordinates against the corresponding inputs")
    H = np.asarray(sm.inv_sigma_R)
    lam = np.linalg.eigvalsh((H + H.T) / 2)
    # the extra variance amplifies rounding by the conditioning of the hyperparameters' covariance and divides by the plain one
    labels = ["h%d" % h, case["poly"]]
    big = px > 1e-4 * gp.s2[0] * gp.ys[0] ** 2
    if lam[0] > 1e-6 * lam[-1] and big.any() and gp.cond < 1e7:
        close(np.asarray(fu)[big], np.asarray(fx)[big], 1e-3, 1e4 * tv, "MGP variance at projected coordinates against the corresponding inputs")
        labels.append("uncertainty")
    if case["poly"] == "constant":
        close(np.asarray(sm.predict_values(u)).ravel(), gp.mean(Q).ravel(), 1e-6, tm * 10, "MGP mean at projected coordinates against Kriging at the original inputs")
    need(np.array_equal(Q, keep), "query points changed")
    return True, labels


def d1(f, t, i, h):
    """derivative by central differences, twice Richardson-extrapolated, with an error estimate"""
    def c(s):
        a, b = t.copy(), t.copy()
        a[i] += s
        b[i] -= s
        return (np.asarray(f(a), float) - np.asarray(f(b), float)) / (a[i] - b[i])
    x, y, z = c(h), c(h / 2), c(h / 4)
    p, q = (4 * y - x) / 3, (4 * z - y) / 3
    return q, np.abs(q - p)


@sub(gen.cases(**dict(BASE, nug=st.sampled_from([1e-5, 1e-3, 1e-2]), fam=st.sampled_from(["ridge", "smooth", "rough"]))), quick=180, thorough=6000, rule=RULE + ", trained projection at a maximum of the likelihood")
def uncertainty(case):
    sm, rng, U, xl, X, y, h, A, gp = trained(case)
    d, poly, nug = case["d"], case["poly"], case["nug"]
    if gp.cond > 1e7:
        raise Discard("ill-conditioned")
    th = A.T.ravel().copy()
    H = np.asarray(sm.inv_sigma_R)
    lam = np.linalg.eigvalsh((H + H.T) / 2)
    if not lam[0] > 1e-7 * lam[-1]:
        raise Discard("not a strict maximum")
    Q = queries(rng, U, xl)[1:]
    full, plain = (np.asarray(a, float) for a in sm.predict_variances(Q, both=True))
    unit = gp.s2[0] * gp.ys[0] ** 2
    ok = plain > 1e-5 * unit
    if not ok.any():
        raise Discard("no variance")
    full, plain, Q = full[ok], plain[ok], Q[ok]
    need((full >= plain * (4 / 3.0) * (1 - 1e-9) - 1e-12 * unit).all(), lambda: "variance %s below 4/3 of the plain one %s" % (full, plain))

    def at(t):
        g = ref.GP(X, y, "act_exp", poly, t.reshape(h, d).T, nug)
        return np.concatenate([g.mean(Q).ravel() / gp.ys[0], g.var(Q).ravel() / unit])

    def post(t):
        g = ref.GP(X, y, "act_exp", poly, t.reshape(h, d).T, nug)
        return g.loglik - ((t - case["mean"]) ** 2).sum() / case["var"]
    k = len(th)
    G, E = np.zeros((k, 2 * len(Q))), np.zeros((k, 2 * len(Q)))
    step = 2e-3 * max(0.2, np.abs(th).max())
    for i in range(k):
        G[i], E[i] = d1(at, th, i, step)
    if (E > 1e-4 * np.abs(G).max(0) + 1e-9).any():
        raise Discard("differences inaccurate")
    S = np.linalg.inv((H + H.T) / 2)
    dm, dv = G[:, :len(Q)] * gp.ys[0], G[:, len(Q):] * unit
    want = 4 / 3.0 * plain + np.einsum("iq,ij,jq->q", dm, S, dm) + np.einsum("iq,ij,jq->q", dv, S, dv) / (3 * plain)
    kap = min(1.0, 1e-9 * lam[-1] / lam[0])
    close(full, want, 1e-3 + kap, 1e-8 * unit, "variance with hyperparameter uncertainty against 4/3 V + m' S m' + V' S V'/(3 V)")
    return True, ["h%d" % h, poly, case["fam"]]


@sub(gen.cases(**dict(BASE, at=st.sampled_from(["random", "random", "small", "trained"]))), quick=180, thorough=8000, rule="likelihood, gradient and Hessian judged at a projection with a condition number below 1e8")
def likelihood(case):
    sm, rng, U, xl, X, y, h = build(case)
    sm.train()
    d = case["d"]
    k = d * h
    th = rng.uniform(-1, 1, k) * {"random": 1.0, "small": 0.2, "trained": 0.0}[case["at"]]
    if case["at"] == "trained":
        th = np.array(sm.optimal_theta, float).ravel()
        t0 = sm.options["theta0"]
        t0 = np.array(t0 if len(t0) == k else list(t0) * k, float)

    def lik(t):
        sm.best_iteration_fail, sm._thetaMemory = None, None
        return float(np.ravel(sm._reduced_likelihood_function(np.array(t, float))[0])[0])

    def model(t):
        g = ref.GP(X, y, "act_exp", case["poly"], np.asarray(t).reshape(h, d).T, case["nug"])
        return g, g.loglik - ((np.asarray(t) - case["mean"]) ** 2).sum() / case["var"]
    g, want = model(th)
    if not g.cond < 1e8 or not g.condM < 1e8:
        raise Discard("ill-conditioned")
    f0 = lik(th)
    noise = 1e-14 * g.cond * max(1.0, len(X)) + 1e-12 * abs(want)
    close(f0, want, 1e-8, noise, "log posterior of the hyperparameters")
    if case["at"] == "trained" and np.all((t0 >= sm.options["theta_bounds"][0]) & (t0 <= sm.options["theta_bounds"][1])):   # other starts are replaced
        g0, start = model(t0)
        if g0.cond < 1e10:
            need(f0 >= start - 1e-6 * abs(start) - 1e-6, lambda: "search ended at %g, below its start %g" % (f0, start))
    grad = np.asarray(sm._reduced_likelihood_gradient(th.copy())[0]).ravel()
    hess, ij, _ = sm._reduced_likelihood_hessian(th.copy())
    Hm = np.full((k, k), np.nan)
    for (i, j), v in zip(ij, np.asarray(hess).ravel()):
        Hm[i, j] = Hm[j, i] = v
    need(grad.shape == (k,) and np.isfinite(Hm).all(), "gradient of shape %s" % (grad.shape,))
    h0 = float(np.clip(1e-2 * np.abs(th).max(), 1e-6, 1e-3))
    bad = 0
    for i in range(k):
        fd, err = d1(lambda t: model(t)[1], th, i, h0)
        tol = 3 * err + 10 * noise / h0 + 1e-8 * (np.abs(grad).max() + 1)
        if tol > 1e-2 * (np.abs(grad).max() + 1):      # the differences have not settled, their error estimate says nothing
            bad += 1
            continue
        close(grad[i], fd, 2e-5, tol, "gradient of the log posterior [%d]" % i)
        fd, err = d1(lambda t: np.asarray(sm._reduced_likelihood_gradient(np.array(t))[0]).ravel(), th, i, h0)
        tol = 3 * err.max() + 1e2 * noise * (np.abs(grad).max() + 1) / h0 + 1e-7 * np.abs(Hm).max()
        if tol > 1e-2 * np.abs(fd).max():
            bad += 1
            continue
        close(Hm[i], fd, 2e-5, tol, "Hessian of the log posterior, row %d" % i)
    return not bad, ["h%d" % h, case["poly"], case["at"]]
