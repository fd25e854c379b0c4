"""P15: random training sets with derivatives x steps x extra points x weights: closed form of the averaged local components, exact Taylor points, reference Kriging on the enlarged data, affine reproduction and monotone slope misfit of gradient-enhanced splines"""
import numpy as np
from hypothesis import strategies as st
import gen, ref
from core import sub, need, close, Discard, rng_of
from splines import Basis1, Spline, solve_quadratic
from smt.surrogate_models import GEKPLS, RMTC, RMTB
from smt.utils.kriging_utils import ge_compute_pls

RULE = "derivatives that are not zero"
GE = dict(n=st.sampled_from([6, 4, 10]), d=st.sampled_from([3, 2, 1, 4, 5]), box=st.sampled_from(gen.FAR_KINDS), ye=st.sampled_from([0, -4, 4]), extra=st.sampled_from([1, 0, 2, 3]), delta=st.sampled_from([0.05, 1e-2, 0.2, 1e-3, 1e-4]),
          grad=st.sampled_from(["smooth", "random", "skewed", "axis"]), wide=st.booleans())


def ge_data(case, rng):
    """training points, values, gradients, bounds; the gradients need not belong to one function"""
    n, d = case["n"], case["d"]
    U = gen.unit_design(rng, "spread", n, d)
    xl = gen.box(rng, case["box"], d)
    X = gen.scale(U, xl)
    if case["wide"]:
        # the bounds given to the model are those of the problem, not of the data
        w = xl[:, 1] - xl[:, 0]
        xl = np.stack([xl[:, 0] - w * rng.rand(d), xl[:, 1] + w * rng.rand(d)], axis=1)
    w = xl[:, 1] - xl[:, 0]
    s = 10.0 ** case["ye"]
    a = rng.uniform(0.5, 2, d)
    Y = (np.sin(U * a).sum(1, keepdims=True) + U[:, :1] * U[:, -1:] + rng.choice([0, 1])) * s
    if case["grad"] == "smooth":
        G = a * np.cos(U * a)
        G[:, 0] += U[:, -1]
        G[:, -1] += U[:, 0]
    else:
        G = rng.uniform(-1, 1, (n, d))
        if case["grad"] == "skewed":
            G *= 10.0 ** rng.randint(-2, 3, d)
        if case["grad"] == "axis":
            G *= (rng.rand(n, d) < 0.4) + 1e-3
    return U, X, Y, G * s / w, xl, w, s


def components(G, w):
    """first local component of an orthogonal design of exact first-order values: the scaled gradient"""
    g = G * w
    return np.abs(g) / np.linalg.norm(g, axis=1, keepdims=True)


def taylor(X, Y, G, w, delta, extra):
    C = components(G, w)
    XX, yy = [], []
    for i in range(len(X)):
        o = np.sort(C[i])
        if extra < len(o) and not (o[-extra] - o[-extra - 1] > 1e-6):
            raise Discard("tie between directions")
        for k in np.argsort(C[i])[-extra:]:
            p = X[i].copy()
            p[k] += delta * w[k]
            XX.append(p)
            yy.append(Y[i] + G[i, k] * delta * w[k])
    return np.array(XX), np.array(yy)


def rows(A, B):
    M = np.hstack([A, B])
    return M[np.lexsort(np.round(M, 12).T[::-1])]


def tolerance(Y, G, w, delta):
    g = np.abs(G * w) * delta
    size = np.linalg.norm(g, axis=1)
    if (size < 1e-9 * (np.abs(Y).max() + 1e-300)).any():
        raise Discard("increments below rounding")
    return 1e-13 * np.abs(Y).max() / size.min() + 1e-8


@sub(gen.cases(**GE), quick=700, rule=RULE)
def taylor_points(case):
    rng = rng_of(case, 1)
    U, X, Y, G, xl, w, s = ge_data(case, rng)
    n, d = X.shape
    extra, delta = min(case["extra"], d), case["delta"]
    tol = tolerance(Y, G, w, delta)
    pts = {None: {0: [X, Y]}}
    for k in range(d):
        pts[None][k + 1] = [X, G[:, [k]]]
    keep = [a.copy() for a in (X, Y, G, xl)]
    C, XX, yy = ge_compute_pls(X, Y, 1, pts, delta, xl, extra)
    need(all(np.array_equal(a, b) for a, b in zip(keep, (X, Y, G, xl))), "arguments changed")
    need(np.shape(C) == (d, 1), "coefficients have shape %s" % (np.shape(C),))
    close(C[:, 0], components(G, w).mean(0), tol, tol, "averaged components")
    if extra == 0:
        need(len(XX) == 0 and len(yy) == 0, "points added though none were asked for")
        return True, ["extra:0", "d:%d" % d]
    want = taylor(X, Y, G, w, delta, extra)
    need(XX.shape == want[0].shape and yy.shape == want[1].shape, "Taylor points have shape %s" % (XX.shape,))
    # every training point contributes its own block, in any order inside it
    for i in range(n):
        b = slice(i * extra, (i + 1) * extra)
        A, B = rows((XX[b] - X[i]) / (delta * w), (yy[b] - Y[i]) / s), rows((want[0][b] - X[i]) / (delta * w), (want[1][b] - Y[i]) / s)
        big = np.abs(X).max(0) / (delta * w)
        close(A, B, 1e-9, np.append(1e-14 * big + 1e-12, 1e-14 * np.abs(Y).max() / s + 1e-14), "Taylor points of training point %d" % i)
    return True, ["extra:%d" % extra, "d:%d" % d]


@sub(gen.cases(corr=st.sampled_from(["squar_exp", "abs_exp"]), poly=st.sampled_from(["constant", "linear"]), theta0=st.sampled_from([1.0, 0.1, 5.0]), **dict(GE, delta=st.sampled_from([0.1, 0.05, 0.2, 0.02]))), quick=300,
     rule="a correlation matrix of condition number below 1e9")
def kriging_on_taylor_points(case):
    """the trained model is Kriging, along the averaged components, on the training and Taylor points"""
    rng = rng_of(case, 2)
    U, X, Y, G, xl, w, s = ge_data(case, rng)
    n, d = X.shape
    extra, delta = min(case["extra"], d), case["delta"]
    if case["poly"] == "linear" and n < d + 3:
        raise Discard("too few points")
    tolerance(Y, G, w, delta)
    sm = GEKPLS(n_comp=1, theta0=[case["theta0"]], corr=case["corr"], poly=case["poly"], xlimits=xl.copy(), delta_x=delta, extra_points=extra, print_global=False)
    sm.set_training_values(X, Y)
    for k in rng.permutation(d):
        sm.set_training_derivatives(X, G[:, [k]], int(k))
    sm.train()
    W = components(G, w).mean(0)[:, None]
    A, b = X, Y
    if extra:
        XX, yy = taylor(X, Y, G, w, delta, extra)
        A, b = np.vstack([X, XX]), np.vstack([Y, yy])
    g = ref.GP(A, b, case["corr"], case["poly"], sm.optimal_theta, 100 * np.finfo(float).eps, W=W)
    if not (g.cond < 1e9 and g.condM < 1e9):
        raise Discard("ill-conditioned")
    xq = gen.scale(gen.queries(rng, 8, d, U), np.stack([X.min(0), X.max(0)], axis=1))
    eps = 1e-13 * g.cond * max(1, g.condM ** 0.5)
    sy = g.ys.max()
    close(sm.predict_values(xq), g.mean(xq), 1e-7, np.abs(g.gamma).sum() * sy * 1e-13 + sy * max(1e-7, 10 * eps), "prediction")
    rs = g.s2 * g.ys ** 2
    close(sm.predict_variances(xq) / rs, np.maximum(g.var(xq), 0) / rs, 1e-5, max(1e-7, 100 * eps), "variance / process variance")
    # the values at the Taylor points are met: slopes at the training points follow the given ones
    if extra and case["delta"] >= 0.02:
        close(sm.predict_values(A), b, 0, sy * (1e-6 + 100 * eps), "value at training and Taylor points")
    return True, ["extra:%d" % extra, "corr:" + case["corr"]]


SPL = dict(model=st.sampled_from(["RMTC", "RMTB"]), d=st.sampled_from([2, 1]), n=st.sampled_from([6, 3, 12]), m=st.sampled_from([5, 2, 1, 9]), box=st.sampled_from(gen.FAR_KINDS), ye=st.sampled_from([0, 3, -3]), ne=st.sampled_from([3, 2, 4]), same=st.booleans(),
           which=st.integers(1, 3))


def spline(case, xl, d, **kw):
    o = dict(xlimits=xl, print_global=False, **kw)
    if case["model"] == "RMTC":
        return RMTC(num_elements=case["ne"], **o)
    return RMTB(num_ctrl_pts=case["ne"] + 3, order=4, **o)


@sub(gen.cases(gw=st.sampled_from([0.5, 10.0, 1e-2]), ny=st.sampled_from([1, 2]), **SPL), quick=250, rule=RULE)
def affine(case):
    """exact derivatives of an affine function, wherever they are supplied, leave it reproduced exactly in value and slope"""
    rng = rng_of(case, 3)
    d, ny = case["d"], case["ny"]
    s = 10.0 ** case["ye"]
    xl = gen.box(rng, case["box"], d)
    w = xl[:, 1] - xl[:, 0]
    n = max(case["n"], d + 2)
    U = gen.unit_design(rng, "spread", n, d)
    X = gen.scale(U, xl)
    c, b = rng.randn(d, ny) * s / w[:, None], rng.randn(ny) * s
    f = lambda P: (P - xl[:, 0]) @ c + b
    which = [k for k in range(d) if case["which"] >> k & 1] or [0]
    Z = X if case["same"] else gen.scale(rng.rand(case["m"], d), xl)
    ew = 1e-4 * float(np.exp(np.mean(np.log(w))) ** 4)
    data = {0: (X, f(X))}
    data.update({k + 1: (Z, np.tile(c[k], (len(Z), 1))) for k in which})
    S = Spline([Basis1("c", case["ne"]) if case["model"] == "RMTC" else Basis1("b", 4, case["ne"] + 3) for _ in range(d)], xl)
    ref_sol, _, cond = solve_quadratic(*S.problem(data, 1e-13, ew, np.ones(d), case["gw"]))
    Q = gen.scale(rng.rand(8, d), xl)
    y = f(Q)
    size = np.abs(f(X)).max() + s
    # multilinear functions have no energy either, and the regularisation has a bias: keep the cases that determine the affine function
    if not cond < 1e12 or np.abs(S.mat(Q) @ ref_sol - y).max() > 1e-5 * size:
        raise Discard("not determined by the data")
    sm = spline(case, xl, d, grad_weight=case["gw"], approx_order=2, solver="lu", regularization_weight=1e-13, energy_weight=ew)
    sm.set_training_values(X, f(X))
    for k in which:
        sm.set_training_derivatives(Z, np.tile(c[k], (len(Z), 1)), k)
    sm.train()
    tol = 3e-5 + 1e-14 * cond
    close(sm.predict_values(Q), y, 0, tol * size, "%s values" % case["model"])
    for k in range(d):
        close(sm.predict_derivatives(Q, k), np.tile(c[k], (len(Q), 1)), 0, 30 * tol * size / w[k], "%s slope along %d" % (case["model"], k))
    return True, ["model:" + case["model"], "which:%s" % which]


@sub(gen.cases(w1=st.sampled_from([0.0, 1e-3, 0.1, 1.0]), f=st.sampled_from([10.0, 1e3, 1e6]), **SPL), quick=250, rule="a slope misfit that gets at least 1 % smaller")
def weight(case):
    """a larger weight moves the slopes at the training points toward the supplied ones (squared misfit of a quadratic minimisation)"""
    rng = rng_of(case, 4)
    d = case["d"]
    xl = gen.box(rng, "unit", d)
    n = max(case["n"], d + 2)
    U = gen.unit_design(rng, "spread", n, d)
    X = gen.scale(U, xl)
    Y = rng.randn(n, 1) * 10.0 ** case["ye"]
    which = [k for k in range(d) if case["which"] >> k & 1] or [0]
    Z = X if case["same"] else gen.scale(rng.rand(case["m"], d), xl)
    G = {k: rng.randn(len(Z), 1) * 10.0 ** case["ye"] for k in which}
    B = []
    for gw in (case["w1"], (case["w1"] or 1e-3) * case["f"]):
        sm = spline(case, xl, d, grad_weight=gw, approx_order=2, regularization_weight=1e-10, energy_weight=1e-3, solver="lu")
        sm.set_training_values(X, Y)
        for k in which:
            sm.set_training_derivatives(Z, G[k], k)
        sm.train()
        B.append(sum(np.sum((sm.predict_derivatives(Z, k) - G[k]) ** 2) for k in which))
    total = sum(np.sum(g ** 2) for g in G.values())
    need(B[1] <= B[0] * (1 + 1e-6) + 1e-9 * total, "%s: squared slope misfit grew from %.9g to %.9g when the weight was multiplied by %g" % (case["model"], B[0], B[1], case["f"]))
    if case["same"] is False and case["m"] == 1 and case["w1"] * case["f"] >= 1e5:
        need(B[1] <= 1e-2 * B[0] + 1e-4 * total, "%s: a single point's slopes are not met at a weight of %g" % (case["model"], case["w1"] * case["f"]))
    return B[1] < 0.99 * B[0], ["model:" + case["model"]]
