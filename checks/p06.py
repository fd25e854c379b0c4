"""P06: correlation kernels vs formulas, finite differences in hyperparameters and inputs, eigenvalues, block sizes."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard
import gen, ref
from smt.utils import kriging_utils as ku

RULE = "at least two distinct rows, finite positive hyperparameters; every row/parameter judged"
KER = st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"])


def kfun(name):
    return getattr(ku, name)


def scaled(D, name):
    """Signed differences -> the componentwise distances the kernels take (squared or absolute)."""
    return D ** 2 if name == "squar_exp" else np.abs(D)


def value(name, th, D):
    """Published formulas on signed differences D [n, d]."""
    th = np.ravel(th)
    if name == "squar_exp":
        return np.exp(-(D ** 2) @ th)
    t = np.abs(D) * th
    if name == "abs_exp":
        return np.exp(-t.sum(1))
    if name == "matern52":
        s = np.sqrt(5) * t
        return np.prod(1 + s + s ** 2 / 3, axis=1) * np.exp(-s.sum(1))
    s = np.sqrt(3) * t
    return np.prod(1 + s, axis=1) * np.exp(-s.sum(1))


BASE = dict(name=KER, d=st.integers(1, 6), n=st.integers(2, 25), te=st.integers(-6, 2), de=st.integers(-3, 1), col=st.booleans(),
            zeros=st.booleans())


def make(case):
    rng = rng_of(case)
    n, d = case["n"], case["d"]
    th = 10.0 ** rng.uniform(case["te"] - 1, case["te"], d)
    D = rng.uniform(-1, 1, (n, d)) * 10.0 ** case["de"]
    if case["zeros"]:
        D[rng.rand(n, d) < 0.3] = 0.0
        D[0] = 0.0
    return rng, (th.reshape(-1, 1) if case["col"] else th), D


@sub(gen.cases(**BASE), quick=3000, rule=RULE)
def formula(case):
    rng, th, D = make(case)
    name = case["name"]
    f = kfun(name)
    dd = scaled(D, name)
    got = ku.componentwise_distance(D, name, D.shape[1])
    close(got, dd, 1e-14, 0, "componentwise distance")
    r = f(th, dd)
    close(r, value(name, th, D).reshape(-1, 1), 1e-10, 1e-300, name)
    need(np.all((r >= 0) & (r <= 1 + 1e-12)), "correlation outside [0, 1]")
    close(f(th, np.zeros_like(dd)), np.ones((len(D), 1)), 0, 0, "correlation at zero distance")
    for k in rng.choice(len(D), min(3, len(D)), replace=False):
        close(f(th, dd[k:k + 1]), r[k:k + 1], 1e-13, 0, "row alone")
    return True, [name]


@sub(gen.cases(**dict(BASE, te=st.integers(-3, 1), de=st.integers(-1, 0))), quick=3000, rule=RULE)
def hyper_derivatives(case):
    rng, th, D = make(case)
    name = case["name"]
    f = kfun(name)
    dd = scaled(D, name)
    t = np.ravel(th)
    i, j = rng.randint(len(t), size=2)
    if rng.rand() < 0.4:
        j = i
    L = np.longdouble
    F = lambda z: value(name, z, D.astype(L))

    def cd(g, k, h, dt=float):
        e = np.zeros(len(t), dt)
        z = t.astype(dt)
        e[k] = h * z[k]
        a = (g(z + e) - g(z - e)) / (2 * e[k])
        b = (g(z + e / 2) - g(z - e / 2)) / e[k]
        return np.asarray((4 * b - a) / 3, float)

    g1 = f(th, dd, grad_ind=int(i))
    want = cd(F, i, 1e-3, L)
    top = dd[:, i].max() + 1e-300
    close(g1.ravel(), want, 1e-6, 3e-15 / t[i] + 1e-13 * top, "%s hyperparameter derivative" % name)
    # second derivative: difference of the package's own (just verified) first derivative
    G = lambda z: f(z.reshape(np.shape(th)), dd, grad_ind=int(i)).ravel()
    want = cd(G, j, 1e-3)
    g2 = f(th, dd, grad_ind=int(i), hess_ind=int(j)).ravel()
    lim = 1e-11 * top / t[j] + 1e-12 * top ** 2
    close(g2, want, 1e-5, lim, "%s mixed second derivative (%d,%d)" % (name, i, j))
    sc2 = np.abs(want) + lim
    if i != j:
        close(f(th, dd, grad_ind=int(j), hess_ind=int(i)).ravel() / sc2, g2 / sc2, 0, 1e-9, "symmetry of second derivatives")
    return True, [name, "diag" if i == j else "mixed"]


@sub(gen.cases(**dict(BASE, te=st.integers(-3, 1), de=st.integers(-1, 0), pls=st.booleans(), h=st.integers(1, 3))), quick=1500, rule=RULE)
def input_derivatives(case):
    """Kernel rows between one point x and n data points, differentiated with respect to x."""
    rng, th, D = make(dict(case, zeros=False))
    name = case["name"]
    t = np.ravel(th)
    n, d = D.shape
    pls = case["pls"] and name in ("squar_exp", "abs_exp")
    W = None
    if pls:
        h = min(case["h"], d)
        W = rng.uniform(-1, 1, (d, h))
        t = 10.0 ** rng.uniform(case["te"] - 1, case["te"], h)
        dist = lambda z, **k: ku.componentwise_distance_PLS(z, name, h, W, **k)
        val = lambda z: np.exp(-((z ** 2) @ (W ** 2) if name == "squar_exp" else np.abs(z) @ np.abs(W)) @ t)
    else:
        dist = lambda z, **k: ku.componentwise_distance(z, name, d, **k)
        val = lambda z: value(name, t, z)
    if pls:
        close(dist(D), (D ** 2) @ (W ** 2) if name == "squar_exp" else np.abs(D) @ np.abs(W), 1e-12, 0, "PLS distance")
    small = np.abs(D).min() * 0.02
    if small < 1e-6 * np.abs(D).max():
        raise Discard("near a kink")
    r, dr = kfun(name)(t, dist(D), derivative_params={"dx": D.copy(), "dd": dist(D, theta=t, return_derivative=True)})
    close(r, val(D).reshape(-1, 1), 1e-10, 1e-300, "value returned with derivatives")
    need(np.shape(dr) == (n, d), "derivative shape %s" % (np.shape(dr),))
    for k in range(d):
        h_ = np.minimum(1e-3 / max(t.max(), 1), small)
        e = np.zeros(d)
        e[k] = h_
        a = (val(D + e) - val(D - e)) / (2 * h_)
        b = (val(D + e / 2) - val(D - e / 2)) / h_
        c = (val(D + e / 4) - val(D - e / 4)) / (h_ / 2)
        want = (4 * b - a) / 3
        want2 = (4 * c - b) / 3
        tol = 1e-6 * np.abs(want) + 3 * np.abs(want - want2) + 1e-13 / h_
        need(np.all(np.abs(dr[:, k] - want) <= tol), lambda: "%s derivative with respect to input %d: %s vs %s" % (name, k, dr[:, k], want))
    return True, [name, "pls" if pls else "plain"]


@sub(gen.cases(name=KER, d=st.integers(1, 5), n=st.integers(2, 20), te=st.integers(-6, 2)), quick=800, rule=RULE)
def positive_semidefinite(case):
    rng = rng_of(case)
    n, d = case["n"], case["d"]
    X = rng.uniform(-2, 2, (n, d))
    th = 10.0 ** rng.uniform(case["te"] - 1, case["te"], d)
    D, ij = ku.cross_distances(X)
    r = kfun(case["name"])(th, ku.componentwise_distance(D, case["name"], d))
    R = np.eye(n)
    R[ij[:, 0], ij[:, 1]] = R[ij[:, 1], ij[:, 0]] = r[:, 0]
    close(R, ref.kernel(case["name"], th, X, X), 1e-10, 1e-14, "correlation matrix")
    w = np.linalg.eigvalsh(R).min()
    need(w > -1e-12 * n, "negative eigenvalue %g" % w)
    return True, [case["name"]]


@sub(gen.cases(d=st.integers(1, 4), h=st.integers(1, 3), n=st.integers(1, 20), te=st.integers(-2, 1)), quick=1200, rule=RULE)
def active_subspace(case):
    """exp(-|A^T d|^2 / 2) with theta the entries of A, first and second derivatives in theta."""
    rng = rng_of(case)
    n, d, h = case["n"], case["d"], case["h"]
    th = rng.uniform(-1, 1, d * h) * 10.0 ** case["te"]
    D = rng.uniform(-1, 1, (n, d)) * min(1.0, 10.0 ** -case["te"])
    val = lambda t: np.exp(-0.5 * ((D @ t.reshape(h, d).T) ** 2).sum(1))
    r = ku.act_exp(th, D)
    close(r.ravel(), val(th), 1e-11, 1e-300, "value")
    close(ku.act_exp(th, np.zeros_like(D)), np.ones((n, 1)), 0, 0, "zero distance")
    s = 1e-3 * 10.0 ** case["te"]

    def cd(g, k):
        e = np.zeros(d * h)
        e[k] = s
        a = (g(th + e) - g(th - e)) / (2 * s)
        b = (g(th + e / 2) - g(th - e / 2)) / s
        return (4 * b - a) / 3

    i, j = (int(v) for v in rng.randint(d * h, size=2))
    if rng.rand() < 0.3:
        j = i
    sc = 10.0 ** -case["te"]
    close(ku.act_exp(th, D, grad_ind=i).ravel(), cd(val, i), 1e-6, 1e-8 * sc, "first derivative")
    G = lambda t: ku.act_exp(t, D, grad_ind=i).ravel()
    close(ku.act_exp(th, D, grad_ind=i, hess_ind=j).ravel(), cd(G, j), 1e-6, 1e-7 * sc ** 2, "second derivative (%d,%d)" % (i, j))
    return True, ["same" if i == j else "mixed"]


@sub(gen.cases(name=st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"]), d=st.integers(1, 3), mult=st.sampled_from([1, 1, 2, 3]),
               off=st.sampled_from([-1, 0, 1, 5000])), quick=80, rule="row count at or around a multiple of ten thousand")
def many_rows(case):
    """Results do not depend on how many rows are processed together."""
    rng = rng_of(case)
    d, n = case["d"], case["mult"] * 10000 + case["off"]
    D = rng.uniform(-1, 1, (n, d))
    th = 10.0 ** rng.uniform(-1, 0.5, d)
    name = case["name"]
    dd = ku.componentwise_distance(D, name, d)
    close(dd, scaled(D, name), 1e-14, 0, "componentwise distance, many rows")
    close(kfun(name)(th, dd).ravel(), value(name, th, D), 1e-10, 1e-300, "kernel, many rows")
    i, j = (int(v) for v in rng.randint(d, size=2))
    at = np.unique(np.concatenate([[0, 9999, n - 1], rng.randint(0, n, 20), np.arange(9998, 10003)]))
    at = at[at < n]
    for kw in (dict(grad_ind=i), dict(grad_ind=i, hess_ind=j)):
        big, small = kfun(name)(th, dd, **kw), kfun(name)(th, dd[at], **kw)
        close(big[at], small, 1e-12, 0, "kernel derivative, many rows vs few")
    h = min(2, d)
    W = rng.uniform(-1, 1, (d, h))
    if name in ("squar_exp", "abs_exp"):
        close(ku.componentwise_distance_PLS(D, name, h, W), (D ** 2) @ (W ** 2) if name == "squar_exp" else np.abs(D) @ np.abs(W),
              1e-12, 1e-300, "PLS distance, many rows")
    return True, [name]
