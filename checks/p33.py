"""P33: random models with known predictions, data, scales and constant columns: error metric against direct formula, standardisation against its definition and inverse, enumeration of pairs"""
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, close, Discard, rng_of
from smt.utils.misc import compute_rms_error
from smt.utils.kriging_utils import standardization, cross_distances, differences
from smt.surrogate_models.surrogate_model import SurrogateModel
from smt.surrogate_models import LS, QP, IDW


class Known(SurrogateModel):
    """a surrogate whose predictions are given functions"""

    name = "Known"

    def _initialize(self):
        super(Known, self)._initialize()
        self.supports["derivatives"] = True
        self.supports["training_derivatives"] = True
        self.options.declare("fun", None)
        self.options.declare("der", None)

    def _train(self):
        pass

    def _predict_values(self, x):
        return self.options["fun"](x)

    def _predict_derivatives(self, x, kx):
        return self.options["der"](x, kx)


@sub(gen.cases(n=st.sampled_from([5, 2, 12, 1]), d=st.sampled_from([2, 1, 4]), ny=st.sampled_from([1, 1, 2]), sc=st.sampled_from([0, 6, -6]), sx=st.sampled_from([0, 3, -3]), off=st.sampled_from([0, 1]), zero=st.integers(0, 5),
               how=st.sampled_from(["given", "training", "given1d", "missing", "model"]), kx=st.integers(-1, 3)), quick=2500, rule="prediction and reference differ")
def rms(case):
    rng = rng_of(case, 1)
    n, d, sc = case["n"], case["d"], 10.0 ** case["sc"]
    how = case["how"]
    ny = case["ny"] if how == "training" else 1
    kx = None if case["kx"] < 0 else case["kx"] % d
    W, P = rng.randn(d, ny) * sc, rng.randn(d, ny) / 10.0 ** case["sx"]
    fun = lambda x: sc * case["off"] + np.sin(x @ P) @ np.diag(np.ones(ny)) * sc
    der = lambda x, k: np.cos(x @ P) * P[k] * sc
    X = rng.randn(n, d) * 10.0 ** case["sx"]
    if how == "model":
        if n < 5 + d:
            X = rng.randn(5 + d, d) * 10.0 ** case["sx"]
            n = len(X)
        sm = LS(print_global=False)
        sm.set_training_values(X, np.sin(X @ P) * sc + rng.randn(n, 1) * sc)
        sm.train()
        fun, der = sm.predict_values, sm.predict_derivatives
    else:
        sm = Known(fun=fun, der=der, print_global=False)
        sm.set_training_values(rng.randn(3, d), rng.randn(3, ny))
        sm.train()
    exact = case["zero"] == 0
    ref = (fun(X) if kx is None else der(X, kx))
    if how == "model" and not exact:
        ref = rng.randn(n, 1) * sc
    elif not exact:
        ref = ref + rng.randn(n, ny) * np.abs(ref).max() * 10.0 ** rng.randint(-3, 2)
    want = np.linalg.norm((fun(X) if kx is None else der(X, kx)) - ref) / np.linalg.norm(ref)
    what = "%s, %s" % (how, "values" if kx is None else "derivative %d" % kx)
    if how == "training":
        if kx is not None and rng.rand() < 0.5:      # values known at other points
            V = rng.randn(n if rng.rand() < 0.5 else n + 2, d) * 10.0 ** case["sx"]
            sm.set_training_values(V, fun(V))
        else:
            sm.set_training_values(X, fun(X) + 1.0 if kx is not None else ref)
        if kx is not None:
            for k in range(d):
                sm.set_training_derivatives(X, ref if k == kx else ref + 3 * np.abs(ref).max(), k)
        sm.train()
        got = compute_rms_error(sm, **({} if kx is None else dict(kx=kx)))
    elif how == "missing":
        sm.set_training_values(X, fun(X)[:, :1])
        k = 0 if kx is None else kx
        try:
            compute_rms_error(sm, kx=k)
        except ValueError:
            return True, ["missing"]
        need(False, "no error although the training data have no derivative %d" % k)
    else:
        Xk, rk = X.copy(), ref.copy()
        got = compute_rms_error(sm, X, ref[:, 0] if how == "given1d" else ref, **({} if kx is None else dict(kx=kx)))
        need(np.array_equal(X, Xk) and np.array_equal(ref, rk), "compute_rms_error changed its arguments")
    need(np.ndim(got) == 0, "rms error is not a number: %r" % (got,))
    close(float(got), want, 1e-9, 1e-13, "relative error (%s)" % what)
    return want > 0, ["how:" + how, "kx:%s" % (kx is not None)]


@sub(gen.cases(n=st.sampled_from([6, 2, 15, 3]), d=st.sampled_from([3, 1, 6]), ny=st.sampled_from([1, 2]), unit=st.booleans(), const=st.sampled_from([0, 1, 2]), yconst=st.integers(0, 4), sc=st.sampled_from([0, 6, -9, 9]), off=st.sampled_from([0, 2, 5]),
               cv=st.sampled_from([0.1, 0.0, 1.0, 1e6, -0.3, 1.1e-7])), quick=2500, rule="a column that is not constant")
def standardise(case):
    rng = rng_of(case, 2)
    n, d, ny = case["n"], case["d"], case["ny"]
    s = 10.0 ** case["sc"] * 10.0 ** rng.uniform(-2, 2, d)
    X = (rng.randn(n, d) + case["off"] * rng.randn(d)) * s
    y = (rng.randn(n, ny) + case["off"]) * 10.0 ** rng.randint(-14, 13)
    cols = rng.permutation(d)[:min(case["const"], d)]
    X[:, cols] = case["cv"]
    if case["yconst"] == 0:
        y[:] = case["cv"]
    Xk, yk = X.copy(), y.copy()
    kw = dict(scale_X_to_unit=True) if case["unit"] else {}
    Z, z, xo, ym, xs, ys = standardization(X, y, **kw)
    need(np.array_equal(X, Xk) and np.array_equal(y, yk), "standardization changed its arguments")
    for nm, A, S, o, c, unit in (("X", X, Z, xo, xs, case["unit"]), ("y", y, z, ym, ys, False)):
        need(S.shape == A.shape and np.isfinite(S).all() and np.isfinite(o).all() and np.isfinite(c).all() and (np.asarray(c) > 0).all(), "%s: scaled data, offset or scale not finite and positive: %s %s" % (nm, o, c))
        big = np.abs(A).max(0)
        close(S * c + o, A, 1e-12, 1e-12 * big + 1e-300, "%s: inverse of the scaling" % nm)
        for j in range(A.shape[1]):
            constant = np.ptp(A[:, j]) == 0
            if constant:
                close(float(c[j]), 1.0, 0, 0, "%s: scale of the constant column %d" % (nm, j))
                close(S[:, j], np.zeros(n), 0, 1e-12 * (1 + big[j]), "%s: constant column %d" % (nm, j))
                continue
            noise = 1e-12 * (1 + big[j] / np.ptp(A[:, j]))
            if unit:
                close(float(S[:, j].min()), 0, 0, noise, "%s: smallest scaled value" % nm)
                close(float(S[:, j].max()), 1, 0, noise, "%s: largest scaled value" % nm)
            else:
                close(float(np.sum(S[:, j])) / n, 0, 0, 10 * noise, "%s: mean of column %d" % (nm, j))
                close(float(np.sqrt(np.sum((S[:, j] - S[:, j].mean()) ** 2) / (n - 1))), 1, 0, 10 * noise, "%s: deviation of column %d" % (nm, j))
            D = A[:, None, j] - A[None, :, j]
            close((S[:, None, j] - S[None, :, j]) * c[j], D, 1e-9, 1e-12 * big[j], "%s: differences along column %d" % (nm, j))
    return bool((np.ptp(X, axis=0) > 0).any()), ["unit:%s" % case["unit"], "constant:%d" % len(cols)]


@sub(gen.cases(n=st.sampled_from([5, 2, 12, 3, 1, 40]), m=st.sampled_from([3, 1, 7]), d=st.sampled_from([2, 1, 5]), dup=st.booleans(), big=st.integers(0, 60)), quick=1200, rule="at least one pair")
def pairs(case):
    rng = rng_of(case, 3)
    n, m, d = case["n"], case["m"], case["d"]
    if case["big"] == 0:
        n = 160
    X = rng.randn(n, d) * 10.0 ** rng.randint(-3, 4)
    if case["dup"] and n > 1:
        X[rng.randint(n)] = X[rng.randint(n)]
    D, ij = cross_distances(X)
    want = [(i, j) for i in range(n) for j in range(i + 1, n)]
    need(D.shape == (len(want), d) and ij.shape == (len(want), 2) and np.issubdtype(ij.dtype, np.integer), "cross_distances: shapes %s %s" % (D.shape, ij.shape))
    got = sorted(tuple(sorted(map(int, r))) for r in ij)
    need(got == want, "cross_distances: the index pairs are not every pair once")
    if want:
        need(np.array_equal(D, X[ij[:, 0]] - X[ij[:, 1]]), "cross_distances: a row is not the difference of its pair")
    Y = rng.randn(m, d)
    E = differences(X, Y=Y)
    need(E.shape == (n * m, d) and np.array_equal(E.reshape(n, m, d), X[:, None, :] - Y[None, :, :]), "differences: not the table of all differences")
    return len(want) > 0, ["n:%d" % n]


@sub(gen.cases(cv=st.sampled_from([0.1, -0.3, 0.0, 7.7, 1e5 + 0.1]), n=st.sampled_from([7, 12, 5]), d=st.sampled_from([2, 3]), pos=st.integers(0, 2), kpls=st.booleans()), quick=60, rule="every case")
def constant_input(case):
    """a variable that never varies in the training data does not disturb a Kriging model"""
    from smt.surrogate_models import KRG
    rng = rng_of(case, 4)
    n, d = case["n"], case["d"]
    k = case["pos"] % d
    X = rng.uniform(0, 1, (n, d))
    X[:, k] = case["cv"]
    Z = X.copy()
    Z[:, k] = 0.0
    y = np.sin(3 * X[:, [(k + 1) % d]]) + X.sum(1, keepdims=True) - case["cv"]
    Q = rng.uniform(0, 1, (6, d))
    out = []
    for A, o in ((X, case["cv"]), (Z, 0.0)):
        sm = KRG(theta0=[0.5] * d, hyper_opt="Cobyla", print_global=False, theta_bounds=[0.5 - 1e-9, 0.5 + 1e-9], nugget=1e-8)
        sm.set_training_values(A, y)
        sm.train()
        P = Q.copy()
        P[:, k] = o + 0.3
        out.append(np.hstack([sm.predict_values(P), sm.predict_variances(P)]))
    scale = np.abs(y).max()
    close(out[0], out[1], 1e-5, 1e-5 * scale, "constant column at %g against the same column at zero" % case["cv"])
    return True
