"""P13: metamorphic relations between trainings on related data: reordered points, variables and outputs, duplicated outputs,
affine maps of inputs and outputs, rotations; with the Kriging search held still, and exactly (powers of two) with it free."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref, models
from models import methods, well

RULE = "both models trained; values, variances and derivatives compared at queries inside and outside the box"
KRGS = ["KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK"]
ALL = ["LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "GENN"] + KRGS


class Set:
    """Training data in raw form; derivative list per variable; optional low fidelity."""

    def __init__(self, X, Y, dY, xl, Xlo=None, Ylo=None):
        self.X, self.Y, self.dY, self.xl, self.Xlo, self.Ylo = X, Y, dY, xl, Xlo, Ylo


def setup(case, kinds_free=False):
    s = dict(case["spec"], nugget=1e-4, reg=1e-6)
    k = s["kind"]
    if k.startswith("MF"):
        s["rho"] = "constant" if case["seed"] % 2 else s["rho"]
    if k == "GEKPLS":
        s["h"] = 1          # further components of exactly linear local data are rounding noise
    if k in ("RMTB", "RMTC"):
        s.update(ao=2, solver="lu", rw=1e-8)
    if not kinds_free:
        s["pin"] = True
    d = min(case["d"], models.max_dim(k))
    if k == "GEKPLS":
        d = max(d, 2)
    ny = 1 if models.single_output(k) else case["ny"]
    n = max(case["n"], models.min_points(s, d) + 2)
    D = models.Data(case, n, d, ny, box=case["box"])
    if np.any(np.std(D.Y, axis=0) < 1e-9 * np.abs(D.Y).max()):
        raise Discard("constant")
    models.usable(s, D)
    S = Set(D.X, D.Y, [D.dY[:, i, :] for i in range(d)], D.xl)
    if k.startswith("MF"):
        class Sink:
            def set_training_values(self, x, y, name=None):
                pass
        models.feed(Sink(), s, D)
        S.Xlo, S.Ylo = D.Xlo, D.Ylo
    return s, k, d, ny, D, S


def fit(s, S):
    k, d = s["kind"], S.X.shape[1]
    sm = models.build(s, d, S.xl)
    sm.set_training_values(S.X.copy(), S.Y.copy())
    if k in ("GENN", "GEKPLS"):
        for i in range(d):
            sm.set_training_derivatives(S.X.copy(), S.dY[i].copy(), i)
    if k.startswith("MF"):
        sm.set_training_values(S.Xlo.copy(), S.Ylo.copy(), name=0)
    np.random.seed(11)
    models.train(sm, s)
    return well(sm)


def tol_of(k):
    return 1e-4 if k in ("RMTB", "RMTC", "GENN") or k.startswith("MF") else 1e-5


def cmp(what, got, want, tol):
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    sc = np.abs(want).max()
    if not np.isfinite(sc):
        raise Discard("not finite")
    close(got, want, tol, tol * sc, what)


def theta_moved(a, b):
    t = [np.concatenate([np.ravel(np.asarray(v, float)) for v in m.optimal_theta]) if hasattr(m, "optimal_theta") else np.zeros(1) for m in (a, b)]
    return t[0].shape != t[1].shape or not np.allclose(np.sort(t[0]), np.sort(t[1]), rtol=1e-5)


BASE = dict(n=st.integers(4, 10), d=st.integers(1, 4), ny=st.integers(1, 3), nq=st.integers(2, 6), design=st.sampled_from(["spread", "lhs"]),
            box=st.sampled_from(["unit", "sym", "shift"]), fam=gen.FAMS, ye=st.integers(-1, 2))


def results(sm, s, d, Q):
    return {q: np.asarray(f(Q)) for q, f in methods(sm, s, d).items() if q != "dvar"}


@sub(gen.cases(spec=models.any_spec(ALL), **BASE), quick=500, rule=RULE)
def reorder_points(case):
    s, k, d, ny, D, S = setup(case)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.uniform(-0.2, 1.2, (case["nq"], d)), D.xl)
    p = rng.permutation(D.n)
    a = fit(s, S)
    T = Set(S.X[p], S.Y[p], [y[p] for y in S.dY], S.xl)
    if S.Xlo is not None:
        p2 = rng.permutation(len(S.Xlo))
        T.Xlo, T.Ylo = S.Xlo[p2], S.Ylo[p2]
    b = fit(s, T)
    if k in KRGS and theta_moved(a, b):
        raise Discard("search moved")
    A, B = results(a, s, d, Q), results(b, s, d, Q)
    for q in A:
        w = A[q]
        if q == "dyt":
            w = w[:, p]
        cmp("%s %s after reordering the training points" % (k, q), B[q], w, tol_of(k))
    return True, [k]


@sub(gen.cases(spec=models.any_spec(ALL), **dict(BASE, d=st.integers(2, 4))), quick=500, rule=RULE)
def reorder_variables(case):
    s, k, d, ny, D, S = setup(case)
    if k == "GENN" or d < 2:
        raise Discard("random initial weights per input" if k == "GENN" else "one variable")
    rng = rng_of(case, 3)
    Q = gen.scale(rng.uniform(-0.2, 1.2, (case["nq"], d)), D.xl)
    p = rng.permutation(d)
    if np.array_equal(p, np.arange(d)):
        p = np.roll(p, 1)
    a = fit(s, S)
    b = fit(s, Set(S.X[:, p], S.Y, [S.dY[i] for i in p], S.xl[p], None if S.Xlo is None else S.Xlo[:, p], S.Ylo))
    if k in KRGS and theta_moved(a, b):
        raise Discard("search moved")
    A, B = results(a, s, d, Q), results(b, s, d, np.ascontiguousarray(Q[:, p]))
    for q in A:
        q2 = "dx%d" % list(p).index(int(q[2:])) if q.startswith("dx") else q
        cmp("%s %s after reordering the variables" % (k, q), B[q2], A[q], tol_of(k))
    return True, [k, "d%d" % d]


@sub(gen.cases(spec=models.any_spec(["LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG"]), **BASE), quick=400, rule=RULE + "; one output repeated, columns shuffled")
def outputs(case):
    s, k, d, ny, D, S = setup(case)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.uniform(-0.2, 1.2, (case["nq"], d)), D.xl)
    cols = np.concatenate([rng.permutation(ny), [rng.randint(ny)]])
    a, b = fit(s, S), fit(s, Set(S.X, S.Y[:, cols], None, S.xl))
    if k in KRGS and theta_moved(a, b):
        raise Discard("search moved")
    A, B = results(a, s, d, Q), results(b, s, d, Q)
    for q in A:
        if q == "dyt":
            continue
        cmp("%s %s with output columns %s" % (k, q, list(cols)), B[q], A[q][:, cols], tol_of(k))
    if k != "KRG":
        # each output alone
        for j in range(ny):
            C = results(fit(s, Set(S.X, S.Y[:, [j]], None, S.xl)), s, d, Q)
            for q in A:
                if q != "dyt":
                    cmp("%s %s of output %d trained alone" % (k, q, j), C[q], A[q][:, [j]], tol_of(k))
    return True, [k, "ny%d" % ny]


@sub(gen.cases(spec=models.any_spec(ALL), flip=st.booleans(), shift=st.sampled_from([0.0, 1.0, 20.0]), logs=st.sampled_from([0, 1, 3]), unit=st.sampled_from([0, -9, 9]), **BASE), quick=600, rule=RULE)
def input_maps(case):
    s, k, d, ny, D, S = setup(case)
    rng = rng_of(case, 3)
    U = rng.uniform(-0.2, 1.2, (case["nq"], d))
    a = 10.0 ** rng.uniform(-case["logs"], case["logs"], d)
    if case["unit"]:
        a = a * 10.0 ** (case["unit"] * rng.uniform(0.5, 1.0))
    if case["flip"] and k not in ("GENN", "GEKPLS"):   # Taylor points step forward only
        a = a * rng.choice([-1, 1], d)
    if k == "IDW":
        a = np.full(d, abs(a[0]))
    if k == "RBF" and not s["aniso"]:
        a = np.full(d, abs(a[0])) * np.sign(a)
    b = case["shift"] * np.abs(a) * (D.xl[:, 1] - D.xl[:, 0]) * rng.uniform(-1, 1, d)
    g = lambda X: X * a + b
    xl = np.sort(np.stack([D.xl[:, 0] * a + b, D.xl[:, 1] * a + b], 1), axis=1)
    Q = gen.scale(U, D.xl)
    m = fit(s, S)
    n = fit(s, Set(g(S.X), S.Y, [S.dY[i] / a[i] for i in range(d)], xl, None if S.Xlo is None else g(S.Xlo), S.Ylo))
    if k in KRGS and theta_moved(m, n):
        raise Discard("search moved")
    A, B = results(m, s, d, Q), results(n, s, d, g(Q))
    for q in A:
        w = A[q] / a[int(q[2:])] if q.startswith("dx") else A[q]
        cmp("%s %s after mapping the inputs" % (k, q), B[q], w, tol_of(k) * (10 if case["shift"] > 2 else 1))
    return True, [k, "flip" if (a < 0).any() else "", "shift%g" % case["shift"]]


@sub(gen.cases(spec=models.any_spec(ALL), neg=st.booleans(), shift=st.sampled_from([0.0, 1.0, 20.0]), logs=st.sampled_from([0, 2, 5]), **BASE), quick=600, rule=RULE)
def output_maps(case):
    s, k, d, ny, D, S = setup(case)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.uniform(-0.2, 1.2, (case["nq"], d)), D.xl)
    a = 10.0 ** rng.uniform(-case["logs"], case["logs"])
    if case["neg"] and k != "GENN":
        a = -a
    sd = np.std(S.Y)
    b = 0.0 if (k == "RBF" and s["deg"] == -1) or k in ("RMTB", "RMTC") else a * sd * case["shift"] * rng.uniform(-1, 1)
    g = lambda Y: None if Y is None else a * Y + b
    m = fit(s, S)
    n = fit(s, Set(S.X, g(S.Y), [a * y for y in S.dY], S.xl, S.Xlo, g(S.Ylo)))
    if k in KRGS and theta_moved(m, n):
        raise Discard("search moved")
    A, B = results(m, s, d, Q), results(n, s, d, Q)
    for q in A:
        w = a * A[q] if q.startswith("dx") else a * a * A[q] if q in ("variances", "all_levels") else A[q] if q == "dyt" else g(A[q])
        sc = np.abs(w - (b if q in ("values", "level0") else 0)).max() + abs(a) * sd * (q in ("values", "level0"))
        t = tol_of(k) * (10 if case["shift"] > 2 else 1)
        close(B[q], w, t, t * sc, "%s %s after mapping the outputs" % (k, q))
    return True, [k, "neg" if a < 0 else "pos"]


@sub(gen.cases(spec=models.any_spec(["IDW", "RBF", "LS", "QP"]), **dict(BASE, d=st.integers(2, 4), box=st.sampled_from(["unit", "sym"]))), quick=250, rule=RULE)
def rotations(case):
    case = dict(case, spec=dict(case["spec"], aniso=False))
    s, k, d, ny, D, S = setup(case)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.uniform(-0.2, 1.2, (case["nq"], d)), D.xl)
    R = np.linalg.qr(rng.randn(d, d))[0]
    a = fit(s, S)
    b = fit(s, Set(S.X @ R, S.Y, None, S.xl))   # RBF's d0 is the same: it depends on the box only
    fa, fb = methods(a, s, d), methods(b, s, d)
    cmp("%s values after rotating the inputs" % k, np.asarray(fb["values"](Q @ R)), np.asarray(fa["values"](Q)), 1e-6)
    if "dx0" in fa:
        if k == "IDW" and min(np.abs(Q[:, None] - S.X[None]).sum(-1).ravel()) < 1e-6:
            raise Discard("at a training point")
        ga = np.stack([np.asarray(fa["dx%d" % i](Q)) for i in range(d)], axis=1)
        gb = np.stack([np.asarray(fb["dx%d" % i](Q @ R)) for i in range(d)], axis=1)
        cmp("%s gradients after rotating the inputs" % k, gb, np.einsum("ji,qjo->qio", R, ga), 1e-5)
    return True, [k]


@sub(gen.cases(spec=models.any_spec(["KRG", "KPLS", "KPLSK", "MFK", "MFKPLS", "MFKPLSK"]), p2=st.integers(-8, 8), **BASE), quick=150,
     rule="powers of two: every floating-point operation scales exactly, so the free search takes the same path and predictions map exactly")
def exact_scaling(case):
    s, k, d, ny, D, S = setup(case, True)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.uniform(-0.2, 1.2, (case["nq"], d)), D.xl)
    ax = 2.0 ** rng.randint(-6, 7, d)
    ay = 2.0 ** case["p2"]
    m = fit(s, S)
    n = fit(s, Set(S.X * ax, S.Y * ay, None, S.xl * ax[:, None], None if S.Xlo is None else S.Xlo * ax, None if S.Ylo is None else S.Ylo * ay))
    A, B = results(m, s, d, Q), results(n, s, d, Q * ax)
    for q in A:
        w = ay / ax[int(q[2:])] * A[q] if q.startswith("dx") else ay * ay * A[q] if q in ("variances", "all_levels") else ay * A[q]
        cmp("%s %s after exact scaling" % (k, q), B[q], w, 1e-9)
    return True, [k]
