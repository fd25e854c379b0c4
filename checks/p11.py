"""P11: derivatives with respect to training outputs (and training derivatives) vs retraining with perturbed data."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref, models
from splines import Spline, Basis1, solve_quadratic
from smt.surrogate_models import IDW, RBF, RMTB, RMTC

def solver_of(case):
    """derivative_solver: a name, or a solver object (which then serves every output and every kind of training data)"""
    from smt.utils.linear_solvers import DenseLUSolver, DirectSolver
    return {"lu": "lu", "dense-lu": "dense-lu", "direct-object": DirectSolver(), "dense-object": DenseLUSolver()}[case["ds"]]


DS = st.sampled_from(["lu", "dense-lu", "direct-object", "dense-object"])
RULE = "trained model; every training output (and training derivative, for splines) perturbed or checked by linearity, at >= 2 query points"


def retrain(s, D, Y, dY=None, **extra):
    sm = models.build(s, D.d, D.xl, **extra)
    sm.set_training_values(D.X, Y)
    if dY:
        for k, v in dY.items():
            sm.set_training_derivatives(D.X, v, k)
    sm.train()
    return sm


def run(case, lin_only=False, **extra):
    s = case["spec"]
    d = min(case["d"], models.max_dim(s["kind"]))
    D = models.Data(case, max(case["n"], models.min_points(s, d)), d, case["ny"])
    models.usable(s, D)
    rng = rng_of(case, 3)
    ny, n = D.ny, D.n
    dY = {}
    if s["kind"] in ("RMTB", "RMTC"):
        for k in range(min(case.get("grads", 0), d)):
            dY[k] = rng.uniform(-1, 1, (n, ny)) * D.ys / D.w[k]
    sm = retrain(s, D, D.Y, dY, **extra)
    Q = gen.scale(rng.uniform(-0.1 if s["kind"] in ("IDW", "RBF") else 0.0, 1.1 if s["kind"] in ("IDW", "RBF") else 1.0, (case["nq"], d)), D.xl)
    J = sm.predict_output_derivatives(Q)
    need(set(J) == {None} | set(dY), lambda: "keys %s" % list(J))
    for k, v in J.items():
        need(np.asarray(v).shape == (len(Q), n, ny), lambda: "shape %s for key %s" % (np.asarray(v).shape, k))
    return s, D, dY, sm, Q, J, rng


CASES = dict(n=st.integers(3, 14), d=st.integers(1, 3), ny=st.sampled_from([1, 2, 3, 5]), nq=st.integers(2, 5), design=gen.DESIGNS,
             box=st.sampled_from(gen.FAR_KINDS), fam=gen.FAMS, ye=st.integers(-2, 3))


def linear_judge(case, cond_ok, amp, **extra):
    """the map is linear: J . dy is exactly the change of the prediction for any dy, and J . data the prediction itself"""
    s, D, dY, sm, Q, J, rng = run(case, **extra)
    scale = max(np.abs(np.asarray(v)).max() for v in J.values())
    P = sm.predict_values(Q)
    tot = sum(np.einsum("qto,to->qo", J[k], (D.Y if k is None else dY[k])) for k in J)
    mag = sum(np.einsum("qto,to->qo", np.abs(J[k]), np.abs(D.Y if k is None else dY[k])) for k in J).max()
    tol = amp * mag
    close(tot, P, 1e-9, tol, "derivatives times training data vs prediction")
    for _ in range(2):
        key = [None] + list(dY)
        key = key[rng.randint(len(key))]
        base = D.Y if key is None else dY[key]
        t, o = rng.randint(D.n), rng.randint(D.ny)
        E = np.zeros_like(base)
        E[t, o] = max(np.abs(base).max(), 1e-3 * D.ys)
        if key is None:
            sm2 = retrain(s, D, D.Y + E, dY, **extra)
        else:
            sm2 = retrain(s, D, D.Y, {**dY, key: dY[key] + E}, **extra)
        got = np.einsum("qto,to->qo", J[key], E)
        close(got, sm2.predict_values(Q) - P, 1e-7, 4 * tol, "derivative wrt training datum (%s, %d, %d)" % (key, t, o))
    return True, [s["kind"], "ny%d" % D.ny, "grads%d" % len(dY)]


@sub(gen.cases(spec=models.any_spec(["IDW"]), **CASES), quick=160, rule=RULE)
def idw(case):
    return linear_judge(case, None, 1e-12)


@sub(gen.cases(spec=models.any_spec(["RBF"]), reg=st.sampled_from([1e-10, 1e-6, 1e-2]), **CASES), quick=400, rule=RULE)
def rbf(case):
    s = case["spec"]
    d = min(case["d"], models.max_dim("RBF"))
    D = models.Data(case, max(case["n"], models.min_points(s, d)), d, case["ny"])
    d0 = s["d0"] * D.w if s["aniso"] else s["d0"] * np.ones(d) * D.w.max()
    B = np.exp(-(((D.X[:, None] - D.X[None]) / d0) ** 2).sum(-1)) + case["reg"] * np.eye(D.n)
    P = {-1: np.zeros((D.n, 0)), 0: np.ones((D.n, 1)), 1: ref.basis("linear", D.X)}[s["deg"]]
    k = P.shape[1]
    c = np.linalg.cond(np.block([[B, P], [P.T, np.zeros((k, k))]]))
    if not c < 1e9:
        raise Discard("ill-conditioned")
    return linear_judge(case, None, 1e-12 + 1e-14 * c, reg=case["reg"])


@sub(gen.cases(spec=models.any_spec(["RMTB", "RMTC"]), grads=st.sampled_from([0, 0, 1, 2]), ds=DS, **dict(CASES, d=st.integers(1, 2))), quick=240, rule=RULE)
def splines_quadratic(case):
    """the solver of the derivatives: a name, or an object the outputs and the training data share"""
    s = dict(case["spec"], ao=2, solver="lu")
    reg = 1e-6
    d = min(case["d"], 2)
    D = models.Data(case, max(case["n"], models.min_points(s, d)), d, case["ny"])
    bs = [Basis1("b", s["order"], max(s["ncp"], s["order"])) if s["kind"] == "RMTB" else Basis1("c", s["ne"]) for _ in range(d)]
    S = Spline(bs, D.xl)
    H, terms = S.problem({0: (D.X, D.Y)}, reg, s["ew"], D.w ** 4, 0.5)
    c = solve_quadratic(H, terms)[2]
    if not c < 1e11:
        raise Discard("ill-conditioned")
    return linear_judge(dict(case, spec=s), None, (1e-6 if case["grads"] else 1e-8) + 1e-13 * c, regularization_weight=reg,
                        derivative_solver=solver_of(case))


@sub(gen.cases(spec=models.any_spec(["RMTB", "RMTC"]), grads=st.sampled_from([0, 0, 1]), ao=st.sampled_from([4, 4, 6]), ds=DS,
               **dict(CASES, d=st.integers(1, 2), n=st.integers(3, 9), box=st.sampled_from(["unit", "sym"]), ye=st.just(0),
                      fam=st.sampled_from(["rough", "smooth"]))), quick=120, rule=RULE)
def splines_nonlinear(case):
    """higher approximation order: local sensitivity, by central differences of retrained models"""
    s = dict(case["spec"], ao=case["ao"], solver="lu", ew=1e-2)
    extra = dict(regularization_weight=1e-3, nonlinear_maxiter=40, solver_tolerance=1e-12, derivative_solver=solver_of(case))
    case = dict(case, spec=s)
    s, D, dY, sm, Q, J, rng = run(case, **extra)
    scale = max(np.abs(np.asarray(v)).max() for v in J.values())
    used = 0
    for _ in range(3):
        key = [None] + list(dY)
        key = key[rng.randint(len(key))]
        base = D.Y if key is None else dY[key]
        t, o = rng.randint(D.n), rng.randint(D.ny)

        def pred(h):
            E = np.zeros_like(base)
            E[t, o] = h
            m = retrain(s, D, D.Y + E, dY, **extra) if key is None else retrain(s, D, D.Y, {**dY, key: base + E}, **extra)
            return m.predict_values(Q)
        out = []
        for h in (1e-2, 5e-3, 2.5e-3):
            out.append((pred(h) - pred(-h)) / (2 * h))
        r1, r2 = (4 * out[1] - out[0]) / 3, (4 * out[2] - out[1]) / 3
        err = np.abs(r2 - r1) + 0.1 * np.abs(out[2] - out[1])
        want = np.zeros_like(r2)
        want[:, o] = J[key][:, t, o]
        if np.abs(err).max() > 0.05 * scale:
            continue
        used += 1
        close(want, r2, 2e-3, 5 * err + 1e-3 * scale, "sensitivity to training datum (%s, %d, %d)" % (key, t, o))
    return used > 0, [s["kind"], "ny%d" % D.ny, "grads%d" % len(dY), "p%d" % case["ao"], case["ds"]]
