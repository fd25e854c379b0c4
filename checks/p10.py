"""P10: minimum-energy splines vs an independent reference of their minimisation problem, plus metamorphic relations."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref
from splines import Basis1, Spline, solve_quadratic, objective, gradient, hessian
from smt.surrogate_models import RMTB, RMTC

RULE = "trained spline (reference system condition number below 1e11 where a reference solve is involved), judged at >= 4 points"
CFG = dict(model=st.sampled_from(["RMTB", "RMTC"]), d=st.sampled_from([1, 1, 2, 2, 3]), n=st.integers(3, 25), ny=st.sampled_from([1, 2, 3, 5]),
           box=st.sampled_from(gen.BOX_KINDS), design=st.sampled_from(["spread", "lhs", "grid"]), fam=gen.FAMS, ye=st.integers(-3, 3),
           p1=st.integers(3, 5), p2=st.integers(0, 4), same=st.booleans(), lsz=st.booleans())


def config(case, rng, **kw):
    """(options, reference space, box, d) from a case; sizes may differ per dimension."""
    rmtb = case["model"] == "RMTB"
    d = case["d"] if rmtb else min(case["d"], 2)
    xl = gen.box(rng, case["box"], d)
    if rmtb:
        order = [case["p1"]] * d if case["same"] else list(rng.randint(3, 6, d))
        ncp = [o + case["p2"] + (0 if case["same"] else int(rng.randint(0, 2))) for o in order]
        if d == 3:
            order, ncp = [min(o, 4) for o in order], [min(n, 6) for n in ncp]
        o = dict(order=np.array(order) if not case["same"] else order[0], num_ctrl_pts=ncp if not case["same"] else ncp[0])
        bases = [Basis1("b", a, b) for a, b in zip(order, ncp)]
    else:
        ne = [1 + case["p2"]] * d if case["same"] else list(rng.randint(1, 5, d))
        o = dict(num_elements=[int(v) for v in ne] if not case["same"] else ne[0])
        bases = [Basis1("c", int(a)) for a in ne]
    if not case["same"] and rmtb:
        o["num_ctrl_pts"] = [int(v) for v in ncp]
    o.update(xlimits=xl.copy(), print_global=False, **kw)
    cls = RMTB if rmtb else RMTC
    return cls, o, Spline(bases, xl), xl, d


def data(case, rng, xl, d, n, ny):
    U = gen.unit_design(rng, case["design"], n, d)
    Y = gen.outputs(rng, U, ny, case["fam"]) * 10.0 ** case["ye"]
    return U, gen.scale(U, xl), Y


@sub(gen.cases(ew=st.sampled_from([1e-4, 1e-2, 1.0, None]), reg=st.sampled_from([1e-14, 1e-8, 1e-4]), gw=st.sampled_from([0.5, 2.0, 0.0]),
               grads=st.sampled_from([0, 0, 1, 2]), smooth=st.booleans(), **CFG), quick=400, rule=RULE)
def quadratic_minimiser(case):
    """approx_order 2: the model is the unique minimiser of energy + squared misfit"""
    rng = rng_of(case)
    if case["ew"] is None and case["reg"] < 1e-5:
        case = dict(case, reg=1e-4)
    cls, o, S, xl, d = config(case, rng, approx_order=2, regularization_weight=case["reg"], grad_weight=case["gw"], solver="lu")
    w = xl[:, 1] - xl[:, 0]
    U, X, Y = data(case, rng, xl, d, case["n"], case["ny"])
    sm_ = rng.uniform(0.2, 3, d) if case["smooth"] else np.ones(d)
    if case["smooth"]:
        o["smoothness"] = sm_.tolist()
    if case["ew"] is None:
        o["min_energy"] = False
    else:
        # scale the energy weight to the box so that both terms matter
        o["energy_weight"] = case["ew"] = case["ew"] * float(np.exp(np.mean(np.log(w))) ** 4)
    dat = {0: (X, Y)}
    for k in range(min(case["grads"], d)):
        dat[k + 1] = (X, rng.uniform(-1, 1, Y.shape) * 10.0 ** case["ye"] / w[k])
    H, terms = S.problem(dat, case["reg"], case["ew"], sm_, case["gw"])
    sol, cs, c = solve_quadratic(H, terms)
    if not c < 1e11:
        raise Discard("ill-conditioned")
    sm = cls(**o)
    sm.set_training_values(X, Y)
    for k in range(min(case["grads"], d)):
        sm.set_training_derivatives(X, dat[k + 1][1], k)
    sm.train()
    Q = gen.scale(rng.rand(6, d), xl)
    ym = np.abs(Y).max() + np.abs(sol).max()
    want = S.mat(Q) @ sol
    close(sm.predict_values(Q), want, 1e-9, ym * (1e-9 + 1e-14 * c), "prediction vs minimiser")
    for k in range(d):
        wd = S.mat(Q, S.e(k)) @ sol
        close(sm.predict_derivatives(Q, k), wd, 1e-8, ym / w[k] * (1e-8 + 1e-13 * c), "slope vs minimiser")
    return True, [case["model"], "d%d" % d, "grads%d" % min(case["grads"], d), "ew" if case["ew"] is not None else "noew"]


def coefficients(sm, S, xl, ny):
    """Coefficients of the model in the reference space, from predictions on a dense grid; also checks membership of the space."""
    T = []
    for b in S.b:
        m = (3 * b.order + 2 if b.kind == "b" else 6)
        t = np.concatenate([(e + (np.arange(m) + 0.5) / m) / b.ne for e in range(b.ne)])
        T.append(t)
    G = np.stack([a.ravel() for a in np.meshgrid(*T, indexing="ij")], axis=1)
    X = gen.scale(G, xl)
    M = S.mat(X)
    Y = sm.predict_values(X)
    c, *_ = np.linalg.lstsq(M, Y, rcond=None)
    close(M @ c, Y, 0, 1e-8 * (np.abs(Y).max() + np.abs(c).max()) + 1e-300, "membership of the spline space")
    return c


@sub(gen.cases(order=st.sampled_from([4, 4, 6]), **dict(CFG, d=st.sampled_from([1, 2]), box=st.just("unit"), ye=st.just(0), n=st.integers(3, 16))), quick=160, rule=RULE)
def higher_order_minimiser(case):
    """approx_order 4, 6: the model decreases the objective below the quadratic start and is near its minimum"""
    rng = rng_of(case)
    p = case["order"]
    cls, o, S, xl, d = config(case, rng, approx_order=p, regularization_weight=1e-8, energy_weight=1e-3, solver="lu", nonlinear_maxiter=100,
                              solver_tolerance=1e-13)
    U, X, Y = data(case, rng, xl, d, case["n"], case["ny"])
    H, terms = S.problem({0: (X, Y)}, 1e-8, 1e-3, np.ones(d), 0.5)
    start, cs, c = solve_quadratic(H, terms)
    sm = cls(**o)
    sm.set_training_values(X, Y)
    sm.train()
    co = coefficients(sm, S, xl, case["ny"])
    for iy in range(case["ny"]):
        # reference Newton from the model's answer
        s = co[:, iy].copy()
        f0 = f = objective(H, terms, s, iy, p)
        fs = objective(H, terms, start[:, iy], iy, p)
        # a quadratic-problem solution is the start of the search: the answer must not be worse
        need(f0 <= fs * (1 + 1e-6) + 1e-9, lambda: "objective %.10g above that of the quadratic start %.10g" % (f0, fs))
        for _ in range(60):
            g = gradient(H, terms, s, iy, p)
            dlt = -np.linalg.lstsq(hessian(H, terms, s, iy, p), g, rcond=1e-14)[0]
            a = 1.0
            while a > 1e-8 and objective(H, terms, s + a * dlt, iy, p) > f:
                a /= 2
            if a <= 1e-8:
                break
            s = s + a * dlt
            f = objective(H, terms, s, iy, p)
        need(f0 - f <= 1e-4 * f0 + 1e-8, lambda: "objective %.12g but %.12g is attainable" % (f0, f))
    return True, [case["model"], "p%d" % p]


@sub(gen.cases(p=st.sampled_from([2, 4]), ext=st.booleans(), ew=st.sampled_from([1e-6, 1e-4, 1e-2]), **dict(CFG, n=st.integers(10, 30))), quick=240, rule=RULE)
def affine_reproduction(case):
    rng = rng_of(case)
    if case["model"] == "RMTB" and case["p1"] < 3:
        case = dict(case, p1=3)
    cls, o, S, xl, d = config(case, rng, approx_order=case["p"], energy_weight=case["ew"], solver="lu", extrapolate=case["ext"])
    w = xl[:, 1] - xl[:, 0]
    o["energy_weight"] = case["ew"] * float(np.exp(np.mean(np.log(w))) ** 4)
    U = gen.unit_design(rng, case["design"], case["n"], d)
    # only functions multilinear in the inputs have no energy: they are determined when these monomials are
    V = np.ones((len(U), 1))
    for k in range(d):
        V = np.hstack([V, V * U[:, k:k + 1]])
    if V.shape[0] < V.shape[1] or np.linalg.cond(V) > 1e3:
        raise Discard("not unisolvent")
    ys = 10.0 ** case["ye"]
    C, b = rng.uniform(-1, 1, (d, case["ny"])) * ys, rng.uniform(-1, 1, case["ny"]) * ys
    if case["lsz"] and case["seed"] % 3 == 0:
        C, b = C * 0, b * 0
    X, Y = gen.scale(U, xl), U @ C + b
    H, terms = S.problem({0: (X, Y)}, 1e-14, o["energy_weight"], np.ones(d), 0.5)
    sol, cs, c = solve_quadratic(H, terms)
    if not c < 1e12:
        raise Discard("ill-conditioned")
    # bias of the tiny regularisation itself
    bias = max(np.abs(S.mat(X) @ sol - Y).max() * 50, 0) + np.abs(Y).max() * c * 1e-14
    if case["p"] > 2:
        # the objective at the affine function is reg/2 |s|^2, which bounds every misfit^p at the minimum
        bias += 3 * np.linalg.cond(V) * (1e-14 * (sol ** 2).sum(0).max()) ** (1.0 / case["p"])
    if bias > 1e-3 * ys:
        raise Discard("regularisation bias")
    sm = cls(**o)
    sm.set_training_values(X, Y)
    sm.train()
    out = 0.4 if case["ext"] else 0.0
    Q = rng.uniform(-out, 1 + out, (8, d))
    q = Q @ C + b
    close(sm.predict_values(gen.scale(Q, xl)), q, 1e-7, 1e-6 * ys + bias * 10, "affine function reproduced")
    for k in range(d):
        got = sm.predict_derivatives(gen.scale(Q, xl), k) * w[k]
        close(got, np.tile(C[k], (len(Q), 1)), 1e-6, 1e-5 * ys + bias * 100, "slope of affine function")
    return True, [case["model"], "d%d" % d, "ext" if case["ext"] else "in"]


@sub(gen.cases(p=st.sampled_from([2, 4]), ext=st.booleans(), **CFG), quick=320, rule=RULE)
def smooth_and_extrapolates(case):
    rng = rng_of(case)
    cls, o, S, xl, d = config(case, rng, approx_order=case["p"], extrapolate=case["ext"], solver="lu")
    w = xl[:, 1] - xl[:, 0]
    o["energy_weight"] = 1e-4 * float(np.exp(np.mean(np.log(w))) ** 4)
    o["regularization_weight"] = 1e-10
    U, X, Y = data(case, rng, xl, d, case["n"], case["ny"])
    sm = cls(**o)
    sm.set_training_values(X, Y)
    sm.train()
    # continuously differentiable across every element boundary
    k = int(rng.randint(d))
    ne = S.b[k].ne
    mag = None
    if ne > 1:
        P = rng.uniform(0.05, 0.95, (ne - 1, d))
        P[:, k] = np.arange(1, ne) / ne
        e = np.zeros(d)
        e[k] = 1e-7
        A, B = gen.scale(P - e, xl), gen.scale(P + e, xl)
        ya, yb = sm.predict_values(A), sm.predict_values(B)
        da, db = sm.predict_derivatives(A, k) * w[k], sm.predict_derivatives(B, k) * w[k]
        # bound of the second derivative (per unit coordinate), sampled well inside the neighbouring elements
        T = rng.rand(40, d)
        s2 = 0.0
        f = 1e-3 / ne
        Tk = T.copy()
        Tk[:, k] = np.clip(Tk[:, k], 2 * f, 1 - 2 * f)
        ek = np.zeros(d)
        ek[k] = f
        dd = (sm.predict_derivatives(gen.scale(Tk + ek, xl), k) - sm.predict_derivatives(gen.scale(Tk - ek, xl), k)) * w[k] / (2 * f)
        s2 = np.abs(dd).max() * 20
        ym = max(np.abs(ya).max(), np.abs(da).max(), np.abs(Y).max())
        close(yb, ya, 0, 4e-7 * (np.abs(da).max() + s2 * 1e-6) + 1e-9 * ym, "value continuous across an element boundary")
        close(db, da, 0, 4e-7 * s2 + 1e-6 * ym, "slope continuous across an element boundary")
    # outside
    Q = rng.uniform(-0.6, 1.6, (8, d))
    N = np.clip(Q, 0, 1)
    Qx, Nx = gen.scale(Q, xl), np.clip(gen.scale(N, xl), xl[:, 0], xl[:, 1])
    base = sm.predict_values(Nx)
    slopes = [sm.predict_derivatives(Nx, j) for j in range(d)]
    ym = np.abs(base).max() + np.abs(Y).max() + max(np.abs(s).max() * w[j] for j, s in enumerate(slopes))
    want = base.copy()
    if case["ext"]:
        for j in range(d):
            want = want + slopes[j] * (Qx[:, j:j + 1] - Nx[:, j:j + 1])
    close(sm.predict_values(Qx), want, 1e-9, 1e-9 * ym, "linear continuation" if case["ext"] else "nearest boundary value")
    return True, [case["model"], "ext" if case["ext"] else "noext", "p%d" % case["p"]]


@sub(gen.cases(**dict(CFG, ny=st.just(1))), quick=160, rule=RULE)
def linear_in_outputs(case):
    rng = rng_of(case)
    cls, o, S, xl, d = config(case, rng, approx_order=2, regularization_weight=1e-8, solver="lu")
    w = xl[:, 1] - xl[:, 0]
    o["energy_weight"] = 1e-4 * float(np.exp(np.mean(np.log(w))) ** 4)
    U, X, Y = data(case, rng, xl, d, case["n"], 1)
    Y2 = rng.uniform(-1, 1, Y.shape) * 10.0 ** case["ye"]
    H, terms = S.problem({0: (X, Y)}, 1e-8, o["energy_weight"], np.ones(d), 0.5)
    c = solve_quadratic(H, terms)[2]
    if not c < 1e11:
        raise Discard("ill-conditioned")
    Q = gen.scale(rng.rand(6, d), xl)

    def fit(y):
        sm = cls(**{k: (v.copy() if isinstance(v, (list, np.ndarray)) else v) for k, v in o.items()})
        sm.set_training_values(X, y)
        sm.train()
        return sm.predict_values(Q)
    a, b = rng.uniform(-2, 2, 2)
    p1, p2, p3 = fit(Y), fit(Y2), fit(a * Y + b * Y2)
    ym = np.abs(Y).max() + np.abs(Y2).max() + np.abs(p1).max() + np.abs(p2).max()
    close(p3, a * p1 + b * p2, 1e-8, (1e-8 + 1e-14 * c) * ym, "superposition of outputs")
    both = fit(np.hstack([Y, Y2]))
    close(both, np.hstack([p1, p2]), 1e-8, (1e-8 + 1e-14 * c) * ym, "outputs fitted together or apart")
    return True, [case["model"], "d%d" % d]
