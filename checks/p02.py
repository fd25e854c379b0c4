"""P02: predicted derivatives vs finite differences of the same model's predicted values."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref, models

RULE = "trained model with at least one query point whose finite-difference estimate is resolved (not round-off dominated)"


def check_derivs(sm, Xq, xl, labels, rtol=2e-5, key=None, step=1e-3):
    """Compare on every query row; the finite difference's own error estimate widens the tolerance."""
    w = xl[:, 1] - xl[:, 0]
    n, d = Xq.shape
    judged = 0
    Y = np.asarray(sm.predict_values(Xq))
    for k in range(d):
        got = np.asarray(sm.predict_derivatives(Xq, k))
        if got.shape != Y.shape:
            raise Violation("derivative shape %s, values %s" % (got.shape, Y.shape), key)
        h = step * w[k]
        want, e1 = ref.fd(sm.predict_values, Xq, k, h)
        want2, e2 = ref.fd(sm.predict_values, Xq, k, h / 8)
        want3, _ = ref.fd(sm.predict_values, Xq, k, h / 9.3)
        want4, _ = ref.fd(sm.predict_values, Xq, k, h / 7.1)
        ymag = np.abs(Y).max(axis=0) + np.abs(Y)
        # round-off in the difference quotient, estimated from the spread of two step sizes
        spread = np.maximum(np.abs(want - want2), 3 * np.maximum(np.abs(want3 - want2), np.abs(want4 - want2)))
        noise = 1e-13 * ymag / (h / 8)
        scale = np.abs(want2) + np.abs(want2).max(axis=0)
        tol = rtol * scale + 3 * spread + noise * 50 + 1e-12 * ymag / w[k]
        resolved = spread + noise < 0.02 * scale + 1e-300
        err = np.abs(got - want2)
        bad = resolved & ~(err <= tol)
        judged += int(resolved.sum())
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, err / tol, 0)), err.shape)
            raise Violation("d/dx%d at row %d output %d: predicted %.10g, finite difference %.10g (tol %.2g)" % (
                k, i[0], i[1], got[i], want2[i], tol[i]), key)
    return judged


def run(case, kinds_ny=True):
    s = case["spec"]
    k = s["kind"]
    d = min(case["d"], models.max_dim(k))
    if k == "GEKPLS":
        d = max(d, 2)
    ny = 1 if models.single_output(k) else case["ny"]
    n = max(case["n"], models.min_points(s, d) + (4 if k in ("RMTB", "RMTC") else 0))
    if k in ("RMTB", "RMTC") and case["box"] in ("wide", "tiny", "mixed"):
        s = dict(s, solver="lu")
    D = models.Data(case, n, d, ny)
    if np.any(np.std(D.Y, axis=0) < 1e-9 * np.abs(D.Y).max()):
        raise Discard("constant")
    sm = models.trained(s, case, D)
    rng = rng_of(case, 5)
    Q = rng.uniform(-0.3, 1.3, (case["nq"], d))
    # keep off kinks: element boundaries / domain boundary of splines, training points of IDW
    if k in ("RMTB", "RMTC"):
        m = s["ne"] if k == "RMTC" else max(s["ncp"], s["order"]) - s["order"] + 1
        fr = (Q * m) - np.round(Q * m)
        Q = np.where(np.abs(fr) < 0.02, Q + 0.05 / m, Q)
        if case.get("edge"):      # right beside an element boundary or the edge of the domain
            j = rng.randint(0, m + 1, Q.shape) / m
            e = 10.0 ** rng.uniform(-3.5, -2.5, Q.shape) * rng.choice([-1, 1], Q.shape) / m
            Q = np.where(rng.rand(*Q.shape) < 0.6, j + e, Q)
            j = check_derivs(sm, gen.scale(Q, D.xl), D.xl, [], step=6e-5 / m)
            return j > 0, [k, "edge"]
    if k in ("IDW",):
        for i in range(len(Q)):
            if np.min(np.linalg.norm((D.U - Q[i]), axis=1)) < 0.02:
                Q[i] += 0.05
    j = check_derivs(sm, gen.scale(Q, D.xl), D.xl, [])
    return j > 0, [k, "ny%d" % ny, "nq%d" % min(case["nq"], 3), "d%d" % d]


def mk(kinds, box=st.sampled_from(gen.FAR_KINDS), **kw):
    return gen.cases(spec=models.any_spec(kinds), n=st.integers(4, 14), d=st.integers(1, 4), ny=st.sampled_from([1, 2, 3, 5]),
                     nq=st.integers(1, 6), design=gen.DESIGNS, box=box, fam=gen.FAMS, ye=st.integers(-2, 3), **kw)


@sub(mk(["LS", "QP", "IDW", "RBF"]), quick=1200, rule=RULE)
def simple_models(case):
    return run(case)


@sub(mk(["KRG", "KPLS", "KPLSK", "GEKPLS"]), quick=600, rule=RULE)
def kriging(case):
    s = case["spec"]
    s = dict(s, corr="squar_exp", poly=s["poly"] if s["poly"] != "quadratic" else "linear")
    return run(dict(case, spec=s))


@sub(mk(["MFK", "MFKPLS", "MFKPLSK"]), quick=300, rule=RULE)
def multi_fidelity(case):
    s = case["spec"]
    s = dict(s, corr="squar_exp", rho="constant", poly=s["poly"] if s["poly"] != "quadratic" else "linear")
    return run(dict(case, spec=s))


@sub(mk(["GENN"]), quick=100, rule=RULE)
def neural_net(case):
    return run(case)


@sub(mk(["RMTB", "RMTC"], edge=st.booleans()), quick=900, rule=RULE)
def splines(case):
    return run(case)


@sub(gen.cases(model=st.sampled_from(["MFK", "MFK", "MFKPLS", "MFKPLSK"]), L=st.sampled_from([3, 1, 4]), d=st.sampled_from([2, 1, 3]), n=st.sampled_from([5, 8]), corr=st.just("squar_exp"), rho=st.just("constant"),
               poly=st.sampled_from(["constant", "linear"]), box=st.sampled_from(gen.BOX_KINDS), ye=st.sampled_from([0, 3, -3]), h=st.sampled_from([1, 2]), theta=st.sampled_from(["one", "perlevel", "full"]),
               opt=st.just("Cobyla"), order=st.booleans()), quick=120, rule=RULE)
def levels(case):
    """more than two levels of fidelity"""
    import cokrig
    rng = rng_of(case, 1)
    c, d = case, case["d"]
    Us, X, Y, xl, s = cokrig.make_data(c, rng)
    if c["model"] != "MFK" and not models.pls_ok(X[-1], Y[-1], min(c["h"], d)):
        raise Discard("fewer PLS components than requested")
    o, corr = cokrig.options(c, c["L"], d, rng)
    sm = cokrig.train(cokrig.CL[c["model"]](**o), X, Y, rng)
    j = check_derivs(sm, gen.scale(rng.uniform(-0.2, 1.2, (4, d)), xl), xl, [])
    return j > 0, [c["model"], "levels:%d" % c["L"]]
