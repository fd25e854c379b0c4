"""P04: predicted variance derivatives vs finite differences of the same model's predicted variance."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref, models
from smt.surrogate_models import KRG, KPLS, KPLSK, GEKPLS

RULE = "well-conditioned trained model, variance at the query above 1e-6 of the process variance, difference quotient resolved"


def check_point(sm, q, xl, s2, labels):
    """q: one query row. s2: process variance (scale of the predicted variance)."""
    w = xl[:, 1] - xl[:, 0]
    d = len(w)
    ny = len(s2)
    got = np.asarray(sm.predict_variance_derivatives(q.copy()), float)
    if got.size != d * ny:
        raise Violation("variance derivative has shape %s for %d inputs, %d outputs" % (got.shape, d, ny))
    got = got.reshape(ny, d)
    return sum(check_output(lambda x, o=o: np.asarray(sm.predict_variances(x))[:, o:o + 1], got[o], q, w, s2[o]) for o in range(ny))


def check_output(f, got, q, w, s2):
    d = len(w)
    v = float(np.squeeze(f(q)))
    if v < 1e-6 * s2:
        return 0
    judged = 0
    for k in range(d):
        h = 1e-3 * w[k]
        ests = [float(np.squeeze(ref.fd(f, q, k, h * t)[0])) for t in (0.5, 0.2, 0.17, 0.11)]
        want = ests[1]
        spread = max(abs(e - want) for e in ests)
        scale = max(abs(want), 1e-3 * s2 / w[k])
        if not spread < 0.02 * scale:
            continue
        judged += 1
        tol = 1e-5 * abs(want) + 3 * spread + 1e-9 * s2 / w[k]
        if not abs(got[k] - want) <= tol:
            raise Violation("d var/dx%d: predicted %.10g, finite difference %.10g (tol %.2g)" % (k, got[k], want, tol))
    return judged


BASE = dict(n=st.integers(4, 14), design=gen.DESIGNS, box=st.sampled_from(gen.FAR_KINDS), fam=gen.FAMS, ye=st.integers(-3, 3),
            poly=st.sampled_from(["constant", "linear"]), noise=st.sampled_from([0.0, 0.0, 1e-6, 1e-2]), nq=st.integers(1, 3))


def run(case, kind, opts, d, ny=1):
    D = models.Data(case, max(case["n"], d + 4), d, ny)
    if np.any(np.std(D.Y, axis=0) < 1e-9 * np.abs(D.Y).max()):
        raise Discard("constant")
    models.usable(dict(kind=kind, poly=case["poly"], h=opts.get("n_comp", 1)), D)
    if kind == "GEKPLS":
        opts = dict(opts, xlimits=D.xl.copy(), delta_x=0.1, extra_points=1)
    sm = dict(KRG=KRG, KPLS=KPLS, KPLSK=KPLSK, GEKPLS=GEKPLS)[kind](poly=case["poly"], noise0=[case["noise"]], **opts, **gen.QUIET)
    sm.set_training_values(D.X, D.Y)
    if kind == "GEKPLS":
        for k in range(d):
            sm.set_training_derivatives(D.X, D.dY[:, k, :], k)
    sm.train()
    if not float(np.abs(sm.optimal_par["gamma"]).sum()) < 1e7:
        raise Discard("ill-conditioned")
    s2 = np.ravel(np.asarray(sm.optimal_par["sigma2"], float))
    rng = rng_of(case, 3)
    j = 0
    for _ in range(case["nq"]):
        u = rng.uniform(-0.3, 1.3, (1, d))
        if np.abs(u - D.U).min() < 0.01:   # |x - xi| kernels have kinks on coordinate planes through data
            u = u + 0.013
            if np.abs(u - D.U).min() < 0.005:
                continue
        j += check_point(sm, gen.scale(u, D.xl), D.xl, s2, [])
    return j > 0, [kind, opts.get("corr", ""), case["poly"], "d%d" % d, "ny%d" % ny]


@sub(gen.cases(corr=st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"]), d=st.integers(1, 4), ny=st.sampled_from([1, 1, 2, 3]),
               theta0=st.sampled_from([1e-2, 0.3, 2.0]), opt=st.sampled_from(["Cobyla", "TNC"]), **BASE), quick=900, rule=RULE)
def krg(case):
    return run(case, "KRG", dict(corr=case["corr"], theta0=[case["theta0"]] * case["d"], hyper_opt=case["opt"]), case["d"], case["ny"])


@sub(gen.cases(corr=st.sampled_from(["squar_exp", "abs_exp"]), kind=st.sampled_from(["KPLS", "KPLS", "KPLSK", "GEKPLS"]), d=st.integers(1, 5),
               h=st.integers(1, 3), **BASE), quick=600, rule=RULE)
def kpls(case):
    h = min(case["h"], case["d"])
    o = dict(n_comp=h)
    if case["kind"] in ("KPLS", "GEKPLS"):
        o["corr"] = case["corr"]
    return run(case, case["kind"], o, case["d"])
