"""P19: random optimisation runs (objectives, boxes, mixed types, criteria, strategies, batch sizes, given or generated designs, evaluators): recorded objective calls against the returned history, feasibility, best point, what the surrogate was trained on, repeatability, quality of the chosen point against an independent multi-start"""
import numpy as np
from hypothesis import strategies as st
import gen, mixed, egorun
from core import sub, need, close, Discard, rng_of
from smt.applications import EGO

RULE = "at least one point was added by the optimiser"


def trim(spec):
    """the space-filling starts of the optimiser cost too much in many relaxed dimensions"""
    while mixed.width(spec) > 5:
        spec = spec[:-1]
    return spec


ST = dict(vars=st.one_of(st.integers(1, 3).map(lambda d: ["F"] * d), st.lists(st.sampled_from(["F", "I", 2, 3, 4, "F", "I"]), min_size=1, max_size=4).map(trim)),
          crit=st.sampled_from(["EI", "SBO", "UCB"]), itpar=st.sampled_from([(1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (1, 5)]), qei=st.sampled_from(["KB", "KBLB", "KBUB", "KBRand", "CLmin"]), design=st.sampled_from(["x", "xy", "n"]),
          sm=st.sampled_from(["KRG", "KRG", "KPLS", "KPLSK"]), box=st.sampled_from(["unit", "sym", "shift", "wide"]), ye=st.sampled_from([0, 0, 2, -3]), ev=st.booleans(), rs=st.sampled_from(["int", "state"]), n=st.sampled_from([5, 7, 9]), weak=st.sampled_from([False] * 5 + [True]),
          typed=st.booleans(), tun=st.sampled_from([False] * 5 + [True]), intx=st.booleans())


def setup(case):
    rng = rng_of(case, 1)
    spec = case["vars"]
    cont = all(v == "F" for v in spec)
    types = None if cont and not case["typed"] else mixed.xtypes(spec)
    if cont:
        B = gen.box(rng, case["box"], len(spec))
        if case["intx"]:
            B = np.stack([np.floor(B[:, 0]), np.floor(B[:, 0]) + np.maximum(1, np.ceil(B[:, 1] - B[:, 0]))], 1)
        lim = B
        spec_l = B.tolist()
    else:
        spec_l = mixed.limits(spec, rng, "list", small=True)
        num = not any(isinstance(v, int) for v in spec)
        lim = np.array(spec_l, float) if num else mixed.limits(spec, rng_of(case, 2), "object", small=True)
        if not num:
            spec_l = list(lim)
    n = case["n"] + mixed.width(spec) // 2
    X0 = mixed.folded(spec, spec_l, rng, n)
    if cont:
        X0 = gen.scale(gen.unit_design(rng, "spread", n, len(spec)), lim)
        if case["intx"]:
            X0 = np.unique(np.round(X0), axis=0)
            if len(X0) < 4:
                raise Discard("few integer points")
    return rng, spec, cont, types, lim, spec_l, len(X0), X0


def run(case, st_):
    rng, spec, cont, types, lim, spec_l, n, X0 = st_
    rng = rng_of(case, 3)
    obj = egorun.Objective(spec, spec_l, rng, 10.0 ** case["ye"], rng.uniform(-1, 1) * 10.0 ** case["ye"])
    poly = str(rng.choice(["constant", "linear"])) if cont else "constant"
    sm = egorun.surrogate(case["sm"], mixed.width(spec), str(rng.choice(["squar_exp", "matern52"])) if case["sm"] == "KRG" else "squar_exp", poly)
    s = int(case["seed"] % 1000)
    o = dict(n_iter=case["itpar"][0], criterion=case["crit"], n_parallel=case["itpar"][1], qEI=case["qei"], surrogate=sm, xlimits=lim, n_start=1 if case["weak"] else 4, n_max_optim=1 if case["weak"] else 20,
             random_state=s if case["rs"] == "int" else np.random.RandomState(s), enable_tunneling=case["tun"] and case["crit"] == "EI")
    ev = egorun.Counting() if case["ev"] else None
    if ev is not None:
        o["evaluator"] = ev
    if types is not None:
        o["xtypes"] = types
    xd = yd = None
    if case["design"] == "n":
        o["n_doe"] = n
    else:
        xd = X0.astype(int) if cont and case["intx"] else X0.copy()
        o["xdoe"] = xd
        if case["design"] == "xy":
            yd = obj.values(X0)
            o["ydoe"] = yd
    keep = [None if a is None else a.copy() for a in (xd, yd, lim)]
    ego = EGO(**o)
    try:
        res = ego.optimize(obj.fun())
    except Exception as e:
        if str(e) == "'C'" or "attempts to train" in str(e) or "ill conditioned" in str(e) or "undetermined" in str(e):
            raise Discard("surrogate cannot be fitted")
        raise
    for a, k, w in zip((xd, yd, lim), keep, ("xdoe", "ydoe", "xlimits")):
        need(a is None or np.array_equal(a, k), "the caller's %s was changed" % w)
    return ego, res, obj, sm, ev


def decode(spec, X):
    F, tie = mixed.nearest(spec, X)
    need(np.array_equal(mixed.encode(spec, F), X), "history holds points that encode no choice")
    return F


@sub(gen.cases(**ST), quick=160, thorough=4000, rule=RULE)
def history(case):
    st_ = setup(case)
    rng, spec, cont, types, lim, spec_l, n, X0 = st_
    ego, (x_opt, y_opt, ind, X, Y), obj, sm, ev = run(case, st_)
    want = n + case["itpar"][0] * case["itpar"][1]
    need(X.ndim == 2 and X.shape[1] == mixed.width(spec) and Y.shape == (len(X), 1), "history has shapes %s %s" % (X.shape, Y.shape))
    F = decode(spec, X)
    if len(X) != want:
        need(case["weak"] and n <= len(X) < want, "history holds %d points, expected %d" % (len(X), want))
    short = len(X) != want
    mixed.feasible(spec, spec_l, F, "history", need)
    if case["design"] != "n":
        need(np.array_equal(F[:n], X0), "history does not start with the initial design")
    need(np.array_equal(Y, obj.values(F)), "recorded outputs are not the objective at the recorded inputs")
    calls = np.vstack([np.atleast_2d(c) for c in obj.calls]) if obj.calls else np.empty((0, len(spec)))
    mixed.feasible(spec, spec_l, calls, "objective call", need)
    if not short:
        first = n if case["design"] == "xy" else 0
        need(np.array_equal(calls, F[first:]), "the objective was called %d times at points other than the %d of the history" % (len(calls), len(F) - first))
        if ev is not None:
            need([len(r) for r in ev.runs] == ([n] if not first else []) + [case["itpar"][1]] * case["itpar"][0], "evaluator ran batches of %s points" % [len(r) for r in ev.runs])
    need(ind == int(np.argmin(Y)) and np.array_equal(np.ravel(y_opt), Y[ind]) and np.array_equal(np.ravel(x_opt), F[ind]), "returned optimum %s %s (index %s) is not the best recorded point" % (x_opt, y_opt, ind))
    if not short:
        want_sets = [n + k * case["itpar"][1] + p for k in range(case["itpar"][0]) for p in range(case["itpar"][1])]
        snaps = sm.snaps
        need(len(snaps) == len(want_sets), "surrogate was trained %d times" % len(snaps))
        for (xs, ys), m, in [(s[0], s[1]) for s in snaps]:
            k = len(xs)
            need(np.array_equal(xs, X[:k]), "surrogate was trained on points other than the history so far")
        for i, ((xs, ys), m) in enumerate(snaps):
            done = n + (i // case["itpar"][1]) * case["itpar"][1]
            need(len(xs) == want_sets[i], "training %d of the surrogate has %d points" % (i, len(xs)))
            need(np.array_equal(ys[:done], Y[:done]), "surrogate was trained on outputs other than the history so far")
    if case["seed"] % 3 == 0 and case["sm"] != "KPLSK":  # KPLSK draws its own starting values
        np.random.seed(case["seed"] % 2 ** 31 + 1)
        ego2, (xo2, yo2, i2, X2, Y2), obj2, _, _ = run(case, st_)
        need(np.array_equal(X2, X) and np.array_equal(Y2, Y) and i2 == ind and np.array_equal(xo2, x_opt), "the same random state gives another run")
    return len(X) > n, ["mixed" if not cont else "cont", "short" if short else "full"]


@sub(gen.cases(d=st.integers(1, 3), n=st.sampled_from([6, 10, 14]), crit=st.sampled_from(["EI", "SBO", "UCB"]), box=st.sampled_from(["unit", "shift"]), ye=st.sampled_from([0, 1, -2])), quick=120, thorough=2000, rule="the criterion varies over the domain")
def choice(case):
    """the added point is as good for the criterion as what an independent multi-start reaches"""
    from scipy.optimize import minimize
    rng = rng_of(case, 5)
    d = case["d"]
    B = gen.box(rng, case["box"], d)
    obj = egorun.Objective(["F"] * d, B.tolist(), rng, 10.0 ** case["ye"])
    X0 = gen.scale(gen.unit_design(rng, "spread", case["n"], d), B)
    sm = egorun.surrogate("KRG", d)
    ego = EGO(n_iter=1, criterion=case["crit"], surrogate=sm, xlimits=B, n_start=20, xdoe=X0, random_state=int(case["seed"] % 9999))
    _, _, _, X, Y = ego.optimize(obj.fun())
    m = sm.snaps[0][1]
    fmin = Y[:-1].min()
    from scipy.stats import norm

    def crit(x):
        x = np.atleast_2d(x)
        mu = m.predict_values(x)[:, 0]
        if case["crit"] == "SBO":
            return mu
        s = np.sqrt(m.predict_variances(x)[:, 0])
        if case["crit"] == "UCB":
            return mu - 3 * s
        z = np.where(s > 0, (fmin - mu) / np.where(s > 0, s, 1), 0)
        return np.where(s > 0, -((fmin - mu) * norm.cdf(z) + s * norm.pdf(z)), 0.0)
    R = gen.scale(rng.rand(400, d), B)
    cr = crit(R)
    got = crit(X[-1:])[0]
    span = cr.max() - min(cr.min(), got)
    if not span > 1e-9 * 10.0 ** case["ye"]:
        return False, ["flat"]
    tol = 0.02 * span
    better = np.mean(cr < got - tol)
    need(better < 0.5, "%.0f%% of random points are better than the chosen one" % (100 * better))
    best = []
    for i in range(24):
        r = minimize(lambda x: float(crit(x)[0]), R[i], method="SLSQP", bounds=B, options={"maxiter": 200})
        if r.success:
            best.append(float(crit(np.clip(r.x, B[:, 0], B[:, 1]))[0]))
    if len(best) < 12:
        raise Discard("local searches fail")
    q = np.mean(np.array(best) < got - tol)
    need(q < 0.55, "%.0f%% of single local searches reach a better point than the chosen one (%.6g, best %.6g)" % (100 * q, got, min(best)))
    return True, [case["crit"], "multi" if q or np.std(best) > tol else "uni"]
