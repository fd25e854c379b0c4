"""P17: mixtures of experts on random data: experts re-trained from the reported clusters, weights recomputed in log space, recombination, variances, validation choice, Heaviside factor, filters"""
import numpy as np
from hypothesis import strategies as st
import gen, models
from core import sub, need, close, Discard, rng_of
from smt.applications import MOE
from smt.applications.moe import MOESurrogateModel
from smt.applications.application import SurrogateBasedApplication

TYPES = SurrogateBasedApplication._surrogate_type
VAR = ["KPLS", "KPLSK", "KRG"]
ALL = ["KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW", "RMTB", "RMTC"]
SENS = ("KRG", "KPLS", "KPLSK", "RBF")   # rounding is amplified by the hyperparameter search or the conditioning
RULE = "two or more clusters hold data and no expert choice is a near tie"
LISTS = [["LS"], ["KRG"], ["LS", "QP"], ["LS", "IDW"], ["KPLS"], ["QP", "IDW"], ["KRG", "LS"], ["KRG", "KPLS", "KPLSK"], ["RMTC", "LS"], ["RMTB"], ["IDW", "RBF"], ["QP", "LS", "IDW"]]
ST = dict(d=st.sampled_from([2, 1, 3]), n=st.sampled_from([60, 40, 90]), K=st.sampled_from([2, 3, 1, 4]), box=st.sampled_from(["unit", "sym", "shift", "ranges"]), ye=st.sampled_from([0, 2, -2]), api=st.sampled_from(["MOE", "wrapper"]),
          given=st.sampled_from(["set", "options"]), test=st.booleans(), ct=st.booleans())


def data(c, rng):
    d, n = c["d"], max(c["n"], 25 * c["K"])
    if c["d"] == 3:
        n = max(n, 35 * c["K"])
    U = gen.unit_design(rng, "spread", n, d)
    if c["box"] == "ranges":                # one input spans a million times the range of another
        hi = 10.0 ** rng.permutation(np.linspace(-1, 5, d)) if d > 1 else np.array([1e4])
        xl = np.stack([np.zeros(d), hi], 1)
    else:
        xl = gen.box(rng, c["box"], d)
    a = rng.uniform(1, 3, d)
    w = rng.uniform(3, 8)
    fam = rng.randint(3)
    f = lambda U: 10.0 ** c["ye"] * ([np.sin(U @ a), U[:, 0] ** 2, 0 * U[:, 0]][fam] + np.where(U[:, 0] > 0.5, w * (U[:, 0] - 0.5), -U[:, -1]) + np.where(U @ a > a.sum() / 2, 1.0, 0))
    return U, gen.scale(U, xl), f(U)[:, None], xl, f


def build(c, rng, X, Y, f, xl, **opts):
    np.random.seed(c["seed"] % 2 ** 31)
    o = dict(n_clusters=c["K"], **opts)
    extra = None
    if c["test"]:
        T = rng.rand(c.get("rows", 8), X.shape[1])
        o.update(xtest=gen.scale(T, xl), ytest=f(T)[:, None])
    if c["ct"]:
        o["ct"] = extra = np.hstack([Y, rng.uniform(0.2, 1, (1, 1)) * X[:, :1]])[:, -1:] + 0.0
    if c["given"] == "options":
        o.update(xt=X.copy(), yt=Y.copy())
    if c["api"] == "MOE":
        sm = MOE(**o)
    else:
        sm = MOESurrogateModel(print_global=False, **o)
    if c["given"] == "set":
        sm.set_training_values(X.copy(), Y.copy() if rng.rand() < 0.5 else Y[:, 0].copy())
    return sm, o, extra if extra is not None else Y


def train(sm):
    try:
        sm.train()
    except Exception as e:
        if "Clustering not converged" in str(e) or "attempts to train" in str(e) or "singular" in str(e).replace("allow_singular", ""):
            raise Discard("training gave up")
        g = getattr(getattr(sm, "moe", sm), "cluster", None)
        if "positive" in str(e) and g is not None:
            for C in g.covariances_:
                q = np.sqrt(np.diag(C))
                if np.linalg.cond(C / q[:, None] / q) > 1e7:     # inputs dependent within a cluster, whatever their units
                    raise Discard("degenerate cluster")
        raise
    return sm


def weights(moe, x, factor):
    """responsibilities of the reported mixture, marginalised to the inputs, in log space"""
    g, d = moe.cluster, x.shape[1]
    L = []
    for w, m, C in zip(g.weights_, g.means_, g.covariances_):
        S = factor * C[:d, :d]
        r = x - m[:d]
        q = np.sqrt(np.diag(S))
        S, r = S / q[:, None] / q, r / q
        if np.linalg.cond(S) > 1e10:
            raise Discard("degenerate cluster")
        L.append(np.log(w) - 0.5 * np.einsum("ij,ij->i", r, np.linalg.solve(S, r.T).T) - 0.5 * np.linalg.slogdet(2 * np.pi * S)[1] - np.log(q).sum())
    L = np.array(L).T
    W = np.exp(L - L.max(axis=1)[:, None])
    return W / W.sum(axis=1)[:, None], np.sort(L, axis=1)


def expert(name, x, y, X):
    kw = dict(print_global=False)
    if name in ("RMTB", "RMTC"):
        kw["xlimits"] = np.stack([X.min(0), X.max(0)], 1)
    sm = TYPES[name](**kw)
    sm.set_training_values(x, y)
    sm.train()
    return sm


def reference(moe, names, X, Y, C, test):
    """name and independently trained expert of every cluster"""
    held = np.zeros(len(X), bool)
    if not test:
        held[::10] = True
    out, stage = [], []
    lab = moe.cluster.predict(np.hstack([X, C]))
    K = len(moe.cluster.weights_)
    for k in range(K):
        own = np.flatnonzero((lab == k) & ~held)
        if len(own) < 12:
            raise Discard("tiny cluster")
        val, tr = own[::10], np.delete(own, np.arange(0, len(own), 10))
        cand = []
        for nm in names:
            m = expert(nm, X[tr], Y[tr], X)
            cand.append((float(np.linalg.norm(m.predict_values(X[val]) - Y[val])), nm, m))
        cand.sort(key=lambda t: t[0])
        if len(cand) > 1 and any(t[1] in SENS for t in cand):
            # rounding moves these scores: any choice that is not clearly worse will do
            own_nm = [n for n in TYPES if TYPES[n] is type(moe._experts[k])]
            lim = max(3 * min([t[0] for t in cand if t[1] not in SENS], default=np.inf), 0)
            ok = [t for t in cand if t[1] in own_nm and (t[1] in SENS and t[0] <= max(3 * cand[0][0], 0.1 * np.ptp(Y)) or t[1] not in SENS and t[0] <= 1e-9 * np.ptp(Y) + min([u[0] for u in cand if u[1] not in SENS]) * (1 + 1e-6))]
            need(ok or cand[0][1] in SENS and own_nm and own_nm[0] in SENS and lim == np.inf, "expert of cluster %d is %s, validation errors %s" % (k, own_nm, [t[:2] for t in cand]))
            cand = ok or [t for t in cand if t[1] in own_nm]
        elif len(cand) > 1 and cand[1][0] - cand[0][0] <= 1e-6 * (1e-300 + np.abs(Y).max() + cand[0][0]):
            raise Discard("near tie between experts")
        full = own if test else np.flatnonzero(lab == k)
        if test:
            full = tr
        nm = cand[0][1]
        stage.append((nm, cand[0][2]))
        if nm in SENS:
            # the search of the hyperparameters amplifies rounding: take the expert itself, check its data
            e = moe._experts[k]
            need(type(e) is TYPES[nm], "expert of cluster %d is %s instead of %s" % (k, type(e).__name__, nm))
            a, b = e.training_points[None][0]
            D = np.hstack([np.reshape(a, (-1, X.shape[1])), np.reshape(b, (-1, 1))])
            W = np.hstack([X, Y])[full]
            need(D.shape == W.shape and np.array_equal(D[np.lexsort(D.T)], W[np.lexsort(W.T)]), "expert of cluster %d is not trained on the data of its cluster" % k)
            if models.coef_size(e) > 1e10:
                raise Discard("ill-conditioned expert")
            out.append((nm, e))
        else:
            out.append((nm, cand[0][2] if test else expert(nm, X[full], Y[full], X)))
    return out, stage


@sub(gen.cases(names=st.sampled_from(LISTS), smooth=st.sampled_from([True, True, False]), heav=st.sampled_from([False, False, True]), var=st.sampled_from([True, True, False]), how=st.sampled_from(["allow", "deny"]), far=st.sampled_from([0.3, 5.0, 300.0]), rows=st.sampled_from([8, 1, 3, 25]), **ST),
     quick=240, rule=RULE)
def recombination(case):
    rng = rng_of(case, 1)
    c = dict(case)
    U, X, Y, xl, f = data(c, rng)
    names = [k for k in ALL if k in c["names"]]
    if c["d"] == 3:
        names = [k for k in names if k not in ("RMTB", "RMTC")]
    var = c["var"] and any(k in VAR for k in names)
    want = [k for k in names if k in VAR] if var else names
    if not want:
        raise Discard("no expert")
    filt = dict(allow=names) if c["how"] == "allow" else dict(deny=[k for k in ALL if k not in names])
    sm, o, C = build(c, rng, X, Y, f, xl, smooth_recombination=c["smooth"], heaviside_optimization=c["heav"], variances_support=var, **filt)
    try:
        train(sm)
    except (Discard, AssertionError):
        raise
    except Exception as e:
        # an expert cannot be built from the few points of a cluster
        moe = sm if c["api"] == "MOE" else sm.moe
        cl = getattr(moe, "cluster", None)
        if cl is not None and hasattr(cl, "weights_") and min(np.bincount(cl.predict(np.hstack([X, C])), minlength=c["K"])) < 20:
            raise Discard("tiny cluster")
        raise
    moe = sm if c["api"] == "MOE" else sm.moe
    need(len(moe.cluster.weights_) == c["K"], "%d clusters instead of %d" % (len(moe.cluster.weights_), c["K"]))
    experts, stage = reference(moe, want, X, Y, C, c["test"])
    what = "%s of %s (K=%d, %s)" % (c["api"], "+".join(want), c["K"], "smooth" if c["smooth"] else "hard")
    factor = moe.heaviside_factor
    if c["heav"] and c["smooth"] and c["K"] > 1:
        sens = any(n in SENS for n, _ in experts)
        if c["test"] or not sens:
            # judged on the test data, or on the tenth of the data held out, by the experts of that moment
            xt, yt = (o["xtest"], o["ytest"]) if c["test"] else (X[::10], Y[::10])
            then = [e.predict_values(xt) for _, e in (experts if c["test"] else stage)]
            size = max(np.linalg.norm(yt), np.linalg.norm(then) / 10)
            err = lambda h: np.linalg.norm(yt - combine(weights(moe, xt, h)[0], then, True))
            es = [err(h) for h in np.linspace(0.1, 2.1, 21)]
            need(max(es) < 1e-5 * np.linalg.norm(yt) or err(factor) <= min(es) * (1.01 if sens else 1 + 1e-6) + size * (1e-3 if sens else 1e-7),
                 "%s: Heaviside factor %g has test error %g, the best factor %g" % (what, factor, err(factor), min(es)))
        need(0.099 <= factor <= 2.101, "%s: Heaviside factor %g" % (what, factor))
    else:
        need(factor == 1.0, "%s: Heaviside factor %g without optimisation" % (what, factor))
    m = 12
    Q = np.vstack([rng.rand(m // 2, c["d"]), 0.5 + c["far"] * rng.uniform(-1, 1, (m - m // 2, c["d"]))])
    xq = gen.scale(Q, xl)
    W, L = weights(moe, xq, factor)
    if c["K"] > 1:
        # next to where the two most likely clusters are equally likely
        near = []
        for _ in range(6):
            a, b = rng.rand(2, c["d"])
            g = lambda t: weights(moe, gen.scale((a + t * (b - a))[None], xl), factor)
            ia = g(0.0)[0].argmax()
            if g(1.0)[0].argmax() != ia:
                lo, hi = 0.0, 1.0
                for _ in range(40):
                    t = 0.5 * (lo + hi)
                    lo, hi = (t, hi) if g(t)[0].argmax() == ia else (lo, t)
                e = 10.0 ** rng.uniform(-5, -2)
                near += [a + (lo - e) * (b - a), a + (hi + e) * (b - a)]
        if near:
            xn = gen.scale(np.array(near), xl)
            Wn, Ln = weights(moe, xn, factor)
            xq, W, L = np.vstack([xq, xn]), np.vstack([W, Wn]), np.vstack([L, Ln])
    if c["K"] > 1 and not c["smooth"]:
        xq, W = xq[L[:, -1] - L[:, -2] > 1e-6], W[L[:, -1] - L[:, -2] > 1e-6]
    P = [e.predict_values(xq) for _, e in experts]
    got = sm.predict_values(xq if c["d"] > 1 or rng.rand() < 0.5 or c["api"] == "MOE" else xq[:, 0])
    judge(got, combine(W, P, c["smooth"]), P, experts, "%s: prediction" % what, np.ptp(Y), W)
    if var:
        V = [e.predict_variances(xq) for _, e in experts]
        judge(sm.predict_variances(xq), combine(W, V, c["smooth"], 2), V, experts, "%s: variance" % what, np.ptp(Y) ** 2, W)
    return c["K"] > 1, ["K:%d" % c["K"], "names:%s" % "+".join(want), "smooth:%s" % c["smooth"], "var:%s" % var]


def combine(W, P, smooth, power=1):
    P = np.hstack(P)
    if smooth:
        return np.sum(W ** power * P, axis=1)[:, None]
    return P[np.arange(len(P)), W.argmax(axis=1)][:, None]


def judge(got, want, P, experts, what, scale, W):
    need(np.shape(got) == want.shape, "%s: shape %s" % (what, np.shape(got)))
    sens = any(n in SENS for n, _ in experts)
    # rounding of the weights matters where they fall steeply
    big = np.abs(np.hstack(P)).max(axis=1)[:, None]
    close(got, want, 0, (2e-3 if sens else 1e-6) * (scale + big), what)


@sub(gen.cases(allow=st.lists(st.sampled_from(ALL), max_size=4, unique=True), deny=st.lists(st.sampled_from(ALL), max_size=5, unique=True), der=st.booleans(), var=st.booleans()), quick=120, rule="every case")
def filters(case):
    """the experts considered are exactly the allowed, not denied ones that support what is asked for"""
    want = [k for k in ALL if (not case["allow"] or k in case["allow"]) and k not in case["deny"] and (not case["var"] or k in VAR)]
    o = dict(allow=case["allow"], deny=case["deny"], derivatives_support=case["der"], variances_support=case["var"], n_clusters=1)
    rng = rng_of(case, 2)
    X = rng.rand(12, 1)
    moe = MOE(xt=X, yt=X ** 2, **o)
    if want:
        need(sorted(moe.enabled_experts) == sorted(want), "experts %s instead of %s" % (moe.enabled_experts, want))
        return True
    try:
        moe.train()
    except ValueError:
        return True, ["empty"]
    need(False, "an empty list of experts was not refused")


@sub(gen.cases(api=st.sampled_from(["MOE", "wrapper"]), kind=st.sampled_from(["variances", "clusters", "rows", "nothing", "ctrows"]), n=st.integers(15, 45), smooth=st.booleans()), quick=40, rule="every case")
def refusals(case):
    rng = rng_of(case, 3)
    np.random.seed(case["seed"] % 2 ** 31)
    X = rng.rand(case["n"], 2)
    Y = (X @ [1.0, 2.0])[:, None]
    o = dict(allow=["LS"], smooth_recombination=case["smooth"], n_clusters=1)
    k = case["kind"]
    if k == "clusters":
        o["n_clusters"] = case["n"] // 10 + 2
    if k == "ctrows":
        o["ct"] = Y[:-1]
    sm = MOE(**o) if case["api"] == "MOE" else MOESurrogateModel(print_global=False, **o)
    ok = False
    try:
        if k == "rows":
            if case["api"] == "MOE":
                sm.set_training_values(X, Y[:-1])
                sm.train()
            else:
                raise ValueError
        elif k == "nothing":
            if case["api"] == "MOE":
                sm.train()
            else:
                raise ValueError
        else:
            sm.set_training_values(X, Y)
            sm.train()
            if k == "variances":
                ok = True
                sm.predict_variances(X[:3])
                ok = False
    except (ValueError, RuntimeError, NotImplementedError):
        ok = True if k != "variances" else ok
        return ok, [k]
    need(False, "%s: not refused (%s)" % (case["api"], k))
