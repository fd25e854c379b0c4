"""P16: random nested data sets of 1-4 levels x trends x kernels x noise settings: dense reference of the recursive co-Kriging equations at the reported hyperparameters for every level, interpolation, nonnegative variances, zero variance on request, nested designs"""
import numpy as np
from hypothesis import strategies as st
import gen, ref, models
from core import sub, need, close, Discard, rng_of
from cokrig import CL, nterms, make_data, options, train
from smt.applications.mfk import NestedLHS

RULE = "every level's correlation matrix has condition number below 1e9"
EPS = 100 * np.finfo(float).eps
ST = dict(model=st.sampled_from(["MFK", "MFK", "MFKPLS", "MFKPLSK"]), L=st.sampled_from([2, 3, 1, 4]), d=st.sampled_from([2, 1, 3]), n=st.sampled_from([5, 8]), corr=st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"]),
          poly=st.sampled_from(["constant", "linear", "quadratic"]), rho=st.sampled_from(["constant", "linear", "quadratic"]), box=st.sampled_from(gen.FAR_KINDS), ye=st.sampled_from([0, 3, -3]), h=st.sampled_from([1, 2]),
          theta=st.sampled_from(["one", "perlevel", "full"]), opt=st.sampled_from(["Cobyla", "TNC"]), order=st.booleans())


class Recursion:
    """dense co-Kriging recursion in the standardised space of all levels together"""

    def __init__(self, X, Y, corr, poly, rho, thetas, noises, W=None, full=None):
        A, b = (np.vstack(X), np.vstack(Y)) if full is None else full
        _, _, self.xm, self.xs, self.ym, self.ys = ref.standardize(A, b)
        self.poly, self.rho, self.corr, self.W, self.th = poly, rho, corr, W, thetas
        self.X = [(x - self.xm) / self.xs for x in X]
        self.Y = [(y - self.ym) / self.ys for y in Y]
        self.lev = []
        for l, (x, y) in enumerate(zip(self.X, self.Y)):
            F = self.design(l, x)
            R = ref.kernel(corr, thetas[l], x, x, W) + np.diag(np.ones(len(x)) * noises[l])
            Ri = np.linalg.inv(R)
            M = F.T @ Ri @ F
            cond = np.linalg.cond(R)
            cF = np.linalg.cond(F)
            if not (cond < 1e9 and np.linalg.cond(M) < 1e10 and cF < 1e5):
                raise Discard("ill-conditioned")
            beta = np.linalg.solve(M, F.T @ Ri @ y)
            res = y - F @ beta
            gamma = Ri @ res
            s2 = float((res.T @ gamma)[0, 0]) / (len(x) - F.shape[1])
            if s2 < 1e-18:
                raise Discard("trend explains the data")
            self.lev.append(dict(F=F, Ri=Ri, M=M, beta=beta, gamma=gamma, s2=s2, cond=cond * np.linalg.cond(M) ** 0.5))

    def design(self, l, x):
        F = ref.basis(self.poly, x)
        if l == 0:
            return F
        return np.hstack([ref.basis(self.rho, x) * self.mean_std(x, l - 1), F])

    def mean_std(self, x, l):
        v = self.lev[l]
        return self.design(l, x) @ v["beta"] + ref.kernel(self.corr, self.th[l], x, self.X[l], self.W) @ v["gamma"]

    def mean(self, x, l):
        return self.ym + self.ys * self.mean_std((x - self.xm) / self.xs, l)

    def variances(self, x):
        x = (x - self.xm) / self.xs
        out, rhos = [], []
        for l, v in enumerate(self.lev):
            r = ref.kernel(self.corr, self.th[l], x, self.X[l], self.W)
            f = self.design(l, x)
            u = v["F"].T @ v["Ri"] @ r.T - f.T
            e = v["s2"] * (1 - np.einsum("ij,jk,ik->i", r, v["Ri"], r) + np.einsum("ji,ji->i", u, np.linalg.solve(v["M"], u)))
            if l:
                g = ref.basis(self.rho, x)
                q = g.shape[1]
                C = v["s2"] * np.linalg.inv(v["M"])[:q, :q] + v["beta"][:q] @ v["beta"][:q].T
                rh = np.einsum("ij,jk,ik->i", g, C, g)
                rhos.append(rh)
                e = e + rh * out[-1]
            out.append(e)
        return np.stack(out, 1) * self.ys ** 2, rhos


def judge(sm, g, X, Y, xq, L, what):
    amp = 1.0
    tol = []
    for v in g.lev:
        big = max(np.abs(v["gamma"]).sum() * 1e-13, 1e-8, 10 * 1e-13 * v["cond"])
        amp = big + max(1.0, np.abs(v["beta"]).max()) * (tol[-1] if tol else 0)
        tol.append(amp)
    if tol[-1] > 1e-3:
        raise Discard("rounding is amplified between levels")
    sy = float(np.ravel(g.ys)[0])
    close(sm.predict_values(xq), g.mean(xq, L - 1), 1e-8, sy * tol[-1] * 10, "%s: prediction of the highest level" % what)
    if hasattr(sm, "_predict_intermediate_values"):
        for l in range(L):
            close(sm._predict_intermediate_values(xq, l + 1), g.mean(xq, l), 1e-8, sy * tol[l] * 10, "%s: prediction of level %d of %d" % (what, l + 1, L))
    V, rh = g.variances(xq)
    got, grh = sm.predict_variances_all_levels(xq)
    need(got.shape == V.shape, "variances of all levels have shape %s" % (got.shape,))
    top = sm.predict_variances(xq)
    need(np.shape(top) == (len(xq), 1) and np.array_equal(np.ravel(top), got[:, -1]), "%s: predict_variances is not the column of the highest level" % what)
    scale = sum(v["s2"] for v in g.lev) * sy ** 2
    vt = [max(1e-8, 100 * 1e-13 * v["cond"]) for v in g.lev]
    for l in range(L):
        own = g.lev[l]["s2"] * sy ** 2
        run = sum(vt[:l + 1]) * 10 * max(own, V[:, l].max()) * max(1.0, max([np.max(r) for r in rh[:l]], default=1.0))
        close(got[:, l], V[:, l], 1e-5, run + 100 * tol[l] * own, "%s: variance of level %d of %d" % (what, l + 1, L))
        need((got[:, l] >= -run).all(), "%s: negative variance %g of level %d" % (what, got[:, l].min(), l + 1))
    for l in range(1, L):
        close(np.ravel(grh[l - 1]), rh[l - 1], 1e-4, 1e-9 + 100 * tol[l], "%s: variance factor of the scaling of level %d" % (what, l))
    return scale, vt


def weights(c, X, Y, d):
    if c["model"] != "MFKPLS":
        return None
    from sklearn.cross_decomposition import PLSRegression
    return PLSRegression(min(c["h"], d)).fit(X[-1].copy(), Y[-1].copy()).x_rotations_


@sub(gen.cases(noise=st.sampled_from([0.0, 0.0, 1e-3, "list", "het"]), nugget=st.sampled_from([0, 0, 1e-6]), **ST), quick=400, rule=RULE)
def recursion(case):
    rng = rng_of(case, 1)
    c = dict(case)
    d, L = c["d"], c["L"]
    Us, X, Y, xl, s = make_data(c, rng)
    if c["model"] != "MFK" and not models.pls_ok(X[-1], Y[-1], min(c["h"], d)):
        raise Discard("fewer PLS components than requested")
    o, corr = options(c, L, d, rng)
    if c["noise"] == "het":
        noise = [rng.choice([0.0, 1e-4, 1e-2], len(x)) for x in X]
        if rng.rand() < 0.3:
            noise = [np.array([v[0]]) for v in noise]
        o.update(noise0=[v.copy() for v in noise], use_het_noise=True)
    else:
        noise = [c["noise"]] * L if c["noise"] != "list" else list(rng.choice([0.0, 1e-4, 1e-2], L))
        o["noise0"] = noise if c["noise"] == "list" else [c["noise"]]
    nug = EPS
    if c["nugget"]:
        o["nugget"] = nug = c["nugget"]
    Xk, Yk = [x.copy() for x in X], [y.copy() for y in Y]
    sm = train(CL[c["model"]](**o), X, Y, rng)
    need(all(np.array_equal(a, b) for a, b in zip(X + Y, Xk + Yk)), "training data changed")
    th = [np.asarray(t, float).ravel() for t in sm.optimal_theta]
    need(len(th) == L and all(len(t) == (min(c["h"], d) if c["model"] == "MFKPLS" else d) for t in th), "hyperparameters reported: %s" % th)
    g = Recursion(X, Y, corr, c["poly"], c["rho"], th, [nug + v for v in noise], weights(c, X, Y, d))
    xq = gen.scale(gen.queries(rng, 7, d, Us[0]), xl)
    what = "%s (%s, %s, rho %s)" % (c["model"], corr, c["poly"], c["rho"])
    scale, vt = judge(sm, g, X, Y, xq, L, what)
    if not any(np.any(v) for v in noise) and not c["nugget"]:
        sy = np.abs(Y[-1]).max()
        close(sm.predict_values(X[-1]), Y[-1], 0, sy * 1e-5, "%s: highest level at its own points" % what)
        v = sm.predict_variances(X[-1])
        need((v <= scale * 1e-4 + 1e-4 * g.variances(X[-1])[0][:, -1:].max() + 1e-300).all() or L > 1, "%s: variance %g at the data" % (what, v.max()))
    return True, ["L:%d" % L, "model:" + c["model"], "rho:" + c["rho"], "corr:" + corr]


@sub(gen.cases(het=st.booleans(), optim=st.booleans(), noise=st.sampled_from([1e-3, 1e-2, 1e-5]), **dict(ST, L=st.sampled_from([2, 1, 3]), corr=st.just("squar_exp"), poly=st.sampled_from(["constant", "linear"]), rho=st.sampled_from(["constant", "linear"]))),
     quick=250, rule=RULE)
def estimated_noise(case):
    """with estimated noise the equations hold at the reported noise; with optim_var the variance vanishes at the samples of the highest level"""
    rng = rng_of(case, 2)
    c = dict(case, model="MFK") if case["het"] else dict(case)
    d, L = c["d"], c["L"]
    if c["model"] != "MFK":
        c["optim"] = c["optim"] and c["model"] == "MFKPLS"
    Us, X, Y, xl, s = make_data(c, rng)
    Y = [y + s * 0.05 * rng.randn(*y.shape) for y in Y]
    if c["model"] != "MFK" and not models.pls_ok(X[-1], Y[-1], min(c["h"], d)):
        raise Discard("fewer PLS components than requested")
    o, corr = options(c, L, d, rng)
    o.update(eval_noise=True, noise0=[c["noise"]], optim_var=c["optim"])
    if c["het"]:
        one = (X, Y)
        Y = [np.vstack([y, y + s * 0.1 * rng.randn(*y.shape), y + s * 0.1 * rng.randn(*y.shape)]) for y in Y]
        X = [np.vstack([x] * 3) for x in X]
        keep = [np.flatnonzero((np.arange(len(x)) < len(x) // 3) | (rng.rand(len(x)) < 0.7)) for x in X]     # one to three runs per point
        X, Y = [x[q] for x, q in zip(X, keep)], [y[q] for y, q in zip(Y, keep)]
        o["use_het_noise"] = True
    o["nugget"] = 1e-9
    np.random.seed(case["seed"] % 9999)         # the search draws its second start
    sm = train(CL[c["model"]](**o), X, Y, rng)
    what = "%s with estimated noise%s%s" % (c["model"], ", heteroscedastic" if c["het"] else "", ", optim_var" if c["optim"] else "")
    xq = gen.scale(gen.queries(rng, 7, d, Us[0]), xl)
    v, _ = sm.predict_variances_all_levels(xq)
    sy = np.std(np.vstack(Y), ddof=1)
    need((v >= -1e-7 * sy ** 2).all() and np.isfinite(v).all(), "%s: variances %s" % (what, v.min()))
    if c["optim"] and not c["het"] and hasattr(sm, "_predict_intermediate_values"):
        # the definition: the values filtered by a first training, interpolated by a second one
        got = sm.predict_values(xq)
        np.random.seed(case["seed"] % 9999)
        first = train(CL[c["model"]](**dict(o, optim_var=False)), X, Y, rng)
        Z = [first._predict_intermediate_values(x, l + 1) for l, x in enumerate(X)]
        second = train(CL[c["model"]](**dict(o, optim_var=False, eval_noise=False, noise0=[0.0])), X, Z, rng)
        if any(np.linalg.cond(p["C"]) > 1e6 for p in second.optimal_par):
            raise Discard("ill-conditioned")
        close(got, second.predict_values(xq), 1e-5, 1e-5 * sy, what + ": prediction against filtering by hand")
        np.random.seed(case["seed"] % 9999)
        sm.train()
        close(sm.predict_values(xq), got, 1e-5, 1e-5 * sy, what + ": prediction after training again")
    if c["optim"]:
        at = sm.predict_variances(Us and X[-1])
        big = max(float(np.max(np.ravel(p["sigma2"]))) for p in sm.optimal_par)
        rh = [float(np.max(np.abs(p["beta"]))) for p in sm.optimal_par]
        if max(rh) > 1e3 or any(np.linalg.cond(p["C"]) > 1e4 for p in sm.optimal_par):
            raise Discard("ill-conditioned")
        need((at <= 1e-5 * big * max(1.0, max(rh)) ** 2).all(), "%s: variance %g at a sample of the highest level (process variance %g)" % (what, at.max(), big))
        return True, ["optim"]
    if c["het"]:
        # repeated runs: their mean, with the sample variance of that mean; the given noise where there is one run only
        ys = ref.standardize(np.vstack(X), np.vstack(Y))[5]
        ms, nz = [], []
        for x, y, u in zip(X, Y, one[0]):
            runs = [y[(x == r).all(1), 0] for r in u]
            ms.append(np.array([[r.mean()] for r in runs]))
            nz.append(np.array([np.var(r / float(np.ravel(ys)[0]), ddof=1) / len(r) if len(r) > 1 else c["noise"] for r in runs]))
        th = [np.asarray(t, float).ravel() for t in sm.optimal_theta]
        g = Recursion(one[0], ms, corr, c["poly"], c["rho"], th, nz, full=(np.vstack(X), np.vstack(Y)))
        judge(sm, g, one[0], ms, xq, L, what)
        return True, ["het"]
    th = [np.asarray(t, float).ravel() for t in sm.optimal_theta]
    nz = [float(np.ravel(v)[0]) for v in sm.optimal_noise_all]
    g = Recursion(X, Y, corr, c["poly"], c["rho"], th, nz, weights(c, X, Y, d))
    judge(sm, g, X, Y, xq, L, what)
    return True, ["homoscedastic", "L:%d" % L]


@sub(gen.cases(d=st.sampled_from([2, 1, 3]), n=st.sampled_from([6, 10, 14]), corr=st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"]), box=st.sampled_from(gen.FAR_KINDS), k=st.sampled_from([2.0, -1.0, 0.5, 1.0]), off=st.sampled_from([0.0, 1.0, -2.0]), L=st.sampled_from([2, 3])),
     quick=120, rule="every case")
def exact_scaling(case):
    """levels that differ by a factor and a constant plus a small smooth discrepancy: the top prediction follows the factor away from its own few points"""
    rng = rng_of(case, 3)
    d, L = case["d"], case["L"]
    n = case["n"] + 2 * d
    U = gen.unit_design(rng, "spread", 4 * n, d)
    xl = gen.box(rng, case["box"], d)
    a = rng.uniform(1, 3, d)
    f = lambda U: np.sin(U @ a) + 0.5 * np.cos(2 * U[:, -1])
    hi = lambda U: case["k"] * f(U) + case["off"] + 1e-3 * np.cos(U @ a[::-1])
    top = U[:max(5, d + 3)]
    mid = U[:2 * n]
    X = [U, mid, top] if L == 3 else [U, top]
    Y = [f(U), 0.5 * f(mid) + 1e-3 * np.sin(mid @ a), hi(top)] if L == 3 else [f(U), hi(top)]
    sm = CL["MFK"](corr=case["corr"], theta0=[0.5], **gen.QUIET)
    train(sm, [gen.scale(x, xl) for x in X], [y[:, None] for y in Y], rng)
    low = sm._predict_intermediate_values(gen.scale(U, xl), 1) if hasattr(sm, "_predict_intermediate_values") else None
    P = U[len(mid):] if L == 3 else U[len(top):]
    got = sm.predict_values(gen.scale(U[len(top):2 * n], xl))[:, 0]
    want = hi(U[len(top):2 * n])
    close(got, want, 0, 0.02 * (1 + abs(case["k"])), "prediction by the scaled lower level")
    if low is not None:
        close(low[:, 0], f(U), 0, 1e-3, "lowest level at its data")
    return True, ["L:%d" % L]


@sub(gen.cases(nl=st.sampled_from([2, 3, 4]), d=st.sampled_from([2, 1, 3]), n=st.sampled_from([3, 2, 5]), box=st.sampled_from(gen.FAR_KINDS)), quick=60, rule="every case")
def nested_design(case):
    """the designs offered for nested data are nested and have the promised sizes"""
    rng = rng_of(case, 4)
    xl = gen.box(rng, case["box"], case["d"])
    np.random.seed(case["seed"] % 2 ** 31)
    doe = NestedLHS(nlevel=case["nl"], xlimits=xl)(case["n"])
    need(len(doe) == case["nl"], "%d designs" % len(doe))
    for l, D in enumerate(doe):
        need(D.shape == (case["n"] * 2 ** (case["nl"] - 1 - l), case["d"]), "design %d has shape %s" % (l, D.shape))
        need((D >= xl[:, 0]).all() and (D <= xl[:, 1]).all(), "design %d leaves the bounds" % l)
        if l:
            low = {tuple(r) for r in doe[l - 1]}
            need(all(tuple(r) in low for r in D), "design %d is not contained in the one below" % l)
    return True
