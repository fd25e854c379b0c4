"""P20: after a random optimisation step, EI, SBO and UCB on random batches (training points, near them, far away) against closed forms of the surrogate's mean and variance, with and without tunneling; virtual outputs seen by the surrogate against the documented strategies"""
import numpy as np
from scipy.stats import norm
from hypothesis import strategies as st
import gen, mixed, egorun
from core import sub, need, close, Discard, rng_of
from smt.applications import EGO

RULE = "the criterion is not the same at all points"
ST = dict(nug=st.booleans(), d=st.integers(1, 3), n=st.sampled_from([5, 8, 12, 18]), box=st.sampled_from(["unit", "sym", "shift", "wide"]), ye=st.sampled_from([0, 0, 3, -3]), sm=st.sampled_from(["KRG", "KRG", "KPLS", "KPLSK"]), crit=st.sampled_from(["EI", "SBO", "UCB"]))


def make(case, **kw):
    rng = rng_of(case, 1)
    d = case["d"]
    B = gen.box(rng, case["box"], d)
    s = 10.0 ** case["ye"]
    obj = egorun.Objective(["F"] * d, B.tolist(), rng, s, rng.uniform(-2, 2) * s)
    U0 = gen.unit_design(rng, "spread", case["n"], d)
    X0 = gen.scale(U0, B)
    Y0 = obj.values(X0)
    if rng.rand() < 0.3:                           # the best point comes last
        k = np.argsort(-Y0[:, 0])
        U0, X0, Y0 = U0[k], X0[k], Y0[k]
    sm = egorun.surrogate(case["sm"], d, str(rng.choice(["squar_exp", "abs_exp", "matern52"])) if case["sm"] == "KRG" else "squar_exp", str(rng.choice(["constant", "linear"])),
                          **(dict(nugget=0.0) if case["nug"] else {}))
    o = dict(xdoe=X0, ydoe=Y0, xlimits=B, surrogate=sm, n_iter=1, n_start=2, random_state=int(case["seed"] % 9999))
    if rng.rand() < 0.4:                           # documented as without effect when points are given
        o["n_doe"] = int(rng.randint(2, 12))
    o.update(kw)
    ego = EGO(**o)
    try:
        res = ego.optimize(obj.fun())
    except Exception as e:
        if str(e) == "'C'" or "attempts to train" in str(e) or "ill conditioned" in str(e) or "undetermined" in str(e):
            raise Discard("surrogate cannot be fitted")
        raise
    return rng, B, s, U0, X0, Y0, sm, ego, obj, res


def closed(m, P, fmin):
    """expected improvement, and a bound on the rounding left in it"""
    mu = m.predict_values(P)[:, 0]
    sd = np.sqrt(m.predict_variances(P)[:, 0])
    z = (fmin - mu) / np.where(sd > 0, sd, 1)
    ei = np.where(sd > 0, (fmin - mu) * norm.cdf(z) + sd * norm.pdf(z), np.maximum(fmin - mu, 0))
    return mu, sd, ei, 1e-12 * (np.abs(mu) + abs(fmin) + sd)


@sub(gen.cases(tun=st.booleans(), m=st.sampled_from([1, 4, 9]), par=st.sampled_from([1, 2]), **ST), quick=400, rule=RULE)
def criteria(case):
    rng, B, s, U0, X0, Y0, sm, ego, obj, res = make(case, criterion=case["crit"], n_parallel=case["par"])
    d, m = case["d"], case["m"]
    U = rng.uniform(-0.2, 1.2, (m, d))
    i = rng.randint(len(U0))
    U[0] = U0[i]                                   # nothing uncertain there
    if m > 1:
        U[1] = U0[i] + rng.uniform(-1, 1, d) * 10.0 ** rng.uniform(-9, -2)
    P = gen.scale(U, B)
    P[0] = X0[i]
    y_data = Y0 if rng.rand() < 0.6 else Y0 + rng.uniform(-1, 1) * s     # best value above or below the surrogate
    fmin = y_data.min()
    g = ego.gpr
    mu, sd, want, tol = closed(g, P, fmin)
    Pk = P.copy()
    mu_a, sd_a = g.predict_values(P), np.sqrt(g.predict_variances(P))
    close(ego.SBO(P), mu_a, 1e-12, 0, "surrogate criterion")
    close(ego.UCB(P), mu_a - 3 * sd_a, 1e-12, 1e-12 * s, "lower confidence bound")
    ei = ego.EI(P, y_data)
    need(ei.shape == (m, 1), "expected improvement has shape %s" % (ei.shape,))
    ei = ei[:, 0]
    need(np.isfinite(ei).all(), "expected improvement is not finite: %s at standard deviations %s" % (ei, sd))
    need((ei >= -tol).all(), "negative expected improvement %s" % ei.min())
    k = sd == 0
    ok = np.abs(ei - want) <= tol + 1e-9 * want
    need(ok.all(), lambda: "expected improvement %s, expected %s (mean %s, deviation %s, best %s)" % (ei[~ok], want[~ok], mu[~ok], sd[~ok], fmin))
    j = rng.randint(m)
    one = ego.EI(P[j:j + 1], y_data)
    w1, t1 = closed(g, P[j:j + 1], fmin)[2:]          # predictions of a single row round differently
    need(one.shape == (1, 1) and abs(one[0, 0] - w1[0]) <= 1e-9 * abs(w1[0]) + t1[0], "expected improvement of one point %s, expected %s" % (one, w1))
    lab = [case["sm"], "zero-sd" if k.any() else "pos-sd"]
    if case["tun"]:
        D = np.sqrt(((P[:, None, :] - X0[None]) ** 2).sum(-1))
        keep = D.min(axis=1) > 1e-3 * D.max()
        if keep.any():
            Q = P[keep]
            e0 = np.array([ego.EI(X0[r:r + 1], y_data)[0, 0] for r in range(len(X0))])
            eq = ego.EI(Q, y_data)[:, 0]
            e1 = np.array([ego.EI(Q[r:r + 1], y_data)[0, 0] for r in range(len(Q))])
            pen = np.maximum((e1[:, None] - e0[None]) / D[keep] ** 4, 0)
            # subtracted one at a time, never below zero
            w = np.maximum(eq - pen.sum(axis=1), 0)
            got = ego.EI(Q, y_data, enable_tunneling=True, x_data=X0)
            slack = tol[keep] + 2 * np.abs(e1 - eq) + (tol[keep] + 2 * np.abs(e1 - eq) + 1e-7 * max(s, sd.max())) * (1 / D[keep] ** 4).sum(axis=1)   # deviations below about 1e-7 are rounding
            err = np.abs(got[:, 0] - w)
            need((err <= slack + 1e-9 * eq * (1 + (1 / D[keep] ** 4).sum(axis=1))).all(), lambda: "penalised expected improvement %s, expected %s (off by %s, unpenalised %s)" % (got[:, 0], w, err, eq))
            lab.append("pen" if ((pen.sum(axis=1) < eq) & (pen.sum(axis=1) > 0)).any() else "pen:all")
    need(np.array_equal(P, Pk), "query points changed")
    return np.ptp(want) > 0, lab


@sub(gen.cases(par=st.integers(2, 4), it=st.integers(1, 3), qei=st.sampled_from(["KB", "KBLB", "KBUB", "KBRand", "CLmin", "CLmin"]), **ST), quick=160, rule="virtual outputs differ from the mean")
def virtual(case):
    rng, B, s, U0, X0, Y0, sm, ego, obj, (_, _, _, X, Y) = make(case, criterion=case["crit"], n_parallel=case["par"], qEI=case["qei"], n_iter=case["it"], n_start=4)
    n, par, q = len(X0), case["par"], case["qei"]
    if len(X) != n + par * case["it"]:
        raise Discard("internal optimization failed")
    snaps = sm.snaps
    need(len(snaps) == par * case["it"], "surrogate trained %d times" % len(snaps))
    dev = []
    for k in range(case["it"]):
        base = n + k * par
        for p in range(1, par):
            (xs, ys), mdl = snaps[k * par + p][0], snaps[k * par + p - 1][1]
            need(len(xs) == base + p, "surrogate got %d points" % len(xs))
            need(np.array_equal(ys[:base + p - 1], snaps[k * par + p - 1][0][1]), "outputs given to the surrogate changed")
            x, v = xs[-1:], ys[-1, 0]
            mu = mdl.predict_values(x)[0, 0]
            sd = np.sqrt(mdl.predict_variances(x)[0, 0])
            tol = 1e-9 * (abs(mu) + sd)
            ymin = snaps[k * par + p - 1][0][1].min()
            if q == "CLmin":
                need(v == ymin, "virtual output %r is not the best known value %r" % (v, ymin))
            elif q == "KBRand":
                if sd > 1e-6 * s:
                    c = (v - mu) / sd
                    need(abs(c) < 7, "virtual output lies %g deviations away" % c)
                    dev.append(c)
            else:
                w = mu + dict(KB=0, KBLB=-3, KBUB=3)[q] * sd
                need(abs(v - w) <= tol, "virtual output %.12g, expected %.12g (mean %.12g, deviation %.3g)" % (v, w, mu, sd))
                dev.append(sd / s)
    if q == "KBRand" and len(dev) > 1:
        need(np.ptp(dev) > 1e-6, "random deviates repeat: %s" % dev)
    return len(dev) > 0 and max(np.abs(dev)) > 1e-6 or q == "CLmin", [q]


@sub(gen.cases(**dict(ST, n=st.sampled_from([5, 8]), nug=st.just(False), sm=st.just("KRG"), crit=st.sampled_from(["SBO", "UCB"]))), quick=16, thorough=160, rule="25 deviates of predictions with a deviation")
def deviates(case):
    """the random strategy draws deviates of both signs, not far out"""
    dev = []
    for k in range(12):
        c = dict(case, seed=case["seed"] + 7919 * k)
        rng, B, s, U0, X0, Y0, sm, ego, obj, _ = make(c, criterion=c["crit"], n_parallel=7, qEI="KBRand", n_iter=1, n_start=2)
        for p in range(1, len(sm.snaps)):
            (xs, ys), mdl = sm.snaps[p][0], sm.snaps[p - 1][1]
            sd = np.sqrt(mdl.predict_variances(xs[-1:])[0, 0])
            if sd > 1e-5 * s:
                dev.append((ys[-1, 0] - mdl.predict_values(xs[-1:])[0, 0]) / sd)
        if len(dev) >= 25:
            break
    else:
        raise Discard("few uncertain predictions")
    dev = np.array(dev)
    # probability of a false alarm below 1e-6 per case
    need((dev > 0).any() and (dev < 0).any() and np.abs(dev).max() < 7 and 0.3 < dev.std() < 2, "the random deviates are %s" % np.round(dev, 3))
    return True, []
