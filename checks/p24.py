"""P24: structure of generated designs: strata of Latin hypercubes, exchange-only and PhiP of the ESE criterion, grid structure of full factorials, nesting of multi-fidelity designs"""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import pdist
from pyDOE2 import lhs as pylhs
import gen
from core import sub, need, Violation, Discard, rng_of, close
from samplers import CRIT, limits, draw, inside
from smt.sampling_methods import LHS, FullFactorial
from smt.applications.mfk import NestedLHS

ST = dict(d=st.sampled_from([2, 3, 4, 5, 1]), nt=st.one_of(st.integers(3, 40), st.integers(3, 12), st.integers(1, 4)), box=st.sampled_from(gen.FAR_KINDS))


def unit(x, xl):
    return (x - xl[:, 0]) / np.ptp(xl, axis=1)


def rounding(xl):
    return 1e-12 * (1 + (np.abs(xl).max(1) / np.ptp(xl, axis=1)).max())


def strata(u, eps, what):
    """exactly one point in each of the n strata of every variable"""
    n = len(u)
    s = np.sort(u, axis=0)
    lo, hi = np.arange(n)[:, None] / n, (np.arange(n)[:, None] + 1) / n
    ok = (s >= lo - eps) & (s <= hi + eps)
    need(ok.all(), lambda: "%s: a stratum without exactly one point, variable %d: %s" % (what, np.argwhere(~ok)[0][1], s[:, np.argwhere(~ok)[0][1]]))


@sub(gen.cases(crit=st.sampled_from(CRIT), **ST), quick=1000, rule="at least three points in two or more variables")
def latin(case):
    d, nt = case["d"], case["nt"]
    if case["crit"] == "ese":
        d, nt = min(d, 4), min(nt, 20)
    xl = limits(case, d)
    x = draw(LHS(xlimits=xl, criterion=case["crit"], random_state=case["seed"] % 9999), dict(m=case["crit"]), nt, d)
    u = unit(x, xl)
    strata(u, rounding(xl), "criterion " + case["crit"])
    if case["crit"] in ("center", "c", "centermaximin", "cm"):
        close(np.sort(u, axis=0), np.repeat((np.arange(nt)[:, None] + 0.5) / nt, d, 1), 0, rounding(xl), "centred design")
    return nt >= 3 and d >= 2, ["crit:" + case["crit"]]


def phip(x):
    return float((pdist(x) ** (-10.0)).sum() ** 0.1)


@sub(gen.cases(**dict(ST, nt=st.integers(1, 24), d=st.integers(1, 4))), quick=250, rule="at least three points in two or more variables, and the design differs from its start")
def ese(case):
    d, nt = case["d"], case["nt"]
    xl = np.tile([0.0, 1.0], (d, 1))
    seed = case["seed"] % 9999
    x = LHS(xlimits=xl, criterion="ese", random_state=seed)(nt)
    p0 = pylhs(d, nt, criterion=None, random_state=np.random.RandomState(seed))   # the start: the plain design of this state
    strata(x, 1e-12, "ese")
    need(np.array_equal(np.sort(x, axis=0), np.sort(p0, axis=0)), "the optimised design is not the start with coordinates exchanged")
    if nt >= 2:
        need(phip(x) <= phip(p0) * (1 + 1e-9), lambda: "space-filling measure %.12g is worse than the start's %.12g" % (phip(x), phip(p0)))
    return nt >= 3 and d >= 2 and not np.array_equal(x, p0)


@sub(gen.cases(**dict(ST, nt=st.integers(2, 14), d=st.integers(2, 4)), t=st.sampled_from([0.0, 1e-3, 1.0, 50.0]), p=st.sampled_from([2, 5, 10]), outer=st.sampled_from([1, 2, 4, 6])), quick=200,
     rule="optimised from a given start, at several temperatures, the reported best measure being that of the returned design")
def ese_history(case):
    d, nt = case["d"], case["nt"]
    s = LHS(xlimits=np.tile([0.0, 1.0], (d, 1)), criterion="ese")
    s.random_state = np.random.RandomState(case["seed"] % 9999)
    X = pylhs(d, nt, criterion="center" if case["seed"] % 2 else None, random_state=np.random.RandomState(case["seed"] % 9999))
    keep = X.copy()
    P = lambda z: float((pdist(z) ** (-float(case["p"]))).sum() ** (1.0 / case["p"]))
    seen = [P(keep)]
    if hasattr(s, "_PhiP_exchange"):
        inner = s._PhiP_exchange

        def exchange(*a, **k):
            v = inner(*a, **k)
            seen.append(float(v))
            return v
        s._PhiP_exchange = exchange
    try:
        out, hist = s._maximinESE(X, T0=case["t"], outer_loop=case["outer"], inner_loop=8, J=5, p=case["p"], return_hist=True)
    except AttributeError:
        raise Discard("no such entry point")
    need(np.array_equal(X, keep), "the start design was changed")
    h = np.asarray(hist["PhiP"], float)
    need((np.diff(h) <= 1e-12 * h[0]).all(), lambda: "the best measure so far rose: %s" % h)
    # the measure is updated by differences of powers: each step rounds at the size of the largest one met
    drift = 4 * len(seen) * 2.3e-16 * (max(seen) / P(out)) ** case["p"] if len(seen) > 1 else 1e-2
    if not drift < 1e-3:
        raise Discard("too close points on the way")
    close(h[-1], P(out), 1e-6 + drift, 0, "reported measure of the returned design")
    need(P(out) <= P(keep) * (1 + 1e-9 + drift), "the returned design is worse than its start")
    strata(out, 1e-12, "ese")
    return not np.array_equal(out, keep)


@sub(gen.cases(**dict(ST, nt=st.integers(1, 120)), clip=st.booleans(), w=st.sampled_from(["no", "no", "float", "int", "array", "any"])), quick=1000,
     rule="at least three points in two or more variables")
def full_factorial(case):
    d, nt = case["d"], case["nt"]
    xl = limits(case, d)
    r = rng_of(case, 4)
    o = {}
    W = np.ones(d)
    if case["w"] != "no":
        W = 10 ** r.uniform(-1, 1.3, d) if case["w"] == "any" else r.choice([0.25, 1.0, 2.0, 5.0], d) if case["w"] != "int" else r.randint(1, 5, d)
        o["weights"] = np.array(W) if case["w"] == "array" else [v.item() for v in W]
    keep = np.array(o["weights"]) if o else None
    s = FullFactorial(xlimits=xl, clip=case["clip"], **o)
    x = s(nt)
    if o:
        need(np.array_equal(np.asarray(o["weights"]), keep), "the caller's weights were changed")
    eps = rounding(xl)
    n = len(x)
    if case["clip"]:
        need(n >= nt, "fewer points than asked")
    inside(x, xl, n if case["clip"] else nt)
    u = unit(x, xl)
    key = np.round(u, 9)
    need(len(np.unique(key, axis=0)) == n, "points coincide")
    # the full grid behind a clipped design, from the same request
    full = unit(FullFactorial(xlimits=xl, clip=True, **o)(nt), xl) if not case["clip"] else u
    levels = []
    for k in range(d):
        v = np.unique(np.round(full[:, k], 9))
        m = len(v)
        levels.append(m)
        close(v, np.linspace(0, 1, m), 0, 2e-9 + eps, "levels of variable %d" % k)
    need(len(full) == np.prod(levels) and len(np.unique(np.round(full, 9), axis=0)) == len(full), "not a full grid: %d points for levels %s" % (len(full), levels))
    grid = {tuple(p) for p in np.round(full, 9) + 0.0}
    need({tuple(p) for p in key + 0.0} <= grid, "a point off the grid")
    # no variable gets a level beyond its share of them all
    for i in range(d):
        need(levels[i] == 1 or levels[i] - 1 <= W[i] / W.sum() * (sum(levels) - 1) + 1e-9, lambda: "weights %s, levels %s" % (W, levels))
    # heavier variables get at least as many levels, equal ones differ by one at most
    for i in range(d):
        for j in range(d):
            if W[i] > W[j]:
                need(levels[i] >= levels[j], lambda: "weights %s, levels %s" % (W, levels))
            if W[i] == W[j]:
                need(abs(levels[i] - levels[j]) <= 1, lambda: "weights %s, levels %s" % (W, levels))
    return nt >= 3 and d >= 2, ["w:" + case["w"], "clip:%s" % case["clip"]]


@sub(gen.cases(d=st.integers(1, 3), n=st.integers(1, 7), lv=st.integers(1, 4), box=st.sampled_from(gen.FAR_KINDS)), quick=120, rule="two or more levels, two or more points")
def nested(case):
    d, n, lv = case["d"], case["n"], case["lv"]
    if lv == 4:
        n = min(n, 3)
    xl = limits(case, d)
    keep = xl.copy()
    doe = NestedLHS(nlevel=lv, xlimits=xl)(n)
    need(np.array_equal(xl, keep), "the caller's bounds were changed")
    need(len(doe) == lv, "%d levels for %d" % (len(doe), lv))
    for i, x in enumerate(doe):
        inside(x, xl, n * 2 ** (lv - 1 - i))
        need(len(np.unique(x, axis=0)) == len(x), "level %d holds a point twice" % i)
        if i:
            low = {tuple(p) for p in doe[i - 1]}
            need(all(tuple(p) in low for p in x), "level %d is not contained in level %d" % (i, i - 1))
    strata(unit(doe[-1], xl), rounding(xl), "finest level")
    return lv >= 2 and n >= 2, ["levels:%d" % lv]
