"""P26: random problems x sizes x options x points: derivative against high-order differences and complex steps of the values, batch decomposition, reduction relation, untouched arguments"""
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, Discard, rng_of
from bench import NAMES, FIX, make
from smt.problems import (ReducedProblem)

RULE = "a derivative that is not zero at every point"
ST = dict(name=st.sampled_from(NAMES), nd=st.sampled_from([2, 3, 1, 4, 6]), fd=st.integers(0, 4), order=st.sampled_from([2, 1, 3, 4, 5]), func=st.sampled_from(["cos", "exp", "tanh", "gaussian"]),
          width=st.sampled_from([1.0, 2, 0.3, 10.0]), w=st.sampled_from([0.2, 0.0, 0.5, 0.83]), n=st.sampled_from([3, 5, 1, 12]), edge=st.integers(0, 3), big=st.booleans())


def points(p, case, d, n):
    rng = rng_of(case, 5)
    xl = np.array(p.xlimits, float)
    need(xl.shape == (d, 2) and (xl[:, 0] < xl[:, 1]).all(), "%s: bounds %s" % (case["name"], xl.shape))
    U = rng.uniform(0.002, 0.998, (n, d))
    if case["edge"] == 0:
        U = np.where(rng.rand(n, d) < 0.3, rng.choice([0.0, 1.0], (n, d)), U)
    return gen.scale(U, xl), xl


def smooth(case, p, X):
    """away from the kinks of norm-like functions"""
    k = case["name"]
    if k == "LpNorm":
        return (np.abs(X) > 0.02).all(1)
    if "RobotArm" in k:
        return np.real(p(X))[:, 0] > 0.05
    return np.ones(len(X), bool)


def differences(f, X, kx, h):
    e = np.zeros(X.shape[1])
    e[kx] = h
    return (8 * (f(X + e) - f(X - e)) - (f(X + 2 * e) - f(X - 2 * e))) / (12 * h)


@sub(gen.cases(**ST), quick=3000, rule=RULE)
def derivatives(case):
    p, d = make(case)
    X, xl = points(p, case, d, case["n"])
    keep = X.copy()
    y = p(X)
    need(y.shape == (len(X), 1) and not np.iscomplexobj(y) and np.isfinite(y).all(), "%s values: shape %s" % (case["name"], y.shape))
    ok = smooth(case, p, X)
    if not ok.any():
        raise Discard("kink")
    X, y = X[ok], y[ok]
    fd = case["fd"] == 0 and case["name"] in FIX
    some = False
    ks = range(d) if d <= 4 else sorted(rng_of(case, 6).permutation(d)[:4].tolist())
    for kx in ks:
        g = p(X, kx)
        need(g.shape == y.shape and not np.iscomplexobj(g), "%s derivative %d: shape %s" % (case["name"], kx, g.shape))
        wid = xl[kx, 1] - xl[kx, 0]
        h = 2e-4 * wid
        ref = differences(p, X, kx, h / 2)
        coarse = differences(p, X, kx, h)
        # terms larger than the result may cancel in it
        sc = max(np.abs(y).max(), 1e-300) / wid
        tol = 2e-6 * np.abs(ref) + 3e-7 * sc + np.abs(ref - coarse)
        if fd:
            tol = tol * 10 + 20 * np.finfo(float).eps * np.abs(y) / 1e-6 + np.abs(ref) * 4 * np.finfo(float).eps * np.abs(X[:, [kx]]) / 1e-6
        if case["name"] == "LpNorm" or "RobotArm" in case["name"]:
            tol = tol + 1e-5
        if case["name"] in ("TensorProduct", "NdimStepFunction") and case["width"] == 10.0:
            tol = tol * 30 + (1e-6 * 10 if case["func"] != "exp" else 0)
        err = np.abs(g - ref)
        need((err <= tol).all(), lambda: "%s d/dx%d: got %s, slope of the values %s (tol %s)" % (case["name"], kx, g.ravel()[:4], ref.ravel()[:4], tol.ravel()[:4]))
        some = some or np.abs(g).max() > 0
    need(np.array_equal(X, keep[ok]), "the caller's points changed")
    return bool(some), [case["name"]]


@sub(gen.cases(**ST), quick=2000, rule=RULE)
def complex_steps(case):
    """the exact derivative through complex values, for the problems made of analytic functions"""
    p, d = make(case)
    if case["name"] == "LpNorm" or (case["fd"] == 0 and case["name"] in FIX):
        raise Discard("not analytic")
    X, xl = points(p, case, d, case["n"])
    ok = smooth(case, p, X)
    if not ok.any():
        raise Discard("kink")
    X = X[ok]
    y = p(X)
    p.options["return_complex"] = True
    some = False
    for kx in range(d):
        Z = X.astype(complex)
        Z[:, kx] += 1e-30j
        v = p(Z)
        need(np.iscomplexobj(v), "return_complex gives real values")
        ref = v.imag / 1e-30
        g = np.real(p(X, kx))
        wid = xl[kx, 1] - xl[kx, 0]
        amp = np.abs(y) / wid + np.abs(ref)
        if "RobotArm" in case["name"]:
            amp = amp + 10.0 / np.maximum(np.abs(y), 0.05)
        if "CantileverBeam" in case["name"] or "Rosenbrock" in case["name"] or case["name"] == "Branin":
            amp = amp + (np.abs(p(gen.scale(np.full((1, d), 0.01), xl))) if "Cant" in case["name"] else 1e3) / wid
        need((np.abs(g - ref) <= 1e-10 * amp + 1e-12).all(), lambda: "%s d/dx%d: got %s, complex step %s" % (case["name"], kx, g.ravel()[:4], ref.ravel()[:4]))
        some = some or np.abs(g).max() > 0
        need(np.allclose(v.real, y, rtol=1e-9, atol=1e-12 * np.abs(y).max()), "value changes with complex arguments")
    return bool(some), [case["name"]]


@sub(gen.cases(**ST, form=st.integers(0, 3)), quick=1500, rule="at least two points")
def batches(case):
    p, d = make(case)
    X, xl = points(p, case, d, max(2, case["n"]))
    rng = rng_of(case, 7)
    kx = int(rng.randint(d))
    ok = smooth(case, p, X)
    X = X[ok]
    if len(X) < 2:
        raise Discard("kink")
    for k in (None, kx):
        full = p(X, k)
        again = p(X, k)
        need(np.array_equal(full, again), "%s: two evaluations differ" % case["name"])
        o = rng.permutation(len(X))
        eq = lambda a, b, t: need(np.allclose(a, b, rtol=1e-12, atol=1e-14 * max(1.0, np.abs(full).max())), lambda: "%s: %s differ: %s %s" % (case["name"], t, a.ravel()[:3], b.ravel()[:3]))
        eq(p(X[o], k), full[o], "values after reordering the points")
        for i in range(len(X)):
            eq(p(X[i:i + 1], k), full[i:i + 1], "a point alone and in the batch")
        if case["form"] == 0:
            eq(p(np.asfortranarray(X), k), full, "column-major points")
        elif case["form"] == 1:
            B = np.zeros((2 * len(X), 2 * d))
            B[::2, ::2] = X
            eq(p(B[::2, ::2], k), full, "strided points")
            need(np.array_equal(B[::2, ::2], X), "the caller's points changed")
        elif case["form"] == 2 and d == 1:
            eq(p(X[:, 0], k), full, "one-dimensional array")
        elif case["form"] == 3:
            XX = X.copy()
            XX.setflags(write=False)
            eq(p(XX, k), full, "read-only points")
    # bounds are a property of the problem, not of its use
    need(np.array_equal(p.xlimits, xl), "bounds changed")
    return True, [case["name"], "form%d" % case["form"]]


@sub(gen.cases(**ST, dims=st.integers(0, 3), nest=st.booleans(), w2=st.sampled_from([0.2, 0.0, 1.0, 0.6])), quick=2500, rule="a strict subset of at least one variable in a non-sorted or non-contiguous choice, or a nested reduction")
def reduced(case):
    p, d = make(case)
    rng = rng_of(case, 8)
    full_xl = np.array(p.xlimits)
    m = int(rng.randint(1, d + 1))
    if case["dims"] == 0:
        dims, arg = np.arange(m), m
    else:
        dims = rng.permutation(d)[:m]
        arg = {1: list(map(int, dims)), 2: tuple(map(int, dims)), 3: dims}[case["dims"]]
    w = case["w2"]
    r = ReducedProblem(p, arg, w=w)
    chain = [(dims, w, full_xl)]
    if case["nest"] and m > 1:
        m2 = int(rng.randint(1, m + 1))
        d2 = rng.permutation(m)[:m2]
        r2 = ReducedProblem(r, d2, w=case["w"])
        chain.append((d2, case["w"], full_xl[dims]))
        r = r2
    nd = len(chain[-1][0])
    need(r.options["ndim"] == nd and r.xlimits.shape == (nd, 2), "size of the reduced problem")
    idx = np.arange(d)
    for dm, _, _ in chain:
        idx = idx[dm]
    need(np.array_equal(r.xlimits, full_xl[idx]), "bounds of the reduced problem: %s, expected %s" % (r.xlimits.tolist(), full_xl[idx].tolist()))
    X, xl = points(r, case, nd, case["n"])
    keep = X.copy()
    Z = X
    for dm, ww, lim in chain[::-1]:
        B = np.tile((1 - ww) * lim[:, 0] + ww * lim[:, 1], (len(Z), 1))
        B[:, dm] = Z
        Z = B
    ok = smooth(case, p, Z)
    if case["name"] == "LpNorm":
        # a norm is smooth where it is not zero (orders above one), or along the kept variables away from zero
        ok = (np.abs(X) > 0.02).all(1)
    if not ok.any():
        raise Discard("kink")
    X, Z, keep = X[ok], Z[ok], keep[ok]
    for k in [None] + list(range(nd)):
        a = r(X, k)
        b = p(Z, None if k is None else int(idx[k]))
        need(a.shape == (len(X), 1) and not np.iscomplexobj(a), "shape %s" % (a.shape,))
        need(np.allclose(a, b, rtol=1e-9, atol=1e-11 * (np.abs(b).max() + np.abs(p(Z)).max() / (1 if k is None else np.ptp(r.xlimits[k])))), lambda: "%s reduced to %s, kx=%s: %s, full problem %s" % (case["name"], idx, k, a.ravel()[:4], b.ravel()[:4]))
    need(np.array_equal(X, keep), "the caller's points changed")
    need(np.array_equal(p.xlimits, full_xl), "bounds of the full problem changed")
    return nd < d and (len(chain) > 1 or case["dims"] > 0), [case["name"]]
