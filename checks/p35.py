"""P35: benchmark problems against independently written scalar formulas (double loops, no shared code), their documented bounds and known minima"""
import math
import numpy as np
from hypothesis import strategies as st
import gen
from bench import NAMES, make
from core import sub, need, close, rng_of

RULE = "at least two different points evaluated"


def robot(x):
    t = px = py = 0.0
    for L, a in zip(x[0::2], x[1::2]):
        t += a
        px += L * math.cos(t)
        py += L * math.sin(t)
    return math.hypot(px, py)


def beam(x, P, E):
    """tip deflection of a cantilever of rectangular segments: moment integrals, segment by segment"""
    n = len(x) // 3
    tot = 0.0
    for i in range(n):
        b, h, l = x[3 * i:3 * i + 3]
        inner = math.fsum(x[3 * j + 2] for j in range(i + 1, n))     # from the end of the segment to the tip
        I = b * h ** 3 / 12
        tot += P / (3 * E * I) * (3 * inner ** 2 * l + 3 * inner * l ** 2 + l ** 3)
    return tot


def rosen(x):
    return math.fsum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1))


def wing(x):
    S, W, A, lam, q, tap, tc, N, Wdg, Wp = x
    c = math.cos(math.radians(lam))
    return 0.036 * S ** 0.758 * W ** 0.0035 * (A / c ** 2) * q ** 0.006 * tap ** 0.04 * (100 * tc / c) ** -0.3 * (N * Wdg) ** 0.49 + S * Wp


def water(x, f=2 * math.pi, o=1.0):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x
    ln = math.log(r) - math.log(rw)
    return f * Tu * (Hu - Hl) / (ln * (o + 2 * L * Tu / (ln * rw ** 2 * Kw) + Tu / Tl))


def weld(x):
    t, h, l = x
    R = math.sqrt(0.25 * (l ** 2 + (h + t) ** 2))
    t1 = 6000 / (math.sqrt(2) * h * l)
    t2 = 6000 * (14 + 0.5 * l) * R / (2 * (0.707 * h * l * (l ** 2 / 12 + 0.25 * (h + t) ** 2)))
    return math.sqrt(t1 ** 2 + t2 ** 2 + l * t1 * t2 / R)


def torsion(x):
    d1, L1, G1, L3, G3, D1, d2, L2, G2, d3, t1, r1, D2, t2, r2 = x
    g = 9.80665
    K = [math.pi * G * d / (32 * L) for G, d, L in ((G1, d1, L1), (G2, d2, L2), (G3, d3, L3))]
    J = [0.5 * (r * math.pi * t * D / (4 * g)) * (D / 2) ** 2 for r, t, D in ((r1, t1, D1), (r2, t2, D2))]
    # smallest natural frequency of the two-disc system: eigenvalues of M^-1 K
    M = np.array([[(K[0] + K[1]) / J[0], -K[1] / J[0]], [-K[1] / J[1], (K[1] + K[2]) / J[1]]])
    return math.sqrt(min(np.linalg.eigvals(M).real)) / (2 * math.pi)


def branin(x):
    a, b = x
    return (b - 5.1 / (4 * math.pi ** 2) * a ** 2 + 5 / math.pi * a - 6) ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(a) + 10


TP = dict(cos=lambda v, a: math.cos(a * math.pi * v), exp=lambda v, a: math.exp(a * v), tanh=lambda v, a: math.tanh(a * v), gaussian=lambda v, a: math.exp(-2 * a * v * v))
BOUNDS = dict(Sphere=[(-10, 10)], Rosenbrock=[(-2, 2)], NdimRosenbrock=[(-2, 2)], Branin=[(-5, 10), (0, 15)], LpNorm=[(-1, 1)], TensorProduct=[(-1, 1)], NdimStepFunction=[(-1, 1)],
              RobotArm=[(0, 1), (0, 2 * math.pi)], NdimRobotArm=[(0, 2 * math.pi)], CantileverBeam=[(0.01, 0.05), (0.3, 0.65), (0.5, 1.0)], NdimCantileverBeam=[(0.3, 0.65)],
              WeldedBeam=[(5, 10), (0.125, 1), (5, 10)],
              WaterFlow=[(0.05, 0.15), (100, 50000), (63070, 115600), (990, 1110), (63.1, 116), (700, 820), (1120, 1680), (9855, 12045)],
              WingWeight=[(150, 200), (220, 300), (6, 10), (-10, 10), (16, 45), (0.5, 1), (0.08, 0.18), (2.5, 6), (1700, 2500), (0.025, 0.08)])
# two diameters are printed differently in the documentation and the literature; the tolerance below covers both
BOUNDS["TorsionVibration"] = [(1.8, 2.2), (9, 11), (1.053e7, 1.287e7), (7.2, 8.8), (3.51e6, 4.29e6), (10.8, 13.2), (1.64, 2.005), (10.8, 13.2), (5.58e6, 6.82e6), (2.025, 2.475), (2.7, 3.3), (0.252, 0.308), (12.6, 15.4), (3.6, 4.4), (0.09, 0.11)]
BOUNDS["WaterFlowLFidelity"] = BOUNDS["WaterFlow"]


def reference(c, x):
    k, w = c["name"], c["w"]
    mid = lambda lo, hi: (1 - w) * lo + w * hi
    if k == "Sphere":
        return math.fsum(v * v for v in x)
    if k == "Rosenbrock":
        return rosen(x)
    if k == "NdimRosenbrock":
        return rosen([mid(-2, 2)] + list(x))
    if k == "Branin":
        return branin(x)
    if k == "LpNorm":
        return math.fsum(abs(v) ** c["order"] for v in x) ** (1 / c["order"])
    if k in ("TensorProduct", "NdimStepFunction"):
        return math.prod(TP[c["func"] if k == "TensorProduct" else "tanh"](v, c["width"]) for v in x)
    if k == "RobotArm":
        return robot(x)
    if k == "NdimRobotArm":
        z = [mid(0, 1), mid(0, 2 * math.pi)]
        for v in x:
            z += [mid(0, 1), v]
        return robot(z)
    if k == "CantileverBeam":
        return beam(x, *((3e4, 1e10) if c["big"] else (50e3, 200e9)))
    if k == "NdimCantileverBeam":
        z = []
        for v in x:
            z += [mid(0.01, 0.05), v, mid(0.5, 1.0)]
        return beam(z, 50e3, 200e9)
    return dict(WingWeight=wing, WeldedBeam=weld, WaterFlow=water, TorsionVibration=torsion, WaterFlowLFidelity=lambda x: water(x, 5.0, 1.5))[k](x)


@sub(gen.cases(name=st.sampled_from(NAMES), nd=st.sampled_from([1, 2, 3, 4, 6]), fd=st.integers(0, 4), order=st.sampled_from([2, 1, 3, 4]), func=st.sampled_from(sorted(TP)), width=st.sampled_from([1.0, 2, 0.3]), w=st.sampled_from([0.2, 0.5, 0.0, 1.0]),
               big=st.booleans(), m=st.integers(1, 6), where=st.sampled_from(["inside", "inside", "corner", "outside"])), quick=3000, thorough=60000, rule=RULE)
def formulas(case):
    p, d = make(case)
    k = case["name"]
    rng = rng_of(case, 1)
    xl = np.array(p.xlimits, float)
    need(xl.shape == (d, 2) and np.all(xl[:, 0] < xl[:, 1]), "%s: bounds %s" % (k, xl.tolist()))
    if k in BOUNDS:
        want = np.array([BOUNDS[k][i % len(BOUNDS[k])] for i in range(d)], float)
        close(xl, want, 1e-12 if k != "TorsionVibration" else 3e-3, 0, "%s: bounds" % k)
    m = case["m"]
    U = rng.rand(m, d)
    if case["where"] == "corner":
        U = np.where(rng.rand(m, d) < 0.8, np.round(U), U)
    if case["where"] == "outside" and k in ("Sphere", "Rosenbrock", "Branin", "LpNorm", "TensorProduct", "RobotArm", "NdimRosenbrock", "NdimStepFunction"):
        U = 3 * U - 1
    X = gen.scale(U, xl)
    Y = p(X)
    need(Y.shape == (m, 1) and Y.dtype == float, "%s: values %s %s" % (k, Y.shape, Y.dtype))
    want = np.array([[reference(case, [float(v) for v in x])] for x in X])
    amp = np.abs(want).max()
    if k == "Branin":
        amp = 300.0                                      # cancelling terms
    if k in ("RobotArm", "NdimRobotArm"):
        amp = d
    close(Y, want, 1e-10, 1e-13 * amp, "%s (%d inputs)" % (k, d))
    # asked again: the same array refilled, then derivatives in between
    keep = Y.copy()
    X[:-1] = gen.scale(rng.rand(m - 1, d), xl)
    close(p(X), [[reference(case, [float(v) for v in x])] for x in X], 1e-10, 1e-13 * amp, "%s after refilling the array" % k)
    need(np.array_equal(Y, keep), "%s: values returned earlier changed" % k)
    p(X, int(rng.randint(d)))
    close(p(X[-1:]), Y[-1:], 1e-12, 0, "%s at a point seen before" % k)
    return m > 1, [k, case["where"]]


@sub(gen.cases(name=st.sampled_from(["Sphere", "Rosenbrock", "Branin", "LpNorm", "RobotArm"]), nd=st.integers(2, 4), fd=st.just(1), order=st.sampled_from([2, 1, 3]), m=st.integers(2, 40)), quick=300, thorough=3000, rule="known minimum compared with random points")
def minima(case):
    """known minimisers and minimal values"""
    p, d = make(case)
    k = case["name"]
    rng = rng_of(case, 1)
    arg, val = {"Sphere": (np.zeros((1, d)), 0.0), "Rosenbrock": (np.ones((1, d)), 0.0), "LpNorm": (np.zeros((1, d)), 0.0), "RobotArm": (np.zeros((1, d)), 0.0),
                "Branin": (np.array([[-math.pi, 12.275], [math.pi, 2.275], [9.42478, 2.475]]), 0.397887)}[k]
    close(p(arg), np.full((len(arg), 1), val), 0, 1e-6, "%s at its minima" % k)
    X = gen.scale(rng.rand(case["m"], d), np.array(p.xlimits, float))
    need(np.all(p(X) >= val - 1e-6), "%s: value below the minimum" % k)
    near = arg + 0.05 * rng.randn(len(arg), d)
    need(np.all(p(near) >= val - 1e-6), "%s: value below the minimum nearby" % k)
    return True, [k]
