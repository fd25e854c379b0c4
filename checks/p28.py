"""P28: random smooth functions in n dimensions x descent direction x initial step x constants: returned point on the ray and within the bound, strong Wolfe conditions, bounded work, untouched arguments"""
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, close, Discard, Violation, rng_of
from smt.utils.line_search import get_line_search_class, VALID_LINE_SEARCHES

RULE = "the initial step alone does not already satisfy both conditions"
FUNS = ["quad", "quartic", "logcosh", "rosen", "sine", "exp", "well", "p4", "flat"]
ST = dict(fun=st.sampled_from(FUNS), d=st.sampled_from([3, 1, 2, 6]), la=st.sampled_from([0, 1, -1, 2, -2, 3, -3]), dirn=st.sampled_from(["grad", "random", "newtonish"]), lc=st.sampled_from([1, 0, 2, 3]),
          u1=st.sampled_from([1e-4, 1e-3, 0.1, 0.3]), u2=st.sampled_from([0.9, 0.5, 0.3, 0.99]), off=st.sampled_from([0.0, 0.0, 10.0, -1e3]), sc=st.sampled_from([0, 3, -4]))
LIMIT = 5000


class Fun:
    """f(x) = scale * (offset + sum_i g(b_i^T (x - c))), with its gradient; counts its calls"""

    def __init__(self, c, rng):
        k, d = c["fun"], c["d"]
        self.k = k
        self.B = np.linalg.qr(rng.randn(d, d))[0] * 10.0 ** (c["lc"] * rng.uniform(-0.5, 0.5, d))[:, None]
        self.c = rng.randn(d)
        self.off, self.s = c["off"], 10.0 ** c["sc"]
        self.w = rng.uniform(0.2, 3, d)
        self.calls = 0

    def g(self, t):
        k, w = self.k, self.w
        if k == "quad":
            return w * t ** 2, 2 * w * t
        if k == "quartic":
            return w * t ** 4 + t ** 2, 4 * w * t ** 3 + 2 * t
        if k == "p4":
            return w * t ** 4 + t ** 3, 4 * w * t ** 3 + 3 * t ** 2
        if k == "logcosh":
            return np.abs(t) + np.log1p(np.exp(-2 * np.abs(t))), np.tanh(t)
        if k == "sine":
            return np.sin(w * t) + 0.05 * t ** 2, w * np.cos(w * t) + 0.1 * t
        if k == "exp":
            return np.exp(np.minimum(t, 50)) - w * t, np.exp(np.minimum(t, 50)) - w
        if k == "well":
            return (t ** 2 - w) ** 2, 4 * t * (t ** 2 - w)
        if k == "flat":
            return np.sqrt(1 + t ** 2), t / np.sqrt(1 + t ** 2)
        if k == "rosen":
            return w * t ** 2 + 0.3 * np.sin(2 * t), 2 * w * t + 0.6 * np.cos(2 * t)
        raise ValueError(k)

    def count(self):
        self.calls += 1
        if self.calls > LIMIT:
            raise Violation("the search does not end: more than %d evaluations" % LIMIT)

    def __call__(self, x):
        self.count()
        return self.s * (self.off + self.g(self.B @ (x - self.c))[0].sum())

    def grad(self, x):
        self.count()
        return self.s * (self.B.T @ self.g(self.B @ (x - self.c))[1])


def setup(case):
    rng = rng_of(case, 1)
    f = Fun(case, rng)
    d = case["d"]
    x = rng.randn(d) * rng.choice([0.3, 1, 3])
    g = f.grad(x)
    if case["dirn"] == "grad":
        dx = -g
    elif case["dirn"] == "random":
        dx = rng.randn(d)
        dx *= -np.sign(dx @ g)
    else:
        dx = -(g + 0.3 * np.linalg.norm(g) * rng.randn(d) * rng.rand())
    nrm = np.linalg.norm(dx)
    if nrm == 0 or g @ dx >= -1e-3 * np.linalg.norm(g) * nrm:
        raise Discard("no descent direction")
    dx = dx / nrm * rng.choice([1, 0.1, 10])
    return rng, f, x, dx


def bracketed(phi, dphi, p0, d0, u1, u2, a0):
    """does one of the trial steps a0 * 1.5**k satisfy the conditions or enclose a point that does?  (by continuity, one exists then)"""
    last = p0
    for k in range(20):
        a = a0 * 1.5 ** k
        p, d = phi(a), dphi(a)
        if p > p0 + u1 * a * d0 or p > last or d >= -u2 * abs(d0):
            return True
        last = p
    return False


def judge(f, x, dx, new, kind, a0, u1, u2):
    need(isinstance(new, np.ndarray) and new.shape == x.shape and np.isrealobj(new) and np.isfinite(new).all(), "%s returned %r" % (kind, new))
    a = (new - x) @ dx / (dx @ dx)
    tol = 1e-13 * (np.linalg.norm(x) + np.linalg.norm(new))
    need(np.linalg.norm(new - x - a * dx) <= 10 * tol, "%s: the returned point is not on the search ray" % kind)
    da = tol / np.linalg.norm(dx)
    bound = a0 if kind == "backtracking" else a0 * 1.5 ** 20
    need(-da <= a <= bound * (1 + 1e-9) + da, "%s: step %.6g beyond the bound %.6g" % (kind, a, bound))
    f.calls = -10 ** 9
    p0, d0 = f(x), f.grad(x) @ dx
    p, d = f(new), f.grad(new) @ dx
    eps = 1e-12 * (abs(p0) + abs(p) + abs(f.s * f.off)) + abs(d) * da
    need(p <= p0 + u1 * a * d0 + eps, "%s: sufficient decrease fails: f %.12g -> %.12g, slope %.6g, step %.6g" % (kind, p0, p, d0, a))
    return a, p0, d0, p, d, eps


@sub(gen.cases(kind=st.sampled_from(["bracketed", "quadratic", "cubic"]), default=st.booleans(), **ST), quick=3000, rule=RULE)
def strong_wolfe(case):
    rng, f, x, dx = setup(case)
    kind = case["kind"]
    u1, u2 = (1e-4, 0.9) if case["default"] else (case["u1"], case["u2"])
    if u1 >= u2:
        u1 = 1e-4
    kw = {} if case["default"] else dict(u1=u1, u2=u2)
    a0 = 10.0 ** case["la"] * rng.uniform(0.5, 1.5)
    x0, dx0 = x.copy(), dx.copy()
    f.calls = 0
    new = get_line_search_class(kind)(x, dx, f, f.grad, **kw)(a0)
    need(np.array_equal(x, x0) and np.array_equal(dx, dx0), "%s: changed its arguments" % kind)
    a, p0, d0, p, d, eps = judge(f, x, dx, new, kind, a0, u1, u2)
    phi, dphi = (lambda t: f(x + t * dx)), (lambda t: f.grad(x + t * dx) @ dx)
    easy = abs(dphi(a0)) <= u2 * abs(d0) and phi(a0) <= p0 + u1 * a0 * d0
    labels = ["kind:" + kind, "fun:" + case["fun"], "step:%d" % np.round(np.log10(max(a / a0, 1e-9)))]
    # when rounding of the function values cannot blur the decision, the curvature condition must hold
    if abs(d) > u2 * abs(d0) * (1 + 1e-9):
        if abs(d0) * abs(a) < 1e4 * eps:
            raise Discard("rounding")
        labels.append("no curvature")
        need(not bracketed(phi, dphi, p0, d0, u1, u2, a0), "%s: slope %.6g at step %.6g (initial %.6g): the curvature condition fails although a trial step bracketed such a point" % (kind, d, a, d0))
    return not easy, labels


@sub(gen.cases(rho=st.sampled_from([None, 0.5, 0.8, 0.1]), default=st.booleans(), **ST), quick=1500, rule="the initial step does not already satisfy sufficient decrease")
def backtracking(case):
    rng, f, x, dx = setup(case)
    u1 = 1e-4 if case["default"] else case["u1"]
    a0 = 10.0 ** case["la"] * rng.uniform(0.5, 1.5)
    rho = case["rho"]
    x0, dx0 = x.copy(), dx.copy()
    f.calls = 0
    s = get_line_search_class("backtracking")(x, dx, f, f.grad, **({} if case["default"] else dict(u1=u1)))
    new = s(a0) if rho is None else s(a0, rho=rho)
    need(np.array_equal(x, x0) and np.array_equal(dx, dx0), "backtracking: changed its arguments")
    a, p0, d0, p, d, eps = judge(f, x, dx, new, "backtracking", a0, u1, 0.9)
    r = rho or 0.5
    if a * np.linalg.norm(dx) < 1e-6 * np.linalg.norm(x):
        raise Discard("step below the resolution of x")
    k = np.log(a / a0) / np.log(r)
    need(abs(k - round(k)) < 1e-6, "backtracking: step %.9g is not the initial one %.9g times a power of %.2g" % (a, a0, r))
    if k > 0.5:
        b = a0 * r ** (round(k) - 1)
        need(f(x + b * dx) > p0 + u1 * b * d0 - eps, "backtracking: a longer step %.6g also decreases enough" % b)
    return k > 0.5, ["shrunk:%d" % min(round(k), 9), "fun:" + case["fun"]]


@sub(gen.cases(kind=st.sampled_from([k for k in VALID_LINE_SEARCHES]), **ST), quick=500, rule="every case")
def trivial(case):
    """full step when it is good enough, no step along a zero direction, and the null search takes the step it is given"""
    rng, f, x, dx = setup(case)
    kind = case["kind"]
    cls = get_line_search_class(kind)
    a0 = 10.0 ** case["la"] * rng.uniform(0.5, 1.5)
    f.calls = 0
    z = cls(x, 0 * dx, f, f.grad)(a0)
    close(z, x, 0, 0, "%s along a zero direction" % kind)
    if kind == "null":
        close(cls(x, dx, f, f.grad)(a0), x + a0 * dx, 1e-15, 0, "null search")
        close(cls(x, dx, f, f.grad)(), x + dx, 1e-15, 0, "null search, default step")
        return True, ["null"]
    new = cls(x, dx, f, f.grad)(a0)
    p0, d0 = f(x), f.grad(x) @ dx
    pa, da = f(x + a0 * dx), f.grad(x + a0 * dx) @ dx
    margin = 1e-9 * (abs(p0) + abs(pa))
    if pa <= p0 + 1e-4 * a0 * d0 - margin and (kind == "backtracking" or abs(da) <= 0.9 * abs(d0) * (1 - 1e-9)):
        close(new, x + a0 * dx, 1e-14, 1e-14 * np.abs(x).max(), "%s: the initial step satisfies the conditions" % kind)
        return True, ["full step"]
    return False, []


@sub(gen.cases(kind=st.sampled_from(["quadratic", "cubic"]), slope=st.sampled_from(["quadratic", "cubic", "cubic"]), beyond=st.booleans(), d=st.sampled_from([1, 2, 5]), la=st.sampled_from([0, 1, -1, 2, -2]), lm=st.sampled_from([0, 2, -2]), sc=st.sampled_from([0, 5, -5]), u2=st.sampled_from([0.9, 0.5, 0.1])),
     quick=1500, rule="the minimiser was bracketed before a trial step met both conditions")
def interpolation(case):
    """a search that interpolates lands on the minimiser of a slice of its own degree as soon as it is bracketed"""
    rng = rng_of(case, 3)
    kind, s, u1, u2 = case["kind"], 10.0 ** case["sc"], 1e-4, case["u2"]
    if kind == "quadratic" or case["slope"] == "quadratic":
        m = 10.0 ** (case["lm"] * rng.uniform(0.3, 1))
        dphi, phi = (lambda a: s * (a - m)), (lambda a: s * (0.5 * a * a - m * a))
        last = np.inf
    else:
        m = 10.0 ** (case["lm"] * rng.uniform(0.3, 1))
        if case["beyond"]:                      # descends again beyond r
            k, r = -s, m * rng.uniform(2, 6)
            last = r
        else:
            k, r = s, -m * rng.uniform(0.3, 5)
            last = np.inf
        dphi = lambda a: k * (a - m) * (a - r)
        phi = lambda a: k * (a ** 3 / 3 - (m + r) * a * a / 2 + m * r * a)
    a0 = m * 10.0 ** (0.7 * case["la"]) * rng.uniform(0.6, 1.6)
    d = case["d"]
    x, dx = rng.randn(d), rng.randn(d)
    u = lambda z: (z - x) @ dx / (dx @ dx)
    f, g = (lambda z: phi(u(z))), (lambda z: dphi(u(z)) * dx / (dx @ dx))
    d0 = dphi(0.0)
    met = lambda a: phi(a) <= u1 * a * d0 and abs(dphi(a)) <= u2 * abs(d0)
    # trial steps until one meets both conditions or the minimiser is enclosed
    a, prev, trial = a0, 0.0, None
    for _ in range(20):
        if a > last * (1 - 1e-6):
            raise Discard("a trial step in the second descent")
        if abs(a - m) < 1e-6 * m or abs(abs(dphi(a)) - u2 * abs(d0)) < 1e-6 * abs(d0) or abs(phi(a) - u1 * a * d0) < 1e-6 * abs(a * d0) or abs(phi(a) - phi(prev)) < 1e-6 * abs(phi(m)):
            raise Discard("undecided")
        if phi(a) > u1 * a * d0 or phi(a) > phi(prev):
            break
        if met(a):
            trial = a
            break
        if dphi(a) >= 0:
            break
        a, prev = a * 1.5, a
    else:
        raise Discard("not enclosed")
    want = m if trial is None else trial
    if trial is None and not met(m):
        raise Discard("the minimiser does not decrease enough")
    new = get_line_search_class(kind)(x, dx, f, g, u1=u1, u2=u2)(a0)
    got = float(u(new))
    # enclosed ends far from the minimiser blur it by the rounding of their values
    big = max(abs(phi(a)), abs(phi(prev)))
    tol = 1e-9 * want + 100 * np.finfo(float).eps * (np.linalg.norm(x) / np.linalg.norm(dx) + want) + 1e-13 * big / abs(d0)
    need(abs(got - want) <= tol, "%s search of a %s slice with minimiser %.12g from the initial step %.6g: step %.12g, expected %.12g" % (kind, case["slope"], m, a0, got, want))
    return trial is None, [kind, "trial" if trial else "minimiser"]
