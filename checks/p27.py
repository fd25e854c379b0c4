"""P27: random systems (symmetric positive definite, diagonally dominant, tridiagonal) x solver x preconditioner x right-hand sides: residual oracle, reference stationary iteration and V-cycle, energy-norm descent, reuse and untouched arguments"""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
import gen
from core import sub, need, close, Discard, rng_of
from smt.utils.linear_solvers import get_solver, VALID_SOLVERS, KrylovSolver, StationarySolver, MultigridSolver
from smt.utils.printer import Printer

RULE = "at least two unknowns and a right-hand side that is not zero"
MAT = dict(kind=st.sampled_from(["spd", "spdsparse", "tri", "lap2"]), n=st.sampled_from([8, 3, 5, 14, 2, 30, 1]), lc=st.sampled_from([1, 0, 2, 4]), sc=st.sampled_from([0, 3, -3]), nr=st.sampled_from([3, 2, 1, 5]),
           buf=st.sampled_from(["strided", "own", "none", "fortran"]), rk=st.sampled_from(["random", "random", "unit", "zero"]))


def matrix(c, rng, general=False):
    n, k = c["n"], c["kind"]
    if k == "spd":
        Q = np.linalg.qr(rng.randn(n, n))[0]
        A = (Q * 10.0 ** (c["lc"] * rng.uniform(0, 1, n))) @ Q.T
        A = (A + A.T) / 2
    elif k == "spdsparse":
        B = np.where(rng.rand(n, n) < 0.25, rng.randn(n, n), 0)
        B = B + B.T
        np.fill_diagonal(B, 0)
        A = B + np.diag(np.abs(B).sum(1) + rng.uniform(0.3, 3, n))
    elif k == "tri":
        o = rng.uniform(0.1, 1, max(n - 1, 0))
        A = np.diag(2.0 + rng.rand(n) + 0.2) - np.diag(o, 1) - np.diag(o, -1)
    else:
        m = max(1, int(round(np.sqrt(n))))
        T = 2.05 * np.eye(m) - np.eye(m, k=1) - np.eye(m, k=-1)
        A = np.kron(T, np.eye(m)) + np.kron(np.eye(m), T)
    n = len(A)
    if general:
        B = np.where(rng.rand(n, n) < 0.4, rng.randn(n, n), 0)
        np.fill_diagonal(B, 0)
        A = B + np.diag(rng.choice([-1, 1] if general == "signed" else [1], n) * (np.abs(B).sum(1) + np.abs(B).sum(0) + rng.uniform(0.3, 2, n)))
    return A * 10.0 ** c["sc"]


def rhss(c, rng, n):
    if c["rk"] == "unit":
        R = np.eye(n)[:, rng.permutation(n)[:c["nr"]]]
        if R.shape[1] < c["nr"]:
            R = np.hstack([R, rng.randn(n, c["nr"] - R.shape[1])])
    else:
        R = rng.randn(n, c["nr"]) * 10.0 ** rng.randint(-3, 4, c["nr"])
        if c["rk"] == "zero":
            R[:, rng.randint(c["nr"])] = 0
    return R


def quiet():
    p = Printer()
    p.active = False
    return p


def run(s, M, A, R, c, rng, what, init=None):
    """solves every column in the layout asked for; returns the solutions"""
    n = len(A)
    if sp.issparse(M):
        keep = (M.data.copy(), M.indices.copy(), M.indptr.copy())
    else:
        keep = (M.copy(),)
    p = quiet()
    s._setup(M, p)
    R = np.asfortranarray(R) if c["buf"] == "fortran" else R
    Rk = R.copy()
    X = np.zeros((n, R.shape[1]))
    if init is not None:
        X[:] = init
    for j in range(R.shape[1]):
        if c["buf"] in ("strided", "fortran"):
            out = s._solve(R[:, j], X[:, j], ind_y=j)
            if out is not None:
                need(np.shares_memory(out, X), "%s: the solution given is not the one filled" % what)
        elif c["buf"] == "own":
            x = X[:, j].copy()
            s._solve(np.array(R[:, j]), x)
            X[:, j] = x
        else:
            X[:, j] = s._solve(R[:, j])
    need(np.array_equal(R, Rk), "%s: changed the right-hand side" % what)
    now = (M.data, M.indices, M.indptr) if sp.issparse(M) else (M,)
    need(all(np.array_equal(a, b) for a, b in zip(keep, now)), "%s: changed the matrix" % what)
    need(p.active is False, "%s: left the printer active" % what)
    return X


def residual(A, X, R, what, tol):
    for j in range(R.shape[1]):
        b, x = R[:, j], X[:, j]
        r = np.linalg.norm(A @ x - b)
        bound = tol * (np.linalg.norm(b) + 1e-3 * np.linalg.norm(A, 2) * np.linalg.norm(x)) + 1e-300
        need(r <= bound, "%s, right-hand side %d: residual %.3g of %.3g" % (what, j, r, np.linalg.norm(b)))


@sub(gen.cases(solver=st.sampled_from(["dense-chol", "lu", "dense-lu", "dense-lu-sparse"]), general=st.booleans(), **MAT), quick=1200, rule=RULE)
def direct(case):
    rng = rng_of(case, 1)
    g = case["general"] and case["solver"] != "dense-chol"
    A = matrix(case, rng, g and "signed")
    R = rhss(case, rng, len(A))
    nm = case["solver"].replace("-sparse", "")
    M = A.copy() if case["solver"] == "dense-lu" else sp.csc_matrix(A)
    what = "%s on %s" % (case["solver"], "general" if g else case["kind"])
    X = run(get_solver(nm), M, A, R, case, rng, what, rng.randn(*R.shape))
    residual(A, X, R, what, 1e-11)
    return len(A) > 1 and bool(R.any()), ["solver:" + case["solver"], "kind:" + case["kind"]]


def by_name(name):
    return KrylovSolver(pc="dense") if name == "krylov-dense*" else get_solver(name)


@sub(gen.cases(solver=st.sampled_from(["krylov-dense", "krylov", "krylov-lu", "krylov-mg", "cg-jacobi", "gmres", "gmres", "gmres", "bicgstab", "bicgstab"]), pc=st.sampled_from([None, "lu", "jacobi", "gs", "ilu", "mg", "dense", "own"]),
               general=st.booleans(), warm=st.integers(0, 2), **MAT), quick=1000, rule=RULE)
def krylov(case):
    rng = rng_of(case, 2)
    nm, pc = case["solver"], case["pc"]
    iterative = nm in ("gmres", "bicgstab")
    g = iterative and case["general"] and pc not in ("dense",)
    c = dict(case, lc=min(case["lc"], 2), n=min(case["n"], 30))
    if iterative and c["buf"] == "none":
        c["sc"] = min(c["sc"], 0)  # started from the right-hand side itself: scipy's gmres breaks down when that is a huge initial residual
    if pc in ("jacobi", "gs") and c["kind"] == "spd":
        c["kind"] = "spdsparse"
    A = matrix(c, rng, g and (True if nm == "bicgstab" else "signed"))
    n = len(A)
    R = rhss(c, rng, n)
    if iterative:
        s = KrylovSolver(solver=nm, pc=StationarySolver(solver="gs", ilimit=3) if pc == "own" else pc)
    elif nm == "cg-jacobi":
        # a symmetric preconditioner: the diagonal alone, applied from zero
        s = KrylovSolver(solver="cg", pc=DiagonalOnly())
    else:
        s = get_solver(nm)
    what = "%s%s on %s" % (nm, " with %s" % pc if iterative else "", "general" if g else c["kind"])
    init = None if case["warm"] else rng.randn(n, R.shape[1]) * np.linalg.norm(R, axis=0) / np.linalg.norm(A, 2)
    X = run(s, sp.csc_matrix(A), A, R, c, rng, what, init)
    if nm == "bicgstab":
        # the method itself may break down on other systems, but is never worse than the start
        start = np.zeros(R.shape) if init is None else init
        if c["buf"] == "none":
            start = R
        need((np.linalg.norm(A @ X - R, axis=0) <= np.linalg.norm(A @ start - R, axis=0) * (1 + 1e-9) + 1e-12 * np.linalg.norm(R, axis=0)).all(), "%s: worse than the initial guess" % what)
        if g or c["rk"] == "unit" or pc in ("gs", "jacobi", "own"):
            return n > 1 and bool(R.any()), ["solver:bicgstab"]
        tol = 1e-5
    else:
        tol = 1e-8
    residual(A, X, R, what, tol)
    return n > 1 and bool(R.any()), ["solver:" + what.split(" on ")[0], "warm:%s" % (init is not None)]


class DiagonalOnly(type(get_solver("jacobi")).__mro__[1]):
    def _setup(self, mtx, printer, mg_matrices=[]):
        self.printer = printer
        self.d = mtx.diagonal()

    def _solve(self, rhs, sol=None, ind_y=0):
        return rhs / self.d


def stationary(A, b, x, kind, w, it):
    D = np.diag(np.diag(A))
    P = D / w if kind == "jacobi" else np.tril(A, -1) + D / w
    for _ in range(it):
        x = x + np.linalg.solve(P, b - A @ x)
    return x


STAT = dict(smoother=st.sampled_from(["gs", "jacobi"]), damping=st.sampled_from([1.0, 0.7, 0.4, 1, 1.3]), ilimit=st.sampled_from([10, 1, 2, 5, 30, 0]))


@sub(gen.cases(general=st.booleans(), byname=st.booleans(), warm=st.booleans(), **STAT, **MAT), quick=900, rule=RULE)
def stationary_iteration(case):
    rng = rng_of(case, 3)
    kind = case["smoother"]
    c = dict(case)
    if c["kind"] == "spd" and kind == "jacobi":
        c["kind"] = "tri"
    g = case["general"]
    A = matrix(c, rng, g and "signed")
    n = len(A)
    R = rhss(c, rng, n)
    w, it = (1.0, 10) if case["byname"] else (case["damping"], case["ilimit"])
    if kind == "jacobi" or g:
        w = min(w, 1.0)
    s = get_solver(kind) if case["byname"] else StationarySolver(solver=kind, damping=w, ilimit=it)
    init = rng.randn(n, R.shape[1]) * np.abs(R).max() / np.abs(A).max() if case["warm"] else np.zeros(R.shape)
    if c["buf"] == "none":
        init = R.copy()
    what = "%s (damping %s, %d steps) on %s" % (kind, w, it, "general" if g else c["kind"])
    X = run(s, sp.csc_matrix(A), A, R, c, rng, what, init)
    E = np.linalg.solve(A, R)
    for j in range(R.shape[1]):
        ref = stationary(A, R[:, j], init[:, j], kind, w, it)
        size = np.abs(E[:, j]).max() + np.abs(init[:, j]).max()
        close(X[:, j], ref, 0, 1e-9 * size + 1e-300, "%s, right-hand side %d" % (what, j))
    # it converges to the solution: (strictly) diagonally dominant or SPD with gs
    if it >= 1 and not g:
        def en(Z):
            D = Z - E
            return np.sqrt(np.maximum(np.einsum("ij,ik,kj->j", D, A, D), 0))
        need((en(X) <= en(init) * (1 + 1e-9) + 1e-11 * (en(0 * E) + en(init))).all(), "%s: further from the solution than the start" % what)
    return n > 1 and it > 0 and bool(R.any()), ["kind:" + kind, "w:%s" % w]


def prolongations(rng, n, levels):
    out = []
    for _ in range(levels):
        m = (n + 1) // 2
        if m == n:
            break
        P = np.zeros((n, m))
        P[np.arange(n), np.arange(n) // 2] = rng.uniform(0.3, 1, n)
        if n > 3:
            P[np.arange(1, n), (np.arange(1, n) - 1) // 2] += rng.uniform(0, 0.4, n - 1)
        out.append(P)
        n = m
    return out


def vcycle(As, Ps, smooth, b, cycles):
    """reference multigrid: one pass without pre-smoothing, then V-cycles"""
    L = len(Ps)

    def correct(l, r, pre):
        A = As[l]
        if l == L:
            return np.linalg.solve(A, r)
        x = np.zeros(len(r))
        return step(l, r, x, pre)

    def step(l, r, x, pre):
        A = As[l]
        if l == L:
            return np.linalg.solve(A, r)
        if pre:
            x = smooth(A, r, x)
        x = x + Ps[l] @ correct(l + 1, Ps[l].T @ (r - A @ x), pre)
        return smooth(A, r, x)

    x = step(0, b, np.zeros(len(b)), False)
    for _ in range(cycles):
        x = step(0, b, x, True)
    return x


@sub(gen.cases(how=st.sampled_from(["instance", "name", "instance", "null", "krylov"]), levels=st.sampled_from([1, 2, 3, 0]), cycles=st.sampled_from([1, 2, 0, 4]), **STAT, **MAT), quick=600, rule=RULE)
def multigrid(case):
    rng = rng_of(case, 4)
    how, kind, w, it = case["how"], case["smoother"], case["damping"], case["ilimit"]
    c = dict(case, lc=min(case["lc"], 2))
    if kind == "jacobi" and how in ("instance", "name"):
        w = min(w, 0.5)
    if kind == "jacobi" and c["kind"] == "spd":
        c["kind"] = "tri"  # it diverges otherwise
    if how == "name":
        w, it = 1.0, 10
        kind = "gs"
    A = matrix(c, rng)
    n = len(A)
    Ps = prolongations(rng, n, case["levels"])
    As = [A]
    for P in Ps:
        As.append(P.T @ As[-1] @ P)
    R = rhss(c, rng, n)
    if how == "instance":
        opt = StationarySolver(solver=kind, damping=w, ilimit=it)
        smooth = lambda M, b, x: stationary(M, b, x, kind, w, it)
    elif how == "name":
        opt, smooth = "gs", lambda M, b, x: stationary(M, b, x, "gs", 1.0, 10)
    elif how == "krylov":
        opt, smooth = "krylov", None
    else:
        opt, smooth = "null", lambda M, b, x: x
    what = "multigrid (%s %s damping %s, %d steps; %d levels, %d cycles) on %s" % (how, kind, w, it, len(Ps), case["cycles"], c["kind"])
    s = MultigridSolver(solver=opt, mg_cycles=case["cycles"])
    M = sp.csc_matrix(A)
    mats = [sp.csc_matrix(P) for P in Ps]
    s._setup(M, quiet(), mg_matrices=mats)
    E = np.linalg.solve(A, R)
    X = np.zeros(R.shape)
    order = list(range(R.shape[1])) + [0]
    for t, j in enumerate(order):
        x = rng.randn(n)
        Rj = R[:, j].copy()
        out = s._solve(Rj, x)
        need(out is x and np.array_equal(Rj, R[:, j]), "%s: arguments" % what)
        if t == len(order) - 1:
            close(x, X[:, 0], 0, 1e-9 * np.abs(E[:, 0]).max() + 1e-300, "%s: the same right-hand side solved again later" % what)
        X[:, j] = x
    size = np.abs(E).max(0)
    if not Ps or how == "krylov":
        residual(A, X, R, what, 1e-8)
    if smooth is not None:
        for j in range(R.shape[1]):
            ref = vcycle(As, Ps, smooth, R[:, j], case["cycles"])
            close(X[:, j], ref, 0, 1e-8 * size[j] + 1e-300, "%s, right-hand side %d" % (what, j))

    def en(Z):
        D = Z - E
        return np.sqrt(np.maximum(np.einsum("ij,ik,kj->j", D, A, D), 0))
    e0, e1 = en(0 * E), en(X)
    if how != "instance" or kind == "gs":
        need((e1 <= e0 * (1 + 1e-9)).all(), "%s: energy of the error grew from %s to %s" % (what, e0, e1))
    return n > 1 and len(Ps) > 0 and bool(R.any()), ["how:" + how, "levels:%d" % len(Ps), "kind:" + kind]


@sub(gen.cases(a=st.sampled_from([s for s in VALID_SOLVERS if s != "null"]), b=st.integers(1, 5), **MAT), quick=300, rule=RULE)
def reuse(case):
    """the answer for a right-hand side does not depend on the ones solved before, and a second setup replaces the first"""
    rng = rng_of(case, 5)
    c = dict(case, lc=min(case["lc"], 2))
    if case["a"] in ("jacobi", "gs") and c["kind"] == "spd":
        c["kind"] = "tri"
    A1, A2 = matrix(c, rng), matrix(dict(c, n=max(1, c["n"] - 1)), rng)
    s = get_solver(case["a"])
    tolerance = dict(gs=None, jacobi=None, ilu=None).get(case["a"], 1e-8)
    for A in (A1, A2):
        n = len(A)
        s._setup(sp.csc_matrix(A), quiet())
        R = rng.randn(n, case["b"])
        first = []
        for j in range(case["b"]):
            first.append(s._solve(R[:, j], np.zeros(n)).copy())
        for j in reversed(range(case["b"])):
            again = s._solve(R[:, j], np.zeros(n))
            close(again, first[j], 0, 1e-9 * (np.abs(first[j]).max() + np.linalg.norm(np.linalg.solve(A, R[:, j]))), "%s: right-hand side %d solved again" % (case["a"], j))
        if tolerance:
            residual(A, np.array(first).T, R, case["a"], tolerance)
    return len(A1) > 1, ["solver:" + case["a"]]


@sub(gen.cases(n=st.integers(2, 40), lc=st.integers(0, 11), solver=st.sampled_from(["krylov-dense", "krylov-lu", "bicgstab-dense", "bicgstab-lu"]), ilimit=st.sampled_from([100, 100, 300, 1000]), zero=st.booleans()), quick=300, thorough=6000,
     rule="the preconditioner is the exact inverse: iterations continue far below round-off")
def exact_preconditioner(case):
    """the solution stays accurate however long the iteration goes on"""
    rng = rng_of(case, 2)
    n = case["n"]
    Q = np.linalg.qr(rng.randn(n, n))[0]
    A = (Q * 10.0 ** (-case["lc"] * rng.uniform(0, 1, n))) @ Q.T
    A = (A + A.T) / 2
    nm, pc = case["solver"].split("-")
    s = KrylovSolver(solver="cg" if nm == "krylov" else nm, pc=pc, ilimit=case["ilimit"])
    s._setup(sp.csc_matrix(A), quiet())
    for _ in range(3):
        b = rng.randn(n) * 10.0 ** rng.randint(-3, 4)
        x = np.zeros(n) if case["zero"] else rng.randn(n)
        s._solve(b, x)
        r = np.linalg.norm(A @ x - b)
        need(np.all(np.isfinite(x)) and r <= 1e-9 * (np.linalg.norm(A, 2) * np.linalg.norm(x) + np.linalg.norm(b)), lambda: "%s: residual %.3g for |b| = %.3g" % (case["solver"], r, np.linalg.norm(b)))
    return True, [case["solver"], "digits%d" % case["lc"]]
