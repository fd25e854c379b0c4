"""Independent reference for the minimum-energy tensor-product splines (RMTB, RMTC)."""
import numpy as np
from scipy.interpolate import BSpline


class Basis1:
    """1-D basis on [0,1]. kind 'b': uniform B-splines (order, ncp); kind 'c': cubic Hermite on ne elements (value, half-element slope)."""

    def __init__(self, kind, a, b=None):
        self.kind = kind
        if kind == "b":
            self.order, self.ncp = a, b
            self.ne = b - a + 1
            self.size = b
            self.knots = (np.arange(a + b) - a + 1.0) / self.ne
        else:
            self.ne = a
            self.size = 2 * (a + 1)

    def __call__(self, t, der=0):
        t = np.asarray(t, float)
        M = np.zeros((len(t), self.size))
        if self.kind == "b":
            tt = np.clip(t, 0, 1 - 1e-15)
            for i in range(self.size):
                c = np.zeros(self.size)
                c[i] = 1.0
                s = BSpline(self.knots, c, self.order - 1, extrapolate=False)
                M[:, i] = s(tt, nu=der) if der else s(tt)
            return np.nan_to_num(M)
        ne = self.ne
        e = np.clip(np.ceil(t * ne).astype(int) - 1, 0, ne - 1)
        z = np.clip(2 * (t * ne - e) - 1, -1, 1)            # element coordinate in [-1, 1]
        # Hermite shape functions in z: values at -1, 1 and slopes (per z) at -1, 1
        P = {0: [(2 - 3 * z + z ** 3) / 4, (2 + 3 * z - z ** 3) / 4, (1 - z - z ** 2 + z ** 3) / 4, (-1 - z + z ** 2 + z ** 3) / 4],
             1: [(-3 + 3 * z ** 2) / 4, (3 - 3 * z ** 2) / 4, (-1 - 2 * z + 3 * z ** 2) / 4, (-1 + 2 * z + 3 * z ** 2) / 4],
             2: [6 * z / 4, -6 * z / 4, (-2 + 6 * z) / 4, (2 + 6 * z) / 4]}[der]
        r = np.arange(len(t))
        f = (2.0 * ne) ** der
        M[r, e] += P[0] * f
        M[r, e + 1] += P[1] * f
        M[r, ne + 1 + e] += P[2] * f
        M[r, ne + 1 + e + 1] += P[3] * f
        return M


class Spline:
    """Space, energy and fit. xl: [d, 2]; bases: list of Basis1."""

    def __init__(self, bases, xl):
        self.b, self.xl, self.w = bases, xl, xl[:, 1] - xl[:, 0]
        self.d = len(bases)
        self.size = int(np.prod([q.size for q in bases]))

    def mat(self, X, der=None):
        """Evaluation matrix; der: derivative order per dimension (physical units)."""
        der = der or [0] * self.d
        T = (X - self.xl[:, 0]) / self.w
        M = np.ones((len(X), 1))
        for k in range(self.d):
            B = self.b[k](T[:, k], der[k]) / self.w[k] ** der[k]
            M = (M[:, :, None] * B[:, None, :]).reshape(len(X), -1)
        return M

    def e(self, k, m=1):
        v = [0] * self.d
        v[k] = m
        return v

    def energy(self, smooth):
        g = [(np.arange(2 * q.ne) + 0.5) / (2 * q.ne) for q in self.b]
        U = np.stack([a.ravel() for a in np.meshgrid(*g, indexing="ij")], axis=1)
        X = self.xl[:, 0] + U * self.w
        E = np.zeros((self.size, self.size))
        for k in range(self.d):
            M = self.mat(X, self.e(k, 2))
            E += smooth[k] * M.T @ M / len(U)
        return E

    def problem(self, data, reg, ew, smooth, gw):
        """data: {0: (X, Y), k+1: (X, dY)}; returns (quadratic part, [(J, Y, c)])."""
        H = reg * np.eye(self.size)
        if ew is not None:
            H = H + ew * self.energy(smooth)
        terms = []
        for kx, (X, Y) in data.items():
            J = self.mat(X) if kx == 0 else self.mat(X, self.e(kx - 1))
            terms.append((J, Y, 1.0 if kx == 0 else gw / self.d))
        return H, terms


def objective(H, terms, s, iy, p):
    return 0.5 * s @ H @ s + sum(0.5 * c * np.sum((J @ s - Y[:, iy]) ** p) for J, Y, c in terms)


def gradient(H, terms, s, iy, p):
    return H @ s + sum(0.5 * c * p * J.T @ (J @ s - Y[:, iy]) ** (p - 1) for J, Y, c in terms)


def hessian(H, terms, s, iy, p):
    return H + sum(0.5 * c * p * (p - 1) * J.T @ (((J @ s - Y[:, iy]) ** (p - 2))[:, None] * J) for J, Y, c in terms)


def solve_quadratic(H, terms):
    A = H + sum(c * J.T @ J for J, Y, c in terms)
    R = sum(c * J.T @ Y for J, Y, c in terms)
    sc = 1 / np.sqrt(np.diag(A))
    As = A * sc[:, None] * sc[None]
    cs = np.linalg.cond(As)
    if not cs < 1e15:
        return sc[:, None] * R, np.inf, np.inf
    return sc[:, None] * np.linalg.solve(As, sc[:, None] * R), cs, np.linalg.cond(A)
