"""Independent reference implementations used as oracles."""
import numpy as np


def kernel(corr, theta, A, B, W=None):
    """Correlation matrix between rows of A and B. W: [d, h] PLS rotations (theta has h entries)."""
    if corr == "act_exp":                                  # theta: projection [d, h]
        return np.exp(-0.5 * (((A @ theta)[:, None, :] - (B @ theta)[None, :, :]) ** 2).sum(-1))
    D = np.abs(A[:, None, :] - B[None, :, :])
    theta = np.asarray(theta, float).ravel()
    if corr == "squar_exp":
        E = D ** 2 if W is None else (D ** 2) @ (W ** 2)
        return np.exp(-(E * theta).sum(-1))
    if corr == "abs_exp":
        E = D if W is None else D @ np.abs(W)
        return np.exp(-(E * theta).sum(-1))
    if W is not None:
        raise ValueError
    t = D * theta
    if corr == "matern52":
        s = np.sqrt(5) * t
        return np.prod(1 + s + 5.0 / 3 * t ** 2, axis=-1) * np.exp(-s.sum(-1))
    if corr == "matern32":
        s = np.sqrt(3) * t
        return np.prod(1 + s, axis=-1) * np.exp(-s.sum(-1))
    raise ValueError(corr)


def basis(poly, X):
    n, d = X.shape
    cols = [np.ones(n)]
    if poly in ("linear", "quadratic"):
        cols += [X[:, i] for i in range(d)]
    if poly == "quadratic":
        cols += [X[:, i] * X[:, j] for i in range(d) for j in range(i, d)]
    return np.stack(cols, axis=1)


def standardize(X, y):
    xm, xs = X.mean(0), X.std(0, ddof=1)
    xs = np.where(np.ptp(X, axis=0) == 0, 1.0, xs)   # (the deviation of equal values can be round-off)
    ym, ys = y.mean(0), y.std(0, ddof=1)
    ys = np.where(np.ptp(y, axis=0) == 0, 1.0, ys)
    return (X - xm) / xs, (y - ym) / ys, xm, xs, ym, ys


class GP:
    """Universal kriging by dense generalised least squares (LU/inverse, no Cholesky/QR tricks)."""

    def __init__(self, X, y, corr, poly, theta, nug, W=None, basis_extra=None, std=True, dof=0):
        X, y = np.asarray(X, float), np.asarray(y, float).reshape(len(X), -1)
        self.corr, self.poly, self.theta, self.W = corr, poly, theta, W
        if isinstance(std, tuple):
            self.Xs, self.ys_, self.xm, self.xs, self.ym, self.ys = std
        else:
            self.Xs, self.ys_, self.xm, self.xs, self.ym, self.ys = standardize(X, y)
        R = kernel(corr, theta, self.Xs, self.Xs, W) + np.diag(np.ones(len(X)) * nug)
        self.R = R
        self.cond = np.linalg.cond(R)
        self.F = basis(poly, self.Xs)
        self.Ri = np.linalg.inv(R)
        self.M = self.F.T @ self.Ri @ self.F
        self.condM = np.linalg.cond(self.M)
        self.beta = np.linalg.solve(self.M, self.F.T @ self.Ri @ self.ys_)
        self.res = self.ys_ - self.F @ self.beta
        self.gamma = self.Ri @ self.res
        self.s2 = np.einsum("ij,ij->j", self.res, self.gamma) / (len(X) - dof)
        sign, ld = np.linalg.slogdet(R)
        self.loglik = -(len(X) - dof) * np.log10(self.s2.sum()) - ld / np.log(10)

    def _rf(self, x):
        x = (np.asarray(x, float) - self.xm) / self.xs
        return kernel(self.corr, self.theta, x, self.Xs, self.W), basis(self.poly, x)

    def mean(self, x):
        r, f = self._rf(x)
        return self.ym + self.ys * (f @ self.beta + r @ self.gamma)

    def var(self, x):
        r, f = self._rf(x)
        u = self.F.T @ (self.Ri @ r.T) - f.T
        q = 1.0 - np.einsum("ij,ji->i", r, self.Ri @ r.T) + np.einsum("ji,ji->i", u, np.linalg.solve(self.M, u))
        return np.outer(q, self.s2 * self.ys ** 2)


def fd(f, X, k, h):
    """Central difference of f (rows -> rows) with Richardson extrapolation; returns (value, error estimate)."""
    def cd(hh):
        P, M = X.copy(), X.copy()
        P[:, k] += hh
        M[:, k] -= hh
        den = (P[:, k] - M[:, k]).reshape(-1, *([1] * (np.asarray(f(P)).ndim - 1)))
        return (np.asarray(f(P)) - np.asarray(f(M))) / den
    a, b = cd(h), cd(h / 2)
    return (4 * b - a) / 3, np.abs(b - a)
