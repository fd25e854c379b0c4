"""Bayesian-optimisation runs with recorded objective calls and recorded surrogate trainings."""
import copy
import numpy as np
import gen, mixed
from smt.applications import EGO
from smt.applications.ego import Evaluator
from smt.surrogate_models import KRG, KPLS, KPLSK


class Rec:
    """surrogate wrapper mix-in: remembers every training set and a snapshot of the trained model"""
    def set_training_values(self, xt, yt, name=None):
        self.__dict__.setdefault("seen", []).append((np.array(xt, float), np.array(yt, float)))
        return super().set_training_values(xt, yt, name)

    def _train(self):
        r = super()._train()
        seen = self.__dict__.pop("seen", [])
        old = self.__dict__.pop("snaps", [])
        old.append((seen[-1], copy.deepcopy(self)))
        self.snaps, self.seen = old, seen
        return r


class RKRG(Rec, KRG):
    pass


class RKPLS(Rec, KPLS):
    pass


class RKPLSK(Rec, KPLSK):
    pass


MODELS = dict(KRG=RKRG, KPLS=RKPLS, KPLSK=RKPLSK)


def surrogate(name, d, corr="squar_exp", poly="constant", **kw):
    if name == "KRG":
        return RKRG(theta0=[0.1] * d, corr=corr, poly=poly, print_global=False, **kw)
    h = 1
    return MODELS[name](n_comp=h, theta0=[0.1] * h, poly=poly, print_global=False, **kw)


class Counting(Evaluator):
    def __init__(self):
        self.runs = []

    def run(self, fun, x):
        self.runs.append(np.array(x, float))
        return np.vstack([fun(x[i:i + 1]) for i in range(len(x))])


class Objective:
    """row-wise deterministic objective on folded points; records its calls"""
    def __init__(self, spec, lim, rng, scale=1.0, shift=0.0):
        B = np.array([[0, max(v - 1, 1)] if isinstance(v, int) else l for v, l in zip(spec, lim)], float)
        self.lo, self.w = B[:, 0], B[:, 1] - B[:, 0]
        d = len(spec)
        self.c, self.a, self.b, self.f = rng.rand(d), rng.uniform(0.3, 2, d), rng.uniform(-1, 1, d), rng.uniform(2, 7, d)
        self.s, self.t, self.calls = scale, shift, []

    def row(self, x):
        u = (np.asarray(x, float) - self.lo) / self.w
        v = 0.0
        for j in range(len(u)):
            v += self.a[j] * (u[j] - self.c[j]) ** 2 + 0.4 * np.sin(self.f[j] * u[j] + self.b[j])
        return self.t + self.s * v

    def values(self, X):
        return np.array([[self.row(x)] for x in np.atleast_2d(X)])

    def fun(self):
        def f(x):
            x = np.asarray(x)
            self.calls.append(np.array(x, float))
            return self.values(x)
        return f
