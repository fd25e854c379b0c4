"""P21: random type lists, bounds and points: folding, unfolding and casting against an independent encoding; round trips, idempotence, nearest feasible point, category values, refused specifications"""
import numpy as np
from hypothesis import strategies as st
import gen, mixed
from core import sub, need, close, Discard, rng_of
from smt.applications import mixed_integer as MI

RULE = "an integer or categorical variable next to at least one other"
ST = dict(spec=mixed.VARS, form=st.sampled_from(["list", "object"]), n=st.sampled_from([1, 2, 6, 15]), api=st.sampled_from(["context", "function"]), work=st.booleans())


def same(a, b, what):
    need(np.shape(a) == np.shape(b), "%s: shape %s instead of %s" % (what, np.shape(a), np.shape(b)))
    close(a, b, 0, 0, what)


class Api:
    def __init__(self, case, lim):
        xt = mixed.xtypes(case["spec"])
        self.ctx = MI.MixedIntegerContext(xt, lim, work_in_folded_space=case["work"])
        c = case["api"] == "context"
        self.fold = self.ctx.fold_with_enum_index if c else lambda x: MI.fold_with_enum_index(xt, x)
        self.unfold = self.ctx.unfold_with_enum_mask if c else lambda x: MI.unfold_with_enum_mask(xt, x)
        self.cast = self.ctx.cast_to_discrete_values if c else lambda x: MI.cast_to_discrete_values(xt, x)
        self.value = self.ctx.cast_to_enum_value if c else lambda j, i: MI.cast_to_enum_value(lim, j, i)
        self.typed = self.ctx.cast_to_mixed_integer if c else lambda x: MI.cast_to_mixed_integer(xt, lim, x)
        self.bounds = self.ctx.get_unfolded_xlimits if c else lambda: MI.unfold_xlimits_with_continuous_limits(xt, lim)
        self.dim = self.ctx.get_unfolded_dimension if c else lambda: MI.compute_unfolded_dimension(xt)


@sub(gen.cases(**ST), quick=1600, rule=RULE)
def encoding(case):
    rng = rng_of(case, 1)
    spec, n = case["spec"], case["n"]
    lim = mixed.limits(spec, rng, case["form"])
    a = Api(case, lim)
    X = mixed.folded(spec, lim, rng, n)
    E = mixed.encode(spec, X)
    Xk = X.copy()
    U = a.unfold(X)
    same(U, E, "unfolded points")
    same(a.fold(U), X, "folding unfolded points")
    same(a.cast(U), E, "casting feasible points")
    need(np.array_equal(X, Xk) and np.array_equal(U, E), "arguments changed")
    if n == 1 or rng.rand() < 0.3:
        same(a.unfold(X[0]), E[:1], "unfolding one point")
        same(a.fold(E[0]), X[:1], "folding one point")
    b = a.bounds()
    same(b, mixed.relaxed_bounds(spec, lim), "relaxed bounds")
    need(a.dim() == mixed.width(spec), "relaxed dimension %s" % a.dim())
    for j, v in enumerate(spec):
        if isinstance(v, int):
            idx = [int(i) for i in rng.randint(0, v, 4)]
            need(list(a.value(j, idx)) == [lim[j][i] for i in idx], "category values of variable %d" % j)
    t = a.typed(X[0])
    need(len(t) == len(spec), "typed point has %d entries" % len(t))
    for j, v in enumerate(spec):
        want = lim[j][int(X[0, j])] if isinstance(v, int) else X[0, j]
        need(t[j] == want and (v != "I" or isinstance(t[j], (int, np.integer))), "typed value of variable %d: %r instead of %r" % (j, t[j], want))
    return len(spec) > 1 and any(v != "F" for v in spec), ["cat:%d" % sum(isinstance(v, int) for v in spec)]


@sub(gen.cases(ties=st.booleans(), **ST), quick=1600, rule=RULE)
def casting(case):
    """every relaxed point is sent to the nearest feasible one"""
    rng = rng_of(case, 2)
    spec, n = case["spec"], case["n"]
    lim = mixed.limits(spec, rng, case["form"])
    a = Api(case, lim)
    Z = mixed.relaxed(spec, lim, rng, n, case["ties"])
    Zk = Z.copy()
    C = a.cast(Z)
    need(np.array_equal(Z, Zk), "argument changed")
    need(C.shape == Z.shape, "cast points have shape %s" % (C.shape,))
    F = a.fold(C)
    mixed.feasible(spec, lim, F, "cast point", need)
    same(C, mixed.encode(spec, F), "cast point against the encoding of its folded form")
    same(a.cast(C), C, "casting twice")
    X, tie = mixed.nearest(spec, Z)
    same(F[~tie], X[~tie], "nearest feasible point")
    # with ties: as near as any
    c = 0
    for j, v in enumerate(spec):
        if v == "I":
            need((np.abs(Z[:, c] - F[:, j]) <= 0.5).all(), "integer variable %d is not rounded to the closest" % j)
        elif v == "F":
            same(F[:, j], Z[:, c], "continuous variable %d" % j)
        else:
            need((Z[np.arange(n), c + F[:, j].astype(int)] == Z[:, c:c + v].max(axis=1)).all(), "variable %d: not a level with the largest score" % j)
        c += v if isinstance(v, int) else 1
    # folding a relaxed point: level of the largest score
    G = a.fold(Z)
    for j, v in enumerate(spec):
        if isinstance(v, int):
            need((G[~tie, j] == X[~tie, j]).all(), "folding relaxed points: level of variable %d" % j)
            need((G[:, j] == F[:, j]).all(), "variable %d: folding a relaxed point picks another level than casting it" % j)
    # typed values of points whose integers carry noise
    i = rng.randint(n)
    p = F[i].copy()
    for j, v in enumerate(spec):
        if v == "I":
            p[j] += rng.uniform(-0.4, 0.4)
    t = a.typed(p)
    for j, v in enumerate(spec):
        if v == "I":
            need(t[j] == F[i, j], "typed integer %r of %r" % (t[j], p[j]))
    return len(spec) > 1 and any(v != "F" for v in spec), ["ties:%d" % min(int(tie.sum()), 3)]


@sub(gen.cases(spec=mixed.VARS, how=st.sampled_from(["length", "levels", "type", "tuple", "bounds"]), where=st.sampled_from(["context", "sampling", "surrogate"])), quick=200, rule="every case")
def refused(case):
    """inconsistent specifications are refused"""
    from smt.surrogate_models import LS
    from smt.sampling_methods import LHS
    rng = rng_of(case, 3)
    spec = list(case["spec"])
    lim = mixed.limits(spec, rng)
    xt = mixed.xtypes(spec)
    h = case["how"]
    j = rng.randint(len(spec))
    if h == "length":
        lim = lim + [[0.0, 1.0]] if rng.rand() < 0.5 else lim[:-1]
    elif h == "levels":
        xt[j] = (MI.ENUM, 3)
        lim[j] = ["a", "b"]
    elif h == "type":
        xt[j] = "ordinal"
        lim[j] = [0.0, 1.0]
    elif h == "tuple":
        xt[j] = ("level", 2)
        lim[j] = ["a", "b"]
    else:
        xt[j] = [MI.FLOAT, MI.INT][rng.randint(2)]
        lim[j] = [0, 1, 2]
    w = case["where"]
    try:
        if w == "context":
            MI.MixedIntegerContext(xt, lim)
        elif w == "sampling":
            MI.MixedIntegerSamplingMethod(xt, lim, LHS)
        else:
            MI.MixedIntegerSurrogateModel(xt, lim, LS(print_global=False))
    except ValueError:
        return True, [h]
    need(False, "accepted: types %s with bounds %s" % (xt, lim))
