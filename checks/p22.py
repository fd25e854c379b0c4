"""P22: random type lists x wrapped samplings and surrogates: feasibility of every sample, sample against the wrapped method's own, predictions against the bare surrogate on encoded data, equal predictions for relaxed points with one feasible image"""
import numpy as np
from hypothesis import strategies as st
import gen, mixed, models
from core import sub, need, close, Discard, rng_of
from smt.applications import mixed_integer as MI
from smt.applications import MFK
from smt.sampling_methods import LHS, Random, FullFactorial
from smt.surrogate_models import LS, QP, IDW, RBF, KRG, KPLS, KPLSK, RMTC

RULE = "an integer or categorical variable"
LHSC = ["center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"]


@sub(gen.cases(spec=mixed.VARS, n=st.sampled_from([5, 1, 2, 12, 30]), how=st.sampled_from(["LHS", "Random", "FullFactorial"]), crit=st.sampled_from(LHSC), folded=st.sampled_from([True, False]), api=st.sampled_from(["context", "class"]), form=st.sampled_from(["list", "object"]), again=st.booleans()),
     quick=500, rule=RULE)
def samples(case):
    rng = rng_of(case, 1)
    spec, n = case["spec"], case["n"]
    lim = mixed.limits(spec, rng, case["form"])
    xt = mixed.xtypes(spec)
    W = mixed.width(spec)
    if case["how"] == "FullFactorial" and W > 10:
        raise Discard("a full grid in that many variables")
    cls, kw = dict(LHS=LHS, Random=Random, FullFactorial=FullFactorial)[case["how"]], {}
    if case["how"] == "LHS":
        kw = dict(criterion=case["crit"], random_state=int(case["seed"] % 2 ** 31))
        if n < 2 or (case["crit"] in ("correlation", "corr") and (W < 2 or n < 5)) or (W > 10 and case["crit"] == "ese"):
            kw["criterion"] = "center"
    np.random.seed(case["seed"] % 2 ** 31)
    if case["api"] == "context":
        m = MI.MixedIntegerContext(xt, lim, work_in_folded_space=case["folded"]).build_sampling_method(cls, **kw)
    else:
        k2 = dict(kw) if case["folded"] and rng.rand() < 0.5 else dict(kw, output_in_folded_space=case["folded"])
        m = MI.MixedIntegerSamplingMethod(xt, lim, cls, **k2)
    if case["again"]:
        m(n)
        np.random.seed(case["seed"] % 2 ** 31)
    X = m(n)
    if case["how"] == "LHS" and case["again"]:
        kw = None       # draws of the second call
    need(X.shape == (n, len(spec) if case["folded"] else W), "%s: shape %s for %d points" % (case["how"], X.shape, n))
    if case["folded"]:
        F = X
    else:
        F, tie = mixed.nearest(spec, X)
        close(X, mixed.encode(spec, F), 0, 0, "relaxed output is the encoding of a feasible point")
    mixed.feasible(spec, lim, F, case["how"], need)
    # the sample is the image of the wrapped method's sample
    if kw is not None:
        np.random.seed(case["seed"] % 2 ** 31)
        Z = cls(xlimits=mixed.relaxed_bounds(spec, lim), **kw)(n)
        want, tie = mixed.nearest(spec, Z)
        close(F[~tie], want[~tie], 0, 0, "%s: sample against the image of the continuous sample" % case["how"])
    return any(v != "F" for v in spec), ["how:" + case["how"], "folded:%s" % case["folded"]]


MODELS = {"LS": lambda d, b: LS(print_global=False), "IDW": lambda d, b: IDW(p=2.5, print_global=False), "RBF": lambda d, b: RBF(d0=list(0.7 * (b[:, 1] - b[:, 0])), poly_degree=0, print_global=False),
          "KRG": lambda d, b: KRG(theta0=[0.5], corr="squar_exp", print_global=False), "KRGm": lambda d, b: KRG(theta0=[0.5], corr="matern52", print_global=False), "KPLS": lambda d, b: KPLS(n_comp=1, theta0=[0.5], print_global=False),
          "MFK": lambda d, b: MFK(theta0=[0.5], print_global=False), "RMTC": lambda d, b: RMTC(xlimits=b, num_elements=2, print_global=False)}
VAR = ("KRG", "KRGm", "KPLS", "MFK")


@sub(gen.cases(spec=st.lists(st.sampled_from(["F", "I", 2, 3, "F", "I", 4]), min_size=1, max_size=4), kind=st.sampled_from(sorted(MODELS)), n=st.sampled_from([10, 6, 16]), folded=st.booleans(), relax=st.booleans(), update=st.booleans(), api=st.sampled_from(["context", "class"]), form=st.sampled_from(["list", "object"]), ny=st.sampled_from([1, 2])),
     quick=400, rule=RULE)
def surrogates(case):
    rng = rng_of(case, 2)
    spec, kind = case["spec"], case["kind"]
    lim = mixed.limits(spec, rng, case["form"])
    xt = mixed.xtypes(spec)
    B = mixed.relaxed_bounds(spec, lim)
    if kind == "RMTC" and len(B) > 3:
        raise Discard("too many relaxed variables")
    n = max(case["n"], len(B) + 4)
    Z = mixed.relaxed(spec, lim, rng, 4 * n, ties=False)
    F, _ = mixed.nearest(spec, Z)
    _, i = np.unique(F, axis=0, return_index=True)
    i = rng.permutation(i)[:n]
    if len(i) < (len(B) + 3):
        raise Discard("too few different points")
    Z, F = Z[i], F[i]
    E = np.ascontiguousarray(mixed.encode(spec, F))
    ny = case["ny"] if kind in ("LS", "IDW", "RBF") else 1
    g = rng.uniform(-1, 1, (len(spec), ny))
    V = (F - F.mean(0)) / (np.ptp(F, axis=0) + 1e-9)
    Y = np.sin(V @ g) + 0.3 * np.cos(3 * V @ g[::-1]) + 0.1 * V[:, :1]
    if kind in VAR and np.ptp(Y) < 1e-3:
        raise Discard("constant output")
    given = F if case["folded"] else (Z if case["relax"] else E)
    given = given.copy()

    def loose(F):      # whole numbers in folded data given as nearby reals
        F = F.copy()
        for c, v in enumerate(spec):
            if v == "I":
                F[:, c] += rng.uniform(-0.45, 0.45, len(F))
        return F
    if case["folded"] and case["relax"]:
        given = loose(given)
    keep = given.copy()
    bare = MODELS[kind](len(B), B)
    inner = MODELS[kind](len(B), B)
    if case["api"] == "context":
        sm = MI.MixedIntegerContext(xt, lim, work_in_folded_space=case["folded"]).build_surrogate_model(inner)
    else:
        sm = MI.MixedIntegerSurrogateModel(xt, lim, inner, input_in_folded_space=case["folded"])
    named = kind == "MFK"
    half = np.arange(0, len(E), 2)
    if named:
        if len(half) < 4:
            raise Discard("too few points")
        sm.set_training_values(given, 0.8 * Y + 0.2, name=0)
        bare.set_training_values(E, 0.8 * Y + 0.2, name=0)
    top = half if named else np.arange(len(E))
    sm.set_training_values(given[top], Y[top])
    bare.set_training_values(E[top], Y[top])

    def train(m):
        try:
            m.train()
        except ValueError as e:
            if "attempts to train" in str(e):
                raise Discard("training gave up")
            raise
        except Exception as e:
            if "ill condi" in str(e) or "undetermined" in str(e):
                raise Discard("training gave up")
            raise
    if case["update"]:
        if rng.rand() < 0.5:
            train(sm)
        Y2 = Y + 0.3 * np.cos(2 * V[:, :1])
        if named:
            sm.update_training_values(Y2 * 0.8, name=0)
            bare.set_training_values(E, Y2 * 0.8, name=0)
        sm.update_training_values(Y2[top])
        bare.set_training_values(E[top], Y2[top])
        Y = Y2
    train(bare)
    if kind in VAR and models.coef_size(bare) > 1e6:
        raise Discard("ill-conditioned")
    train(sm)
    need(np.array_equal(given, keep), "training inputs of the caller changed")
    # queries: relaxed points and others with the same feasible image
    Q = mixed.relaxed(spec, lim, rng, 7, ties=False)
    FQ, _ = mixed.nearest(spec, Q)
    EQ = np.ascontiguousarray(mixed.encode(spec, FQ))
    fns = [("values", lambda m, x: m.predict_values(x), 1.0)] + ([("variances", lambda m, x: m.predict_variances(x), 1.0)] if kind in VAR else [])
    rt = 1e-3 if kind in VAR else 1e-7
    for nm, f, _ in fns:
        want = f(bare, EQ)
        s = np.abs(want).max() + np.ptp(Y)
        if case["folded"]:
            FN = FQ.copy()
            got = f(sm, FN)
            need(np.array_equal(FN, FQ), "query points changed")
            close(f(sm, loose(FQ)), got, 1e-9, 1e-9 * s, "%s: %s at reals beside the whole numbers" % (kind, nm))
        else:
            q = Q.copy()
            got = f(sm, q)
            need(np.array_equal(q, Q), "query points changed")
            close(f(sm, EQ.copy()), got, 1e-9, 1e-9 * s, "%s: %s at relaxed points and at their feasible images" % (kind, nm))
            C, c = Q.copy(), 0
            for v in spec:       # another point with the same image
                k = v if isinstance(v, int) else 1
                if v == "I":
                    C[:, c] = np.round(C[:, c]) + rng.uniform(-0.45, 0.45, len(C))
                elif k > 1:
                    C[:, c:c + k] = 0.5 * C[:, c:c + k] ** 2
                c += k
            close(f(sm, C), got, 1e-9, 1e-9 * s, "%s: %s at two relaxed points with one feasible image" % (kind, nm))
        close(got, want, 0, rt * s, "%s: %s against the bare surrogate" % (kind, nm))
        if kind in ("IDW",) and nm == "values":
            close(f(sm, given[top]), Y[top], 0, 1e-6, "%s: values at the training points" % kind)
    return any(v != "F" for v in spec), ["kind:" + kind, "folded:%s" % case["folded"]]
