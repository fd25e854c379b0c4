"""P31: malformed requests (shapes, ranks, types, indices, options, unsupported features) interleaved with valid use of every model, problem, sampling and application: each must raise, and afterwards the object behaves like one that never saw them; one-dimensional data against columns"""
import contextlib, io
import numpy as np
from hypothesis import strategies as st
import gen, models, mixed
from bench import NAMES, make
from core import sub, need, close, rng_of

KINDS = ["LS", "QP", "IDW", "RBF", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "RMTB", "RMTC", "GENN", "MGP"]
FEATURES = ("derivatives", "variances", "variance_derivatives", "output_derivatives", "training_derivatives")
# what each model does not offer
LACKS = {k: {"variances", "variance_derivatives", "training_derivatives"} for k in ("IDW", "RBF")}
LACKS.update({k: {"variances", "variance_derivatives", "training_derivatives", "output_derivatives"} for k in ("LS", "QP")})
LACKS.update({k: {"output_derivatives", "training_derivatives"} for k in ("KRG", "KPLS", "KPLSK", "MFK", "MFKPLS", "MFKPLSK")})
LACKS.update({k: {"variances", "variance_derivatives"} for k in ("RMTB", "RMTC")})
LACKS["GENN"] = {"variances", "variance_derivatives", "output_derivatives"}
LACKS["GEKPLS"] = {"output_derivatives"}
LACKS["MGP"] = {"output_derivatives", "training_derivatives", "derivatives"}

BADX = ["more", "fewer", "list", "rank3", "flat", "number", "none", "text"]
REQ = st.tuples(st.sampled_from(["values", "values", "predict", "predict", "kx", "set", "set", "set", "update", "setd", "updated", "option", "newoption", "lacks", "train"]), st.integers(0, 999))
RULE = "at least three malformed requests refused by a trained model"


def refused(what, f):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = f()
    except Exception:
        return
    need(False, lambda: "%s was accepted: %s" % (what, str(r)[:120]))


def badx(X, d, v, rng):
    """a malformed version of query points X [n, d], or None if this variant is legitimate"""
    kind = BADX[v % len(BADX)]
    if kind == "more":
        return kind, np.hstack([X, rng.rand(len(X), 1 + v % 2)])
    if kind == "fewer":
        return (kind, X[:, :-1].copy()) if d > 1 else ("more", np.hstack([X, X]))
    if kind == "list":
        return kind, X.tolist()
    if kind == "rank3":
        return kind, X.reshape((len(X), d, 1)) if v % 3 else X.reshape((1, len(X), d))
    if kind == "flat":
        return (kind, X[0].copy()) if d > 1 else (kind, X[:, 0].tolist())
    return kind, {"number": 0.5, "none": None, "text": "x"}[kind]


def probes(sm, s, d, Q):
    out = {}
    for name, f in models.methods(sm, s, d).items():
        if name not in ("all_levels", "level0", "noUQ"):
            out[name] = np.array(f(Q), float)
    return out


def setup(case):
    s = dict(case["spec"], pin=True, nugget=1e-8)
    k = s["kind"]
    if k.startswith("MF") and case["v"] % 2:
        s["rho"] = "constant"
    d = min(case["d"], models.max_dim(k))
    ny = 1 if models.single_output(k) else case["ny"]
    n = max(models.min_points(s, d) + 2, 2 * d + 4 if k == "MGP" else 0, 6)
    D = models.Data(case, n, d, ny, box="shift", fam="smooth")
    models.usable(s, D)
    return s, k, d, ny, D


def request(sm, s, k, d, ny, D, Q, what, v, rng):
    """issue one malformed request; returns its name"""
    X, Y = D.X, D.Y
    name = 0 if k.startswith("MF") and v % 2 else None
    op = {"derivatives": lambda x: sm.predict_derivatives(x, 0), "variances": sm.predict_variances, "variance_derivatives": sm.predict_variance_derivatives, "output_derivatives": sm.predict_output_derivatives}
    if what in ("values", "predict"):
        f = sm.predict_values
        w = "values"
        if what == "predict":
            names = [q for q in op if q not in LACKS[k]]
            if names:
                w = names[(v // 16) % len(names)]
                f = op[w]
        kind, B = badx(Q, d, v, rng)
        if k == "MGP" and isinstance(B, np.ndarray) and B.ndim < 3 and (1 if B.ndim == 1 else B.shape[1]) == s["h"]:
            return None                                   # projected coordinates
        refused("%s: predict %s at %s points" % (k, w, kind), lambda: f(B))
        return what + kind
    if what == "kx":
        kx = [-1, d, d + 3, "0", None, -d][v % 6]
        refused("%s: derivative with respect to input %r of %d" % (k, kx, d), lambda: sm.predict_derivatives(Q, kx))
        return "kx"
    if what == "set":
        # other numbers of inputs and outputs, so that anything stored before refusing shows
        A, B = rng.rand(len(X) - 1, d + 1), rng.rand(len(X) - 2, ny + 1)
        j = v % 6
        a, b = [(A, B), (X, Y[:-1]), (X[:-1], Y), (A[:-1].tolist(), B), (A[:-1], B.tolist()), (A[:-1][:, :, None], B)][j]
        refused("%s: training data malformed (%s)" % (k, ["counts", "fewer outputs", "fewer inputs", "list inputs", "list outputs", "rank 3"][j]), lambda: sm.set_training_values(a, b, name=name))
        return "set%d" % j
    if what == "update":
        j = v % 4
        b, nm = [(Y[:-1], name), (np.vstack([Y, Y, Y]), name), (Y.tolist(), name), (Y, "never set")][j]
        refused("%s: update of training outputs malformed (%d)" % (k, j), lambda: sm.update_training_values(b, name=nm))
        return "update%d" % j
    if what == "setd":
        G = np.full((len(X), ny), 77.0)
        j = v % 6
        a, b, kx = [(X, G[:-1], 0), (X.tolist(), G, 0), (X, G, 0.5), (X, G, "0"), (X, G, -1), (X, G, d)][j]
        refused("%s: training derivatives malformed (%s)" % (k, ["counts", "list", "index 0.5", "index text", "index -1", "index nx"][j]), lambda: sm.set_training_derivatives(a, b, kx))
        return "setd%d" % j
    if what == "updated":
        G = np.full((len(X), ny), 77.0)
        j = v % 3
        b, kx, nm = [(G, -1, None), (G, d, None), (G[:-1], 0, None)][j]
        refused("%s: update of training derivatives malformed (%d)" % (k, j), lambda: sm.update_training_derivatives(b, kx, name=nm))
        return "updated%d" % j
    if what == "option":
        o = sorted(n for n, e in sm.options._declared_entries.items() if e["types"] is not None or e["values"] is not None)
        n = o[v % len(o)]
        keep = sm.options[n]

        def put():
            sm.options[n] = NotAnOption()
        refused("%s: option %s = an object of no declared type" % (k, n), put)
        need(sm.options[n] is keep, "%s: option %s changed although its new value was refused" % (k, n))
        return "option"
    if what == "newoption":
        refused("%s: undeclared option at construction" % k, lambda: type(sm)(print_global=False, no_such_option=v))

        def put():
            sm.options["no_such_option"] = v
        refused("%s: undeclared option" % k, put)
        need("no_such_option" not in sm.options, "%s: undeclared option stored" % k)
        return "newoption"
    if what == "lacks":
        names = sorted(LACKS[k])
        n = names[v % len(names)]
        if n == "training_derivatives":
            refused("%s: training derivatives, which it does not support," % k, lambda: sm.set_training_derivatives(X, np.full((len(X), ny), 77.0), 0))
        else:
            refused("%s: predicted %s, which it does not support," % (k, n), lambda: op[n](Q))
        return "lacks_" + n
    return None


def train(sm, s):
    np.random.seed(5)                                     # KPLSK draws starting points
    return models.train(sm, s)


class NotAnOption:
    pass


@sub(gen.cases(spec=st.sampled_from(KINDS).flatmap(models.spec), d=st.integers(1, 3), ny=st.integers(1, 2), v=st.integers(0, 99), reqs=st.lists(REQ, min_size=3, max_size=8), early=st.lists(REQ, max_size=2), again=st.sampled_from([0, 1, 1, 2])), quick=700, thorough=20000, rule=RULE)
def refusals(case):
    s, k, d, ny, D = setup(case)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.rand(4, d), D.xl)
    sm = models.build(s, d, D.xl)
    # before it knows any data
    for what, v in case["early"]:
        if what in ("set", "update", "newoption", "option"):
            request(sm, s, k, d, ny, D, Q, what, v, rng)
        elif what == "train" and v % 2:
            refused("%s: training without data" % k, sm.train)
    train(models.feed(sm, s, D), s)
    clean = train(models.feed(models.build(s, d, D.xl), s, D), s)
    want = probes(clean, s, d, Q)

    def same(sm, when):
        got = probes(sm, s, d, Q)
        for n in want:
            close(got[n], want[n], 1e-7, 1e-9 * max(1.0, np.abs(want[n]).max()), "%s %s %s" % (k, n, when))
    same(sm, "after malformed requests before training")
    done = []
    for what, v in case["reqs"]:
        w = request(sm, s, k, d, ny, D, Q, what, v, rng)
        if w is None:
            continue
        done.append(w)
        close(sm.predict_values(Q).ravel(), want["values"].ravel(), 1e-7, 1e-9 * max(1.0, np.abs(want["values"]).max()), "%s prediction after refusing %s" % (k, w))
    same(sm, "after refusing " + ", ".join(done))
    if case["again"]:
        if case["again"] == 2 and k not in ("MFK", "MFKPLS", "MFKPLSK"):
            sm.update_training_values(D.Y)
        train(sm, s)
        same(sm, "when trained again after refusing " + ", ".join(done))
    return len(done) >= 3, [k] + done


@sub(gen.cases(spec=st.sampled_from([k for k in KINDS]).flatmap(models.spec), v=st.integers(0, 99), d=st.just(1), ny=st.just(1), form=st.sampled_from(["both", "x", "y", "query", "strided"])), quick=300, thorough=6000,
     rule="model of one variable trained from one-dimensional arrays")
def flat(case):
    s, k, d, ny, D = setup(case)
    s["h"] = 1
    form = case["form"]
    rng = rng_of(case, 3)
    Q = gen.scale(rng.rand(5, 1), D.xl)
    sm = train(models.feed(models.build(s, 1, D.xl), s, D), s)

    class F:
        pass
    E = F()
    E.__dict__.update(D.__dict__)
    lean = (lambda a: np.repeat(a, 2, axis=0)[::2, 0]) if form == "strided" else (lambda a: a[:, 0].copy())
    t = models.build(s, 1, D.xl)
    pts = {name: {kx: [a.copy() for a in v] for kx, v in g.items()} for name, g in sm.training_points.items()}
    for name, g in pts.items():
        for kx, (x, y) in g.items():
            x1 = lean(x) if form in ("both", "x", "strided") else x
            y1 = lean(y) if form in ("both", "y", "strided") else y
            if kx == 0:
                if case["v"] % 3 == 0:
                    t.set_training_values(x1, np.zeros_like(y1), name=name)
                    t.update_training_values(y1, name=name)
                else:
                    t.set_training_values(x1, y1, name=name)
            else:
                if case["v"] % 3 == 1:
                    t.set_training_derivatives(x1, np.zeros_like(y1), kx - 1, name=name)
                    t.update_training_derivatives(y1, kx - 1, name=name)
                else:
                    t.set_training_derivatives(x1, y1, kx - 1, name=name)
    train(t, s)
    q1 = lean(Q)
    a, b = models.methods(sm, s, 1), models.methods(t, s, 1)
    for name in a:
        if name in ("all_levels", "level0"):
            continue
        want = np.array(a[name](Q), float)
        tol = 1e-9 * max(1.0, np.abs(want).max())
        for q, what in ((Q, "column"), (q1, "one-dimensional")):
            for m, tr in ((a, "columns"), (b, "one-dimensional arrays")):
                got = np.array(m[name](q), float)
                need(got.shape == want.shape, lambda: "%s %s: shape %s for %s query of a model trained from %s, expected %s" % (k, name, got.shape, what, tr, want.shape))
                close(got, want, 1e-7, tol, "%s %s: %s query, trained from %s" % (k, name, what, tr))
    return True, [k, form]


@sub(gen.cases(name=st.sampled_from(NAMES), nd=st.sampled_from([1, 2, 3, 4]), fd=st.integers(1, 4), order=st.sampled_from([2, 1, 3]), func=st.sampled_from(["cos", "exp", "tanh", "gaussian"]), width=st.sampled_from([1.0, 2]), w=st.sampled_from([0.2, 0.5]),
               big=st.booleans(), reqs=st.lists(st.integers(0, 999), min_size=3, max_size=6)), quick=400, thorough=5000, rule="at least three malformed requests refused")
def problems(case):
    p, d = make(case)
    rng = rng_of(case, 5)
    X = gen.scale(rng.uniform(0.1, 0.9, (3, d)), np.array(p.xlimits, float))
    y, g = p(X), p(X, 0)
    for v in case["reqs"]:
        j = v % 3
        if j == 0:
            kind, B = badx(X, d, v // 3, rng)
            refused("%s at %s points" % (case["name"], kind), lambda: p(B) if v % 2 else p(B, 0))
        elif j == 1:
            kx = [-1, d, d + 2, 0.5, "0", -d, 1e9, [0]][(v // 3) % 8]
            refused("%s with respect to variable %r of %d" % (case["name"], kx, d), lambda: p(X, kx))
        else:
            def put():
                p.options["nope"] = 1
            refused("%s: undeclared option" % case["name"], put)
            refused("%s: undeclared option at construction" % case["name"], lambda: type(p)(nope=1))

            def put():
                p.options["ndim"] = "2"
            refused("%s: ndim of type str" % case["name"], put)
            need(p.options["ndim"] == d, "ndim changed by a refused value")
    need(np.array_equal(p(X), y) and np.array_equal(p(X, 0), g), "%s evaluates differently after refused requests" % case["name"])
    if d == 1:
        need(np.array_equal(p(X[:, 0]), y) and np.array_equal(p(X[:, 0], 0), g), "%s: one-dimensional points evaluate differently from a column" % case["name"])
    return True, [case["name"], "d1" if d == 1 else "d"]


SAMPLERS = ["Random", "LHS", "FullFactorial", "MixedIntegerSamplingMethod", "NestedLHS"]


@sub(gen.cases(which=st.sampled_from(SAMPLERS), d=st.integers(1, 3), v=st.integers(0, 999), nt=st.integers(2, 9)), quick=200, thorough=2000, rule="sampling object refuses a malformed request")
def samplings(case):
    from smt.sampling_methods import Random, LHS, FullFactorial
    from smt.applications.mfk import NestedLHS
    from smt.applications.mixed_integer import MixedIntegerSamplingMethod, FLOAT
    rng = rng_of(case, 5)
    d, v, nt = case["d"], case["v"], case["nt"]
    xl = gen.box(rng, "shift", d)
    cls = dict(Random=Random, LHS=LHS, FullFactorial=FullFactorial, NestedLHS=NestedLHS).get(case["which"])
    if cls is None:
        inner = [Random, LHS, FullFactorial][v % 3]
        cls = lambda xlimits, **kw: MixedIntegerSamplingMethod([FLOAT] * d, xlimits, inner, **kw)
    if case["which"] == "NestedLHS":
        refused("NestedLHS: undeclared option", lambda: NestedLHS(nlevel=2, xlimits=xl, nope=1))
        return True, [case["which"]]
    refused("%s: undeclared option" % case["which"], lambda: cls(xlimits=xl, nope=1))
    if case["which"] != "MixedIntegerSamplingMethod":
        refused("%s: bounds of type list" % case["which"], lambda: cls(xlimits=xl.tolist()))
        refused("%s: no bounds" % case["which"], lambda: cls()(nt))
        s = cls(xlimits=xl.copy())

        def put():
            s.options["xlimits"] = xl.tolist()
        refused("%s: bounds of type list" % case["which"], put)
        if case["which"] == "LHS":
            refused("LHS: criterion that is not one", lambda: LHS(xlimits=xl, criterion=NotAnOption()))
            refused("LHS: random state of type str", lambda: LHS(xlimits=xl, random_state="1"))

            def put():
                s.options["criterion"] = 3
            refused("LHS: criterion that is not one", put)
    else:
        refused("mixed sampling: more bounds than types", lambda: MixedIntegerSamplingMethod([FLOAT] * (d + 1), xl, inner))
        s = cls(xlimits=xl)
    x = np.asarray(s(nt))
    need(x.shape == (nt, d) and (x >= xl[:, 0] - 1e-9).all() and (x <= xl[:, 1] + 1e-9).all(), "%s after refused requests: shape %s" % (case["which"], x.shape))
    return True, [case["which"]]


@sub(gen.cases(spec=mixed.VARS, v=st.integers(0, 999), bad=st.sampled_from(["length", "type", "levels", "levels2", "pair"]), folded=st.booleans(), reqs=st.lists(st.integers(0, 999), min_size=3, max_size=6)), quick=200, thorough=3000,
     rule="inconsistent specification and malformed points refused")
def mixedinteger(case):
    from smt.applications.mixed_integer import MixedIntegerContext, MixedIntegerSurrogateModel, MixedIntegerSamplingMethod, FLOAT, INT, ENUM
    from smt.sampling_methods import Random
    from smt.surrogate_models import IDW
    rng = rng_of(case, 5)
    spec, v = case["spec"], case["v"]
    types, lim = mixed.xtypes(spec), mixed.limits(spec, rng)
    j = v % len(spec)
    bt, bl = list(types), list(lim)
    if case["bad"] == "length":
        bl = bl + [[0, 1]] if v % 2 else bl[:-1]
    elif case["bad"] == "type":
        bt[j] = [3, "ord_type", ("other", 3), None][(v // 7) % 4]
        bl[j] = [0, 1]
    elif case["bad"] in ("levels", "levels2"):
        bt[j], bl[j] = (ENUM, 3), ["a", "b"] if case["bad"] == "levels" else ["a", "b", "c", "d"]
    else:
        bt[j], bl[j] = (FLOAT if v % 3 else INT), [0, 1, 2]
    for what, f in (("context", lambda: MixedIntegerContext(bt, bl)), ("sampling", lambda: MixedIntegerSamplingMethod(bt, bl, Random)), ("surrogate", lambda: MixedIntegerSurrogateModel(bt, bl, IDW()))):
        refused("mixed-integer %s: types %s with bounds %s" % (what, bt, bl), f)
    X = mixed.folded(spec, lim, rng, 12)
    Y = rng.rand(12, 1)
    if not case["folded"]:
        X = mixed.encode(spec, X)
    d = X.shape[1]
    Q = X[:3] + 0.0
    inner = IDW(print_global=False)
    m = MixedIntegerSurrogateModel(types, lim, inner, input_in_folded_space=case["folded"])
    m.set_training_values(X, Y)
    m.train()
    want = m.predict_values(Q)
    for r in case["reqs"]:
        kind, B = badx(X, d, r // 4, rng)
        q = r % 4
        if q == 0:
            refused("mixed-integer model (%d variables, folded %s): predicted values at %s points" % (d, case["folded"], kind), lambda: m.predict_values(B))
        elif q == 1:
            refused("mixed-integer model (%d variables, folded %s): training points %s" % (d, case["folded"], kind), lambda: m.set_training_values(B, Y))
        elif q == 2:
            refused("mixed-integer model: differing point counts", lambda: m.set_training_values(X, Y[:-1]))
            refused("mixed-integer model: differing point counts", lambda: m.update_training_values(Y[:-1]))
        else:
            refused("mixed-integer IDW: variances", lambda: m.predict_variances(X))
            refused("mixed-integer IDW: training derivatives", lambda: m.set_training_derivatives(X, Y, 0))
        need(np.array_equal(m.predict_values(Q), want), "mixed-integer model predicts differently after a refused request")
    m.train()
    need(np.array_equal(m.predict_values(Q), want), "mixed-integer model predicts differently when trained again after refused requests")
    return True, [case["bad"], "folded" if case["folded"] else "unfolded"]


@sub(gen.cases(which=st.sampled_from(["MOE", "MOEhard", "MOEvar", "VFM", "EGO"]), d=st.integers(1, 2), reqs=st.lists(st.integers(0, 999), min_size=3, max_size=6)), quick=60, thorough=800, rule="application refuses malformed requests and keeps predicting")
def applications(case):
    from smt.applications import MOE, VFM, EGO
    rng = rng_of(case, 5)
    d, which = case["d"], case["which"]
    X = gen.unit_design(rng, "spread", 24, d)
    Y = np.sin(3 * X).sum(1)[:, None]
    Q = rng.rand(5, d)
    if which == "EGO":
        xl = np.array([[0.0, 1.0]] * d)
        refused("EGO: undeclared option", lambda: EGO(xlimits=xl, nope=1))
        refused("EGO: criterion that is not one", lambda: EGO(xlimits=xl, criterion=NotAnOption()))
        refused("EGO: parallel points strategy that is not one", lambda: EGO(xlimits=xl, qEI=NotAnOption()))
        refused("EGO: number of iterations of type str", lambda: EGO(xlimits=xl, n_iter="3"))
        refused("EGO: start points of type list", lambda: EGO(xlimits=xl, xdoe=[[0.1] * d]))
        return True, [which]
    if which == "VFM":
        refused("VFM: undeclared option", lambda: VFM(nope=1))
        refused("VFM: bridge that is not one", lambda: VFM(type_bridge="nope", X_LF=X, y_LF=Y, X_HF=X[:12], y_HF=Y[:12], name_model_LF="QP", name_model_bridge="LS").predict_values(Q))
        refused("VFM: model that is not one", lambda: VFM(X_LF=X, y_LF=Y, X_HF=X[:12], y_HF=Y[:12], name_model_LF="nope", name_model_bridge="LS").predict_values(Q))
        refused("VFM: no data", lambda: VFM(name_model_LF="QP", name_model_bridge="LS").predict_values(Q))
        refused("VFM: differing point counts", lambda: VFM(X_LF=X, y_LF=Y[:-1], X_HF=X[:12], y_HF=Y[:12], name_model_LF="QP", name_model_bridge="LS").predict_values(Q))
        o = dict(print_global=False)
        m = VFM(X_LF=X, y_LF=Y, X_HF=X[:12], y_HF=Y[:12] + X[:12, :1], name_model_LF="QP", name_model_bridge="LS", options_LF=o, options_bridge=o)
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            refused("MOE: undeclared option", lambda: MOE(nope=1))
            m = MOE(n_clusters=1, smooth_recombination=which != "MOEhard", variances_support=which == "MOEvar", allow=["KRG"] if which == "MOEvar" else ["QP"])
            refused("MOE: no data", m.train)
            refused("MOE: differing point counts", lambda: m.set_training_values(X, Y[:-1]) or m.train())
            m.set_training_values(X, Y)
            m.train()
    want = m.predict_values(Q)
    for r in case["reqs"]:
        j = r % 4
        if j == 3 and which != "VFM":
            refused("MOE: differing point counts", lambda: m.set_training_values(X, Y[:-1]))
        elif j == 2 and which != "VFM":
            if which == "MOEvar":
                kind, B = badx(Q, d, r // 4, rng)
                refused("%s: predicted variances at %s points" % (which, kind), lambda: m.predict_variances(B))
            else:
                refused("MOE without variance support: variances", lambda: m.predict_variances(Q))
        else:
            kind, B = badx(Q, d, r // 4, rng)
            refused("%s: predicted values at %s points" % (which, kind), lambda: m.predict_values(B))
        need(np.array_equal(m.predict_values(Q), want), "%s predicts differently after a refused request" % which)
    if d == 1:
        need(np.array_equal(np.asarray(m.predict_values(Q[:, 0])).reshape(want.shape), want), "%s: one-dimensional points predict differently from a column" % which)
    return True, [which]


WRAPPED = ["IDW", "RBF", "KRG", "GENN", "RMTB", "LS", "GEKPLS"]


@sub(gen.cases(spec=st.sampled_from(KINDS).flatmap(models.spec), inner=st.sampled_from(WRAPPED).flatmap(models.spec), wrap=st.sampled_from([0, 0, 1]), d=st.integers(1, 3), ny=st.integers(1, 2), v=st.integers(0, 99)), quick=300, thorough=6000,
     rule="every feature of the model's own table of supported features requested")
def claims(case):
    """what a model reports as supported works, what it reports as unsupported is refused as such"""
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT
    if case["wrap"]:
        case = dict(case, spec=case["inner"])
    case = dict(case, spec=dict(case["spec"], corr="squar_exp", rho="constant", poly="constant"))   # every feature exists for these
    s, k, d, ny, D = setup(case)
    s["rho"] = "constant"
    rng = rng_of(case, 3)
    Q = gen.scale(0.1 + 0.8 * rng.rand(3, d), D.xl)
    sm = models.build(s, d, D.xl)
    if case["wrap"]:
        k = "mixed-integer " + k
        sm = MixedIntegerSurrogateModel([FLOAT] * d, D.xl.tolist(), sm)
        sm.set_training_values(D.X, D.Y)
        if s["kind"] in ("GENN", "GEKPLS"):               # these cannot be trained without the derivatives, which the wrapper refuses
            refused("%s: training derivatives" % k, lambda: sm.set_training_derivatives(D.X, D.dY[:, 0, :], 0))
            return True, [k]
    else:
        models.feed(sm, s, D)
    train(sm, s)
    sup = dict(sm.supports)
    need(set(FEATURES) <= set(sup), "%s: table of features %s" % (k, sorted(sup)))
    want = np.array(sm.predict_values(Q))
    op = {"derivatives": lambda: np.hstack([sm.predict_derivatives(Q, kx) for kx in range(d)]), "variances": lambda: sm.predict_variances(Q),
          "variance_derivatives": lambda: np.vstack([np.reshape(sm.predict_variance_derivatives(q[None]), (1, -1)) for q in Q]),
          "output_derivatives": lambda: sm.predict_output_derivatives(Q)[None],
          "training_derivatives": lambda: sm.set_training_derivatives(D.X, D.dY[:, 0, :], 0)}
    for n in FEATURES:
        try:
            r = op[n]()
        except NotImplementedError as e:
            need(not sup[n], "%s: %s is in its table of supported features, but is refused: %s" % (k, n, e))
            continue
        need(sup[n], "%s: %s is not in its table of supported features, but is accepted" % (k, n))
        if n != "training_derivatives":
            need(np.shape(r)[0] == len(Q) and np.all(np.isfinite(r)), "%s: %s %s" % (k, n, r))
    close(sm.predict_values(Q), want, 1e-7, 1e-9 * max(1.0, np.abs(want).max()), "%s prediction after the requests" % k)
    return True, [k] + ["%s:%d" % (n, sup[n]) for n in FEATURES]


# ---------------------------------------------------------------- options which do not fit the data or one another
def misfit(sm, s, k, d, n, rng):
    """[(name, {option: value})] which no training data of d inputs and n points fit"""
    L = []
    if k in ("KRG", "KPLS", "KPLSK", "GEKPLS"):
        m = d if k == "KRG" else min(s["h"], d)
        L += [("theta0", {"theta0": [0.1] * (m + 1 + (m == 0))}), ("noise0", {"noise0": [1e-3, 1e-3]}), ("noise0 het", {"noise0": [1e-3] * (n + 1), "use_het_noise": True}), ("corr", {"corr": "act_exp"})]
    if k in ("KPLS", "KPLSK", "GEKPLS", "MFKPLS", "MFKPLSK"):
        L += [("corr", {"corr": "matern32"}), ("corr", {"corr": "matern52"})]
    if k in ("KPLSK", "MFKPLSK"):
        L += [("corr", {"corr": "abs_exp"})]
    if k in ("KPLS", "KPLSK", "GEKPLS"):
        L += [("n_comp", {"n_comp": d + 1, "theta0": [0.1]}), ("n_comp", {"n_comp": 0, "theta0": [0.1]})]
    if k.startswith("MF"):
        m = d if k == "MFK" else min(s["h"], d)
        L += [("theta0", {"theta0": [0.1] * 7}), ("theta0 array", {"theta0": np.full((1, m), 0.1)}), ("theta0 array", {"theta0": np.full((2, m + 1), 0.1)}), ("noise0 levels", {"noise0": [1e-3] * 3}),
              ("noise0", {"noise0": [[1e-3, 1e-3], [1e-3]]}), ("noise0", {"noise0": [[1e-3], [1e-3] * 3]}), ("noise0 het", {"noise0": [[1e-3] * (n + 1), [1e-3]], "use_het_noise": True}), ("corr", {"corr": "act_exp"})]
    if k == "MGP":
        L += [("corr", {"corr": "squar_exp"}), ("hyper_opt", {"hyper_opt": "Cobyla"}), ("theta0", {"theta0": [0.1] * (d * min(s["h"], d) + 1)})]
    if k in ("RMTB", "RMTC"):
        xl = np.array(sm.options["xlimits"])
        L += [("xlimits rows", {"xlimits": np.vstack([xl, xl[:1]])}), ("xlimits columns", {"xlimits": np.hstack([xl, xl[:, 1:]])}), ("smoothness", {"smoothness": [1.0] * (d + 1)}), ("xlimits inside", {"xlimits": xl + np.array([[0.9, 0.0]]) * (xl[:, 1:] - xl[:, :1])}),
              ("xlimits inside", {"xlimits": xl - np.array([[0.0, 0.9]]) * (xl[:, 1:] - xl[:, :1])})]
        if d > 1:
            L += [("xlimits rows", {"xlimits": xl[:-1].copy()}), ("smoothness", {"smoothness": [1.0] * (d - 1) if d > 2 else [1.0] * 3})]
        L += [("size list", {"num_ctrl_pts" if k == "RMTB" else "num_elements": [6] * (d + 1)})]
        if k == "RMTB":
            L += [("order list", {"order": [3] * (d + 1)}), ("order", {"order": 5, "num_ctrl_pts": 4})]
        else:
            L += [("size", {"num_elements": 0})]
    if k == "RBF":
        L += [("d0", {"d0": [1.0] * (d + 1)})]
    return L


def option_copy(v):
    return v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v


@sub(gen.cases(spec=st.sampled_from(["KRG", "RMTB", "KPLS", "RMTC", "KPLSK", "GEKPLS", "RMTB", "MFK", "RMTC", "MFKPLS", "MFKPLSK", "MGP", "RBF"]).flatmap(models.spec), d=st.integers(1, 3), ny=st.integers(1, 2), v=st.integers(0, 999), js=st.lists(st.integers(0, 99), min_size=1, max_size=3), first=st.booleans()), quick=350, thorough=8000,
     rule="one option refused by training, then corrected")
def misfits(case):
    """options that do not fit: training refuses them, and works like that of a new model once they are corrected"""
    s, k, d, ny, D = setup(case)
    rng = rng_of(case, 3)
    Q = gen.scale(rng.rand(4, d), D.xl)
    clean = train(models.feed(models.build(s, d, D.xl), s, D), s)
    if getattr(clean, "optimal_par", None) is not None:
        models.well(clean)
    want = probes(clean, s, d, Q)
    sm = models.feed(models.build(s, d, D.xl), s, D)
    good = {n: option_copy(v) for n, v in sm.options._dict.items()}
    if case["first"]:
        train(sm, s)
    L = misfit(sm, s, k, d, D.n, rng)
    done = []
    for j in case["js"]:
        what, bad = L[j % len(L)]

        def put():
            for n, v in bad.items():
                sm.options[n] = v
            np.random.seed(5)
            sm.train()
        refused("%s: %s with %d inputs, %d points" % (k, bad, d, D.n), put)
        done.append(what)
        for n in bad:
            sm.options[n] = option_copy(good[n])
        if case["v"] % 2:
            train(sm, s)
    train(sm, s)
    got = probes(sm, s, d, Q)
    for n in want:
        close(got[n], want[n], 1e-7, 1e-8 * max(1.0, np.abs(want[n]).max()), "%s %s after %s was refused and corrected" % (k, n, ", ".join(done)))
    return True, [k] + done
