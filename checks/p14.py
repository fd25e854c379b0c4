"""P14: stateful histories (set/update/replace data, derivatives, train, predict, change options) against a new model given the same final data and options; two models sharing option objects"""
import copy
import numpy as np
from hypothesis import strategies as st
import gen, models
from iso import apart
from core import sub, need, Violation, Discard, rng_of, close

KINDS = ["LS", "QP", "IDW", "RBF", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "MGP", "RMTB", "RMTC", "GENN", "MOE"]
FIXED_D = ("RMTB", "RMTC", "GEKPLS")       # their xlimits option fixes the number of inputs

# options that mean the same for every number of inputs and points
OPT = {
    "LS": {}, "QP": {},
    "IDW": {"p": [1, 2.5, 4.0]},
    "RBF": {"d0": [0.3, 1.0, 2], "poly_degree": [-1, 0, 1], "reg": [1e-10, 1e-6]},
    "KRG": {"corr": ["squar_exp", "abs_exp", "matern52", "matern32"], "poly": ["constant", "linear"], "theta0": [[0.5], [0.05]],
            "nugget": [1e-10, 1e-6], "noise0": [[0.0], [1e-4]], "eval_noise": [False, False, True], "hyper_opt": ["Cobyla", "TNC"]},
    "KPLS": {"corr": ["squar_exp", "abs_exp"], "n_comp": [1, 2], "poly": ["constant", "linear"], "theta0": [[0.5], [0.05]], "eval_noise": [False, False, True]},
    "KPLSK": {"n_comp": [1, 2], "poly": ["constant", "linear"], "theta0": [[0.5], [0.05]], "noise0": [[0.0], [1e-4]], "eval_noise": [False, False, True]},
    "GEKPLS": {"n_comp": [1], "extra_points": [0, 1, 2], "theta0": [[0.5], [0.05]], "delta_x": [1e-2, 1e-1], "poly": ["constant", "linear"]},
    "MFK": {"theta0": [[0.5], [0.05]], "poly": ["constant", "linear"], "rho_regr": ["constant", "linear"], "noise0": [[0.0], [1e-4]],
            "eval_noise": [False, False, True], "optim_var": [False, True]},
    "MFKPLS": {"theta0": [[0.5], [0.05]], "n_comp": [1, 2], "eval_noise": [False, False, True], "optim_var": [False, True]},
    "MFKPLSK": {"theta0": [[0.5], [0.05]], "n_comp": [1, 2], "rho_regr": ["constant", "linear"], "eval_noise": [False, False, True]},
    "MGP": {"n_comp": [1], "theta0": [[1e-2], [0.3]]},
    "RMTB": {"order": [3, 4], "num_ctrl_pts": [5, 7], "energy_weight": [1e-4, 1e-2], "extrapolate": [True, False], "approx_order": [2, 4],
             "smoothness": [1.0, 0.3], "solver": ["krylov-dense", "dense-chol"]},
    "RMTC": {"num_elements": [1, 3], "energy_weight": [1e-4, 1e-2], "extrapolate": [True, False], "approx_order": [2, 4], "smoothness": [1.0, 0.3],
             "solver": ["krylov-dense", "dense-chol"]},
    "GENN": {"deep": [1, 2], "wide": [3, 5], "gamma": [0.0, 1.0], "lambd": [0.0, 0.1], "alpha": [0.1, 0.5]},
    "MOE": {"n_clusters": [1, 2], "smooth_recombination": [True, False]},
}
BASE = {"GENN": dict(num_iterations=6, num_epochs=2, seed=7, mini_batch_size=8, is_print=False),
        "MOE": dict(allow=["QP", "LS"])}
STEPS = ["set", "set", "update", "train", "train", "predict", "deriv", "opt", "opt", "refuse"]


def classes():
    import smt.surrogate_models as S
    import smt.applications as A
    from smt.applications.moe import MOESurrogateModel
    return lambda k: MOESurrogateModel if k == "MOE" else getattr(S, k) if hasattr(S, k) else getattr(A, k)


def pick(kind, name, q):
    v = OPT[kind][name]
    return copy.deepcopy(v[q % len(v)])


class Track:
    """A model together with what a user last gave it."""

    def __init__(self, kind, d, opts, shared=None):
        self.kind, self.d = kind, d
        self.opts = dict(models.QUIET, **BASE.get(kind, {}))
        if kind in FIXED_D:
            self.opts["xlimits"] = np.tile([0.0, 1.0], (d, 1))
        self.opts.update(opts)
        self.given = self.opts if shared is None else shared
        self.sm = classes()(kind)(**(self.given if shared is not None else copy.deepcopy(self.opts)))
        self.data, self.der = {}, {}

    def set(self, d, n, ny, seed, level=None):
        r = np.random.RandomState(seed % (2 ** 32))
        if self.kind in FIXED_D:
            d = self.d
        if models.single_output(self.kind) or self.kind == "MOE":
            ny = 1
        n = max(n, 3 if self.kind == "LS" else 0, (d + 1) * (d + 2) // 2 + 2, 2 * d + 4)
        if self.kind == "MOE":
            n = max(n, 20)
        U = gen.unit_design(r, "spread", n, d)
        Y = gen.outputs(r, U, ny, "smooth")
        if seed % 5 == 0:
            Y = np.round(50 * Y / np.abs(Y).max()).astype(int)      # outputs may be whole numbers first and reals later
        self.d = d
        if self.kind.startswith("MF"):
            # nested: the low level holds all high-fidelity points
            UL = np.vstack([U, r.rand(n + 3, d)])
            YL = np.vstack([0.8 * Y + 0.3 * U.sum(1)[:, None] ** 2, r.uniform(-1, 1, (n + 3, 1))])
            self.sm.set_training_values(UL, YL, name=0)
            self.data[0] = [UL, YL]
        self.sm.set_training_values(U, Y)
        self.data[None] = [U, Y]
        if self.kind in ("GENN", "GEKPLS"):
            self.deriv(seed + 1)

    def deriv(self, seed):
        r = np.random.RandomState(seed % (2 ** 32))
        if self.kind in ("GENN", "GEKPLS"):
            X, Y = self.data[None]
            for k in range(self.d):
                J = r.uniform(-1, 1, Y.shape)
                self.sm.set_training_derivatives(X, J, k)
                self.der[k] = [X, J]
        elif self.kind in ("RMTB", "RMTC"):
            k = r.randint(self.d)
            if k in self.der and seed % 2 and len(self.der[k][1][0]) == self.data[None][1].shape[1]:
                J = r.uniform(-1, 1, self.der[k][1].shape)
                self.sm.update_training_derivatives(J, k)
                self.der[k][1] = J
            else:
                X = r.rand(4, self.d)
                J = r.uniform(-1, 1, (4, self.data[None][1].shape[1]))
                self.sm.set_training_derivatives(X, J, k)
                self.der[k] = [X, J]

    def consistent(self):
        """derivative data set for other outputs (or, GENN/GEKPLS, other points) than the present values are the user's mistake"""
        return all(J.shape[1] == self.data[None][1].shape[1] and X.shape[1] == self.d for X, J in self.der.values())

    def update(self, seed):
        r = np.random.RandomState(seed % (2 ** 32))
        X, Y = self.data[None]
        ny = Y.shape[1]
        if not self.der and not models.single_output(self.kind) and self.kind != "MOE" and seed % 3 == 0:
            ny = 1 + seed % 2
        Y = r.uniform(-1, 1, (len(X), ny))
        self.sm.update_training_values(Y)
        self.data[None] = [X, Y]

    def option(self, name, q):
        v = pick(self.kind, name, q)
        self.sm.options[name] = copy.deepcopy(v)
        self.opts[name] = v

    def fresh(self):
        sm = classes()(self.kind)(**copy.deepcopy(self.opts))
        for lvl, (X, Y) in self.data.items():
            if lvl is not None:
                sm.set_training_values(X.copy(), Y.copy(), name=lvl)
        sm.set_training_values(self.data[None][0].copy(), self.data[None][1].copy())
        for k, (X, J) in self.der.items():   # in the same order: iterative solvers stop early
            sm.set_training_derivatives(X.copy(), J.copy(), k)
        return sm

    def queries(self, seed):
        r = np.random.RandomState((seed + 5) % (2 ** 32))
        return r.uniform(-0.1, 1.1, (5, self.d))


def outs(sm, kind, Q):
    """all predictions of one model, by name"""
    s = dict(kind=kind)
    o = dict(sm.options._dict)
    for k in ("corr", "poly"):
        if k in o:
            s[k] = o[k]
    s["rho"] = o.get("rho_regr", "constant")
    if kind == "MGP":
        s.pop("corr", None)
    if kind == "MOE":
        return {"values": np.array(sm.predict_values(Q))}
    return {q: np.array(f(Q)) for q, f in models.methods(sm, s, Q.shape[1]).items()}


def fit(sm, kind, seed=0):
    np.random.seed(seed)
    try:
        sm.train()
        return True
    except Exception as e:
        m = "%s: %s" % (type(e).__name__, str(e)[:120])
        return m


def same(a, b, what):
    need(a.keys() == b.keys(), "%s: other predictions offered: %s / %s" % (what, sorted(a), sorted(b)))
    for q in a:
        A, B = np.asarray(a[q], float), np.asarray(b[q], float)
        if np.array_equal(A, B, equal_nan=True):
            continue
        sc = float(np.nanmax(np.abs(B))) if B.size else 0.0
        close(A, B, 1e-7, 1e-7 * (sc + 1e-6), "%s: %s" % (what, q))


def compare(sm, tr, Q, what, fitted=True):
    """sm against a new model with the same data and options, training from the same random state"""
    new = tr.fresh()
    ok = fit(new, tr.kind)
    if ok is not True or fitted is not True:
        need((ok is True) == (fitted is True), "%s: training gave %r, a new model's %r" % (what, fitted, ok))
        raise Discard("training refused")
    try:
        same(outs(sm, tr.kind, Q), outs(new, tr.kind, Q), what)
    except Violation:
        # a search may amplify rounding; such data settle nothing
        for i in range(2):
            pad = np.random.rand(1000 * (i + 1) + 7)
            n2 = tr.fresh()
            fit(n2, tr.kind)
            n3 = tr.fresh()
            for lvl, (X, Y) in tr.data.items():
                n3.set_training_values(X * (1 + 2e-16 * np.sign(X - 0.5)), Y, name=lvl)
            fit(n3, tr.kind)
            try:
                same(outs(n2, tr.kind, Q), outs(new, tr.kind, Q), "")
                if models.coef_size(new) > 1e6 or tr.opts.get("eval_noise"):
                    same(outs(n3, tr.kind, Q), outs(new, tr.kind, Q), "")
            except Violation:
                raise Discard("sensitive to rounding")
            del pad
        raise
    return new


def known_state(tr):
    for k, v in tr.opts.items():
        got = tr.sm.options[k]
        need(type(got) is type(v) and np.array_equal(np.asarray(got, object if isinstance(v, list) and v and isinstance(v[0], str) else None), np.asarray(v, object if isinstance(v, list) and v and isinstance(v[0], str) else None)),
             "option %s reads %r after %r was given" % (k, got, v))


RULE = "at least two trainings with a data or option change in between, and a comparison of all predictions with a new model"
step = st.tuples(st.sampled_from(STEPS), st.integers(0, 10 ** 6), st.integers(1, 4), st.integers(0, 9), st.integers(1, 2))


def case_st(kinds):
    return gen.cases(kind=st.sampled_from(kinds), d=st.integers(1, 3), ny=st.integers(1, 2), oseed=st.integers(0, 10 ** 6),
                     steps=st.lists(step, min_size=3, max_size=9), listen=st.booleans())


def fresh_outs(tr, Q, shake=0):
    pad = np.random.rand(1000 * shake + 7)
    sm = tr.fresh()
    if shake == 2:
        for lvl, (X, Y) in tr.data.items():
            sm.set_training_values(X * (1 + 2e-16 * np.sign(X - 0.5)), Y, name=lvl)
    ok = fit(sm, tr.kind)
    need(ok is True, "training of a new model with the same data gave %s" % ok)
    del pad
    return outs(sm, tr.kind, Q), models.coef_size(sm)


def run_history(case):
    """the history in one process, the new model in another in which no model was ever trained"""
    nontrivial, labels, state, Q, got = apart(lambda: history(case))
    tr = Track.__new__(Track)
    tr.__dict__.update(state)
    new, size = apart(lambda: fresh_outs(tr, Q))
    try:
        same(got, new, "%s after a history, against a new model in a new process" % tr.kind)
    except Violation:
        for i in (1, 2):
            if i == 2 and not (size > 1e6 or tr.opts.get("eval_noise")):
                continue
            try:
                same(apart(lambda: fresh_outs(tr, Q, i))[0], new, "")
            except Violation:
                raise Discard("sensitive to rounding")
        raise
    return nontrivial, labels


def history(case):
    kind = case["kind"]
    r = rng_of(case)
    d = min(case["d"], 2 if kind in ("RMTC", "RMTB", "MGP") else 3)
    ro = np.random.RandomState(case["oseed"])
    opts = {n: pick(kind, n, ro.randint(100)) for n in sorted(OPT[kind]) if ro.rand() < 0.6}
    if kind == "MGP":
        d = max(d, 2)
    tr = Track(kind, d, opts)
    tr.set(d, 0, case["ny"], case["seed"])
    trained, changes, labels = 0, 0, []
    state = None
    dirty = True
    for name, q, dd, extra, ny in case["steps"]:
        if kind in ("RMTB", "RMTC", "MGP"):
            dd = min(dd, 2)
        if kind == "MGP":
            dd = 2 + dd % 2
        dd = min(dd, 3)
        if name == "set":
            tr.set(dd, 4 * dd + extra, ny, q)
            dirty = True
        elif name == "update":
            tr.update(q)
            dirty = True
        elif name == "deriv":
            tr.deriv(q)
            dirty = True
        elif name == "opt" and OPT[kind]:
            names = sorted(OPT[kind])
            tr.option(names[q % len(names)], q // 7)
            dirty = True
        elif name == "refuse":
            # refused requests change nothing
            for f in (lambda: tr.sm.set_training_values(np.zeros((3, 2)), np.zeros((4, 1))), lambda: tr.sm.update_training_values(np.zeros((1, 1)), name="nobody"),
                      lambda: tr.sm.options.__setitem__("nonsense", 1)):
                try:
                    f()
                except (ValueError, AssertionError, KeyError):
                    pass
                else:
                    raise Violation("a malformed request was accepted")
        elif name == "train" and tr.consistent():
            ok = fit(tr.sm, kind)
            if ok is not True:
                labels.append("refused")
                compare(tr.sm, tr, None, "after %d trainings" % trained, ok)
            trained += 1
            changes += dirty
            dirty = False
            if trained > 1 or case["listen"]:
                Q = tr.queries(q)
                compare(tr.sm, tr, Q, "training no. %d of a %s" % (trained, kind))
                known_state(tr)
        elif name == "predict" and not dirty:
            Q = tr.queries(q)
            a = outs(tr.sm, kind, Q)
            b = outs(tr.sm, kind, Q)
            same(a, b, "second prediction")
    if not tr.consistent():
        raise Discard("derivatives of other data")
    Q = tr.queries(case["seed"])
    ok = fit(tr.sm, kind)
    if ok is not True:
        compare(tr.sm, tr, None, "after the history", ok)
    trained += 1
    changes += dirty
    compare(tr.sm, tr, Q, "%s after the whole history" % kind)
    known_state(tr)
    # training again without any change
    a = outs(tr.sm, kind, Q)
    fit(tr.sm, kind)
    try:
        same(outs(tr.sm, kind, Q), a, "%s trained twice in a row" % kind)
    except Violation:
        compare(tr.sm, tr, Q, "%s trained twice in a row" % kind)
        raise
    state = dict(kind=kind, d=tr.d, opts=tr.opts, data=tr.data, der=tr.der)
    return (trained >= 2 and changes >= 2), ["kind:" + kind, "trainings:%d" % min(trained, 5)] + labels, state, Q, a


@sub(case_st(["LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "GENN", "MOE"]), quick=560, rule=RULE)
def history_simple(case):
    return run_history(case)


@sub(case_st(["KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "MGP"]), quick=380, rule=RULE)
def history_kriging(case):
    return run_history(case)


@sub(gen.cases(kind=st.sampled_from([k for k in KINDS if k != "MOE"]), d1=st.integers(1, 3), d2=st.integers(1, 3), arr=st.booleans(), oseed=st.integers(0, 10 ** 6), upd=st.booleans()),
     quick=260, rule="a second model built from the same option objects and trained on other data between training, prediction and retraining of the first")
def two_models(case):
    kind = case["kind"]
    lim = 2 if kind in ("RMTB", "RMTC", "MGP") else 3
    d1, d2 = min(case["d1"], lim), min(case["d2"], lim)
    if kind == "MGP":
        d1, d2 = 2, 2 + (d2 > 1)
    if kind in FIXED_D:
        d2 = d1
    ro = np.random.RandomState(case["oseed"])
    opts = {n: pick(kind, n, ro.randint(100)) for n in sorted(OPT[kind]) if ro.rand() < 0.6}
    if case["arr"]:
        for n in ("theta0",):
            if n in opts and not kind.startswith("MF"):
                opts[n] = np.array(opts[n])
    A = Track(kind, d1, opts)
    given = copy.deepcopy(A.opts)
    A = Track(kind, d1, opts, shared=given)
    B = Track(kind, d2, opts, shared=given)
    A.set(d1, 0, 1, case["seed"])
    if fit(A.sm, kind) is not True:
        raise Discard("training refused")
    Q = A.queries(1)
    a = outs(A.sm, kind, Q)
    B.set(d2, 4 * d2 + 3, 1, case["seed"] + 3)
    if case["upd"]:
        B.update(case["seed"] + 4)
    fb = fit(B.sm, kind)
    if fb is True:
        outs(B.sm, kind, B.queries(2))
    same(outs(A.sm, kind, Q), a, "%s after another model was trained" % kind)
    for k in given:
        need(np.array_equal(np.asarray(given[k], dtype=None if not isinstance(given[k], list) else object), np.asarray(A.opts[k], dtype=None if not isinstance(given[k], list) else object)),
             "the caller's option object %s became %r" % (k, given[k]))
    compare(B.sm, B, B.queries(2), "%s sharing option objects with another model" % kind, fb)
    fit(A.sm, kind)
    compare(A.sm, A, Q, "%s retrained after another model's history" % kind)
    return True, ["kind:" + kind]
