"""P30: random histories of objects sharing one cache directory (data and option changes down to single bits, new objects with old settings, damaged cache files, stored energy terms, solver objects), every training compared with an uncached model: values, derivatives, output derivatives"""
import copy, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, close, Discard, rng_of
from smt.surrogate_models import LS, QP, IDW, RBF, RMTB, RMTC
from smt.utils import linear_solvers as LSV, line_search as LL

CL = dict(LS=LS, QP=QP, IDW=IDW, RBF=RBF, RMTB=RMTB, RMTC=RMTC)
OPT = {
    "LS": {}, "QP": {},
    "IDW": {"p": [2.5, 2, 4.0, 2.0]},
    "RBF": {"d0": [0.4, 1.0, 0.4000000000000001], "poly_degree": [-1, 0, 1], "reg": [1e-10, 1e-3]},
    "RMTB": {"order": [3, 4], "num_ctrl_pts": [6, 5], "energy_weight": [1e-4, 1e-2], "approx_order": [2, 4], "smoothness": [1.0, 0.3], "xl": [0, 1, 2], "save_energy_terms": [True, True, False], "extrapolate": [False, True],
             "min_energy": [True, False], "solver": ["dense-chol", "krylov-dense", "DirectSolver", "DenseLUSolver"], "grad_weight": [0.5, 0.1], "regularization_weight": [1e-14, 1e-3]},
    "RMTC": {"num_elements": [2, 1, 3], "energy_weight": [1e-4, 1e-2], "approx_order": [2, 4], "smoothness": [1.0, 0.3], "xl": [0, 1, 2], "save_energy_terms": [True, True, False], "extrapolate": [False, True],
             "min_energy": [True, False], "solver": ["dense-chol", "krylov-dense", "DirectSolver", "DenseLUSolver"], "grad_weight": [0.5, 0.1], "regularization_weight": [1e-14, 1e-3]},
}
STEP = st.tuples(st.sampled_from(["train", "train", "train", "set", "opt", "opt", "clone", "clone", "update", "deriv", "damage", "back"]), st.integers(0, 2), st.integers(0, 999))
RULE = "a training found its result in the cache"


def build(kind, o, data, d, cache):
    kw = {k: v for k, v in o.items() if k not in ("xl", "solver")}
    if kind in ("RMTB", "RMTC"):
        kw["xlimits"] = np.array([[[-0.1, 1.1], [-1.0, 3.0], [-0.1, 2.0]][o.get("xl", 0)]] * d) * (1 + 0.5 * np.arange(d))[:, None]
        s = o.get("solver", "dense-chol")
        kw["solver"] = getattr(LSV, s)() if s[0].isupper() else s
        kw["nonlinear_maxiter"] = 4
    sm = CL[kind](print_global=False, **kw)
    if cache:
        sm.options["data_dir"] = cache
    feed(sm, data)
    return sm


def feed(sm, data):
    X, Y, dY = data
    sm.training_points.clear()
    sm.set_training_values(X, Y)
    if dY is not None:
        for k in range(X.shape[1]):
            sm.set_training_derivatives(X, dY[k], k)


@sub(gen.cases(kind=st.sampled_from(["RBF", "RMTB", "RMTC", "IDW", "RMTB", "RMTC", "LS", "QP"]), d=st.integers(1, 2), n=st.sampled_from([9] * 8 + [60, 60, 250, 900]), ny=st.integers(1, 2), energy=st.booleans(), xls=st.lists(st.integers(0, 2), min_size=3, max_size=3), steps=st.lists(STEP, min_size=2, max_size=9)), quick=400, thorough=12000, rule=RULE)
def histories(case):
    rng = rng_of(case, 1)
    kind, d, ny = case["kind"], case["d"], case["ny"]
    pool = []
    n = case["n"]
    if n > 9 and kind == "RBF":
        n = 700
    if kind in ("RMTB", "RMTC"):
        n = min(n, 300)
    X = gen.unit_design(rng, "spread" if n == 9 else "lhs", n, d) * (1 + 0.5 * np.arange(d))
    Y = rng.uniform(-1, 1, (n, ny))
    pool.append((X, Y, None))
    Y2 = Y.copy()
    i = rng.randint(n)
    Y2[i] = np.nextafter(Y2[i], 9)                       # one bit
    pool.append((X, Y2, None))
    X2 = X.copy()
    X2[i] = X2[i] * (1 - 1e-3)
    pool.append((X2, Y, None))
    q = rng.permutation(n)
    pool.append((X, Y[q], None))
    pool.append((X[:-1], Y[:-1], None))
    pool.append((X, 3 * Y, None))
    X3, Y3 = X.copy(), Y.copy()                          # clear changes amid equal data
    X3[n // 2] = X3[n // 2 - 1] * 0.9 + X3[n // 2] * 0.1
    Y3[n // 2] += 1
    pool.append((X, Y3, None))
    pool.append((X3, Y, None))
    pool.append((X, Y3[::-1].copy(), None))
    Q = rng.uniform(-0.05, 1.3, (5, d))
    tmp = tempfile.mkdtemp(prefix="verif-cache-")
    try:
        names = sorted(OPT[kind])
        obj = []
        for i in range(3):
            o, dat = {}, pool[0]
            if kind in ("RMTB", "RMTC") and case["energy"]:     # the stored energy terms serve boxes of other sizes
                o = {"save_energy_terms": True, "energy_weight": 1e-2, "xl": case["xls"][i], "regularization_weight": 1e-6, "derivative_solver": "lu"}    # well conditioned: equal up to rounding
            obj.append([build(kind, o, dat, d, tmp), o, dat])
        hits = 0
        ntrain = 0
        script = list(case["steps"]) + [("train", 0, 0), ("train", 1, 0)]
        for op, who, a in script:
            sm, o, dat = obj[who]
            if op == "set":
                obj[who][2] = dat = pool[a % len(pool)]
                feed(sm, dat)
            elif op == "update":
                Yn = pool[a % 2][1][:len(dat[0])]
                sm.update_training_values(Yn)
                obj[who][2] = (dat[0], Yn, dat[2])
            elif op == "deriv" and kind in ("RMTB", "RMTC"):
                g = np.random.RandomState(a % 3).uniform(-1, 1, (d, len(dat[0]), dat[1].shape[1]))
                obj[who][2] = dat = (dat[0], dat[1], g if dat[2] is None or a % 2 else None)
                feed(sm, dat)
            elif op == "opt" and names:
                n = names[a % len(names)]
                v = OPT[kind][n][(a // 7) % len(OPT[kind][n])]
                if n == "regularization_weight" and case["energy"]:
                    v = max(v, 1e-6)
                o[n] = v
                if n == "xl" or n == "solver":
                    obj[who][0] = build(kind, o, dat, d, tmp) if a % 2 else sm
                    if not a % 2:
                        ref = build(kind, o, dat, d, None)
                        key = "xlimits" if n == "xl" else "solver"
                        sm.options[key] = ref.options[key]
                else:
                    sm.options[n] = v
            elif op == "clone":
                src = obj[a % 3]
                obj[who] = [build(kind, dict(src[1]), src[2], d, tmp), dict(src[1]), src[2]]
            elif op == "back":      # the settings of the beginning, in an object that was something else
                obj[who][2] = dat = pool[0]
                feed(sm, dat)
            elif op == "damage":
                fs = sorted(os.listdir(tmp))
                if fs:
                    f = os.path.join(tmp, fs[a % len(fs)])
                    b = open(f, "rb").read()
                    with open(f, "wb") as h:
                        h.write(b[:a * len(b) // 1000] if a % 2 else b"")
            elif op == "train":
                sm, o, dat = obj[who]
                before = {f: os.path.getsize(os.path.join(tmp, f)) for f in os.listdir(tmp)}
                sm.train()
                after = {f: os.path.getsize(os.path.join(tmp, f)) for f in os.listdir(tmp)}
                hits += before == after
                ntrain += 1
                ref = build(kind, o, dat, d, None)
                ref.train()
                big = 1e-6 if kind in ("RMTB", "RMTC") else 1e-9
                want = ref.predict_values(Q)
                s = 1 + np.abs(want).max()
                close(sm.predict_values(Q), want, big, big * s, "cached training %d (%s): values" % (ntrain, "hit" if before == after else "miss"))
                k = int(rng.randint(d))
                wd = ref.predict_derivatives(Q, k)
                close(sm.predict_derivatives(Q, k), wd, big, big * (1 + np.abs(wd).max()), "cached training %d: derivatives" % ntrain)
                if ref.supports["output_derivatives"] and (kind == "RBF" or len(dat[0]) < 100):
                    wo, go = ref.predict_output_derivatives(Q), sm.predict_output_derivatives(Q)
                    need(set(wo) == set(go), "output derivatives for %s" % sorted(map(str, go)))
                    for j in wo:
                        close(go[j], wo[j], 1e-5, 1e-5 * (1 + np.abs(wo[j]).max()), "cached training %d: output derivatives" % ntrain)
        return hits > 0, [kind, "hit" if hits else "nohit"]
    finally:
        shutil.rmtree(tmp)
