"""Cross-model factory: JSON-able model specs, data for them, construction and training."""
import numpy as np
from hypothesis import strategies as st
import gen
from core import Discard
from smt.surrogate_models import LS, QP, IDW, RBF, KRG, KPLS, KPLSK, GEKPLS, RMTB, RMTC, GENN, MGP
from smt.applications import MFK, MFKPLS, MFKPLSK

QUIET = dict(print_global=False)
KRIGING = ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "MGP")
POLYS = ["constant", "linear", "quadratic"]


def spec(kind):
    """Strategy for one model kind's options (JSON-able)."""
    o = {"kind": st.just(kind)}
    if kind == "IDW":
        o["p"] = st.sampled_from([1, 2, 2.5, 3, 4.0, 6])
    elif kind == "RBF":
        o["d0"] = st.sampled_from([0.15, 0.4, 1.0, 2.0])   # fraction of the box width
        o["aniso"] = st.booleans()
        o["deg"] = st.sampled_from([-1, 0, 1])
    elif kind == "KRG":
        o["corr"] = st.sampled_from(["squar_exp", "abs_exp", "matern52", "matern32"])
        o["poly"] = st.sampled_from(POLYS)
        o["theta0"] = st.sampled_from([1e-2, 0.2, 1.0, 5.0])
        o["opt"] = st.sampled_from(["Cobyla", "TNC"])
    elif kind in ("KPLS", "GEKPLS"):
        o["corr"] = st.sampled_from(["squar_exp", "abs_exp"])
        o["poly"] = st.sampled_from(POLYS)
        o["h"] = st.integers(1, 3)
        o["theta0"] = st.sampled_from([1e-2, 0.2, 1.0])
        if kind == "GEKPLS":
            o["extra"] = st.integers(0, 3)
            o["dx"] = st.sampled_from([1e-4, 1e-2, 0.1])
    elif kind == "KPLSK":
        o["poly"] = st.sampled_from(POLYS)
        o["h"] = st.integers(1, 3)
        o["theta0"] = st.sampled_from([1e-2, 0.2])
    elif kind in ("MFK", "MFKPLS", "MFKPLSK"):
        o["corr"] = st.sampled_from(["squar_exp", "abs_exp"] + (["matern52", "matern32"] if kind == "MFK" else [])) if kind != "MFKPLSK" else st.just("squar_exp")
        o["poly"] = st.sampled_from(POLYS)
        o["rho"] = st.sampled_from(POLYS)
        o["h"] = st.integers(1, 2)
        o["theta0"] = st.sampled_from([1e-2, 0.3])
    elif kind == "RMTB":
        o["order"] = st.sampled_from([3, 4, 3, 4, 5])
        o["ncp"] = st.integers(5, 8)
        o["ao"] = st.sampled_from([2, 2, 4])
        o["ext"] = st.booleans()
        o["ew"] = st.sampled_from([1e-4, 1e-2])
        o["solver"] = st.sampled_from(["krylov-dense", "dense-chol", "lu", "krylov"])
    elif kind == "RMTC":
        o["ne"] = st.integers(1, 4)
        o["ao"] = st.sampled_from([2, 2, 4])
        o["ext"] = st.booleans()
        o["ew"] = st.sampled_from([1e-4, 1e-2])
        o["solver"] = st.sampled_from(["krylov-dense", "dense-chol", "lu", "krylov"])
    elif kind == "GENN":
        o["deep"] = st.integers(1, 3)
        o["wide"] = st.integers(1, 6)
        o["gamma"] = st.sampled_from([0.0, 0.5, 1.0])
    elif kind == "MGP":
        o["h"] = st.integers(1, 2)
    return st.fixed_dictionaries(o)


def any_spec(kinds):
    return st.sampled_from(kinds).flatmap(spec)


NP = {"constant": lambda d: 1, "linear": lambda d: d + 1, "quadratic": lambda d: (d + 1) * (d + 2) // 2}


def min_points(s, d):
    k = s["kind"]
    if k == "LS":
        return d + 2
    if k == "QP":
        return NP["quadratic"](d) + 2
    if k == "RBF":
        return {-1: 1, 0: 1, 1: d + 1}[s["deg"]] + 2
    if k.startswith("MF"):
        return max(NP[s["poly"]](d) + NP[s["rho"]](d) + 4, 6)
    if "poly" in s:
        return NP[s["poly"]](d) + 3
    if k in ("RMTB", "RMTC"):
        return 2 ** d + 2
    return 4


def parts(s, k, d):
    """the same number of parts for every input, or numbers that differ by one, laid out as s["perm"] says"""
    return [k + (i + s["perm"]) % d for i in range(d)] if "perm" in s else k


def build(s, d, xl, U=None, **extra):
    """Construct the model of spec s for inputs in box xl [d, 2]."""
    k = s["kind"]
    o = dict(QUIET, **extra)
    if "nugget" in s and k in KRIGING:
        o["nugget"] = s["nugget"]
    if s.get("pin") and "theta0" in s and k in KRIGING:   # hyperparameter search without room to move
        o["theta_bounds"] = [s["theta0"] * (1 - 1e-6), s["theta0"] * (1 + 1e-6)]
    if "reg" in s and k == "RBF":
        o["reg"] = s["reg"]
    if "rw" in s and k in ("RMTB", "RMTC"):
        o["regularization_weight"] = s["rw"]
    w = xl[:, 1] - xl[:, 0]
    if k == "LS":
        return LS(**o)
    if k == "QP":
        return QP(**o)
    if k == "IDW":
        return IDW(p=s["p"], **o)
    if k == "RBF":
        d0 = s["d0"] * w if s["aniso"] else s["d0"] * float(np.max(w))
        if s["aniso"]:
            d0 = list(d0)
        return RBF(d0=d0, poly_degree=s["deg"], **o)
    if k == "KRG":
        return KRG(corr=s["corr"], poly=s["poly"], theta0=[s["theta0"]] * d, hyper_opt=s["opt"], **o)
    if k == "KPLS":
        h = min(s["h"], d)
        return KPLS(corr=s["corr"], poly=s["poly"], n_comp=h, theta0=[s["theta0"]] * h, **o)
    if k == "KPLSK":
        h = min(s["h"], d)
        return KPLSK(poly=s["poly"], n_comp=h, theta0=[s["theta0"]] * h, **o)
    if k == "GEKPLS":
        h = min(s["h"], d)
        return GEKPLS(corr=s["corr"], poly=s["poly"], n_comp=h, theta0=[s["theta0"]] * h, xlimits=xl.copy(),
                      delta_x=s["dx"], extra_points=min(s["extra"], d), **o)
    if k == "MFK":
        return MFK(corr=s["corr"], poly=s["poly"], rho_regr=s["rho"], theta0=[s["theta0"]] * d, **o)
    if k == "MFKPLS":
        h = min(s["h"], d)
        return MFKPLS(corr=s["corr"], poly=s["poly"], rho_regr=s["rho"], n_comp=h, theta0=[s["theta0"]] * h, **o)
    if k == "MFKPLSK":
        h = min(s["h"], d)
        return MFKPLSK(corr=s["corr"], poly=s["poly"], rho_regr=s["rho"], n_comp=h, theta0=[s["theta0"]] * h, **o)
    if k == "RMTB":
        return RMTB(xlimits=xl.copy(), order=s["order"], num_ctrl_pts=parts(s, max(s["ncp"], s["order"]), d), approx_order=s["ao"], extrapolate=s["ext"],
                    energy_weight=s["ew"], solver=s["solver"], derivative_solver=o.pop("derivative_solver", s["solver"]), smoothness=(w ** 4).tolist(), **o)
    if k == "RMTC":
        return RMTC(xlimits=xl.copy(), num_elements=parts(s, s["ne"], d), approx_order=s["ao"], extrapolate=s["ext"],
                    energy_weight=s["ew"], solver=s["solver"], derivative_solver=o.pop("derivative_solver", s["solver"]), smoothness=(w ** 4).tolist(), **o)
    if k == "GENN":
        return GENN(deep=s["deep"], wide=s["wide"], gamma=s["gamma"], num_iterations=8, num_epochs=2, mini_batch_size=64,
                    is_print=False, seed=7, **o)
    if k == "MGP":
        return MGP(n_comp=min(s["h"], d), theta0=[1e-2], **o)
    raise ValueError(k)


def max_dim(kind):
    return {"RMTB": 3, "RMTC": 2, "MGP": 4, "GENN": 3}.get(kind, 4)


def single_output(kind):
    return kind in ("KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "MGP")


class Data:
    """Training data in a box: unit design U, inputs X, outputs Y [n, ny], derivatives dY [n, d, ny], low fidelity."""

    def __init__(self, case, n, d, ny, fam=None, design=None, box=None, yscale=None):
        from core import rng_of
        self.rng = rng = rng_of(case, 17)
        self.n, self.d, self.ny = n, d, ny
        self.U = gen.unit_design(rng, design or case.get("design", "spread"), n, d)
        self.xl = gen.box(rng, box or case.get("box", "unit"), d)
        self.X = gen.scale(self.U, self.xl)
        ys = 10.0 ** case.get("ye", 0) if yscale is None else yscale
        fam = fam or case.get("fam", "smooth")
        st8 = rng.get_state()
        self.Y = gen.outputs(rng, self.U, ny, fam) * ys
        self.fam, self.ys = fam, ys
        self._state = st8
        self.w = self.xl[:, 1] - self.xl[:, 0]
        self._dY = None

    def f(self, U):
        """the same output function at other unit points (not for 'rough')."""
        r = np.random.RandomState()
        r.set_state(self._state)
        return gen.outputs(r, U, self.ny, self.fam) * self.ys

    @property
    def dY(self):
        if self._dY is None:
            if self.fam == "rough":
                self._dY = self.rng.uniform(-1, 1, (self.n, self.d, self.ny)) * self.ys / self.w[None, :, None]
            else:
                self._dY = np.empty((self.n, self.d, self.ny))
                for k in range(self.d):
                    e = np.zeros(self.d)
                    e[k] = 1e-5
                    self._dY[:, k, :] = (self.f(self.U + e) - self.f(self.U - e)) / 2e-5 / self.w[k]
        return self._dY


def feed(sm, s, D, derivs=True):
    """Set the training data a model of spec s needs."""
    k = s["kind"]
    sm.set_training_values(D.X, D.Y)
    if k in ("GENN", "GEKPLS") or (derivs and s.get("derivs")):
        for i in range(D.d):
            sm.set_training_derivatives(D.X, D.dY[:, i, :], i)
    if k.startswith("MFK"):
        # nested low fidelity: all high-fidelity points plus as many others
        r = np.random.RandomState(D.n * 7919 + D.d)
        U2 = np.vstack([D.U, r.rand(D.n, D.d)])
        lo = 0.7 * D.Y[:, :1] + 0.4 * np.cos(3 * D.U.sum(1))[:, None] * D.ys + 0.2 * D.ys
        l2 = 0.7 * (D.f(U2[D.n:])[:, :1] if D.fam != "rough" else r.uniform(-1, 1, (D.n, 1)) * D.ys) + 0.4 * np.cos(3 * U2[D.n:].sum(1))[:, None] * D.ys + 0.2 * D.ys
        D.Xlo = np.vstack([D.X, gen.scale(U2[D.n:], D.xl)])
        D.Ylo = np.vstack([lo, l2])
        sm.set_training_values(D.Xlo, D.Ylo, name=0)
    return sm


def pls_ok(X, y, h):
    """Do the data have h partial-least-squares components (NIPALS on standardised data)?"""
    import ref
    A, b = ref.standardize(X, y)[:2]
    first = None
    for _ in range(h):
        w = A.T @ b
        nw = np.linalg.norm(w)
        first = nw if first is None else first
        if not nw > 1e-5 * max(first, 1e-3 * len(A)):
            return False
        t = A @ (w / nw)
        tt = (t ** 2).sum()
        A = A - t @ (t.T @ A) / tt
        b = b - t * ((t * b).sum() / tt)
    return True


def usable(s, D):
    """Discard degenerate training data (documented preconditions: trend determined by the design)."""
    import ref
    if "poly" in s:
        Xs, ys = ref.standardize(D.X, D.Y)[:2]
        F = ref.basis(s["poly"], Xs)
        if np.linalg.cond(F) > 1e5:
            raise Discard("trend not determined")
        if np.abs(ys - F @ np.linalg.lstsq(F, ys, rcond=None)[0]).max() < 1e-7:
            raise Discard("trend explains data")
    if s["kind"] in ("KPLS", "KPLSK", "GEKPLS", "MFKPLS", "MFKPLSK") and not pls_ok(D.X, D.Y, min(s.get("h", 1), D.d)):
        raise Discard("fewer PLS components than requested")
    if s["kind"] == "RBF" and s["deg"] == 1 and np.linalg.cond(ref.basis("linear", ref.standardize(D.X, D.Y)[0])) > 1e5:
        raise Discard("trend not determined")


def coef_size(sm):
    """Largest coefficient (in units of the standardised output) a Kriging-like model sums over: the rounding level of its predictions."""
    big = 0.0
    par = getattr(sm, "optimal_par", None)
    for o in (par if isinstance(par, (list, tuple)) else [par]):   # the levels of multi-fidelity models amplify each other
        if isinstance(o, dict):
            m = {q: float(np.abs(np.asarray(o[q], float)).max()) for q in ("gamma", "beta") if q in o}
            big = big * max(1.0, m.get("beta", 0.0)) + max(m.values(), default=0.0)
    return big


def trained(s, case, D):
    usable(s, D)
    sm = feed(build(s, D.d, D.xl), s, D)
    train(sm, s)
    return sm


def train(sm, s):
    try:
        sm.train()
    except ValueError as e:
        # the correlation matrix or the trend (which includes the lower fidelity) is numerically singular
        if s["kind"].startswith("MF") and "attempts to train" in str(e):
            raise Discard("training gave up")
        # GEKPLS' local data are exactly linear: a second component is rounding noise, at times none at all
        if s["kind"] == "GEKPLS" and s["h"] > 1 and "gesdd" in str(e):
            raise Discard("no second local component")
        raise
    return sm


def well(sm):
    """rounding in another order of summation must stay far below any mix-up of rows"""
    if coef_size(sm) > 1e7:
        raise Discard("ill-conditioned")
    return sm


def methods(sm, s, d):
    """name -> function of a query array, one row of results per query row."""
    k = s["kind"]
    out = {"values": sm.predict_values}
    sup = getattr(sm, "supports", {})
    if sup.get("variances"):
        out["variances"] = sm.predict_variances
    if sup.get("derivatives") and not ("corr" in s and s["corr"] != "squar_exp") and s.get("poly") != "quadratic" \
            and s.get("rho", "constant") == "constant":
        for kx in range(d):
            out["dx%d" % kx] = lambda x, kx=kx: sm.predict_derivatives(x, kx)
    if k in ("KRG", "KPLS", "KPLSK", "GEKPLS") and sup.get("variance_derivatives") and s.get("poly") != "quadratic":
        # one point at a time, through views of the caller's array
        out["dvar"] = lambda x: np.array([np.ravel(sm.predict_variance_derivatives(x[i:i + 1])) for i in range(len(x))])
    if k == "MGP":
        out = {"values": sm.predict_values, "variances": sm.predict_variances, "noUQ": lambda x: np.asarray(sm.predict_variances(x, both=True)[1])}
    if k.startswith("MF"):
        out["all_levels"] = lambda x: np.asarray(sm.predict_variances_all_levels(x)[0])
        out["level0"] = lambda x: sm._predict_intermediate_values(x, 1)
    if sup.get("output_derivatives"):
        out["dyt"] = lambda x: np.asarray(sm.predict_output_derivatives(x)[None])
    return out


# ---------------------------------------------------------------- applications
def vfm_spec():
    comp = ["KRG", "LS", "QP", "RBF", "IDW"]
    return st.fixed_dictionaries(dict(kind=st.just("VFM"), lf=st.sampled_from(comp), br=st.sampled_from(comp),
                                      type=st.sampled_from(["Additive", "Multiplicative"])))


def vfm_options(name, d, xl):
    w = xl[:, 1] - xl[:, 0]
    return {"KRG": dict(theta0=[0.5] * d, print_global=False), "LS": dict(print_global=False), "QP": dict(print_global=False),
            "RBF": dict(d0=list(0.5 * w), poly_degree=0, print_global=False), "IDW": dict(p=2.5, print_global=False)}[name]


def vfm_data(D):
    """low-fidelity data: twice as many points, other positions; outputs bounded away from zero."""
    r = np.random.RandomState(D.n * 104729 + D.d)
    Ul = gen.unit_design(r, "spread", 2 * D.n + 2, D.d)
    off = 4.0 * D.ys
    f_lo = lambda U: 0.8 * D.f(U) + 0.3 * D.ys * np.cos(2 * U.sum(1))[:, None] + off
    f_hi = lambda U: D.f(U) + off
    return gen.scale(Ul, D.xl), f_lo(Ul), D.X, f_hi(D.U)


def build_vfm(s, D):
    from smt.applications import VFM
    XL, YL, XH, YH = vfm_data(D)
    return VFM(type_bridge=s["type"], name_model_LF=s["lf"], name_model_bridge=s["br"], X_LF=XL, y_LF=YL, X_HF=XH, y_HF=YH,
               options_LF=vfm_options(s["lf"], D.d, D.xl), options_bridge=vfm_options(s["br"], D.d, D.xl))
