"""P18: random low/high-fidelity data sets x bridge types x component models: bridge re-trained independently from the definition, sum/product rule for values and derivatives, finite differences, interpolation of the high-fidelity data, caller's data unchanged"""
import copy
import numpy as np
from hypothesis import strategies as st
import gen, ref, models
from core import sub, need, close, Discard, rng_of
from smt.applications import VFM
from smt.surrogate_models import LS, QP, IDW, RBF, KRG, KPLS, KPLSK, GEKPLS, RMTB, RMTC

RULE = "the bridge is not constant"
CL = dict(LS=LS, QP=QP, IDW=IDW, RBF=RBF, KRG=KRG, KPLS=KPLS, KPLSK=KPLSK, GEKPLS=GEKPLS, RMTB=RMTB, RMTC=RMTC)
SENS = ("KRG", "KPLS", "KPLSK", "GEKPLS")
DER = ("GEKPLS", "RMTC", "RMTB")      # can be trained with derivatives
COMP = ["LS", "KRG", "QP", "RBF", "IDW", "RMTC", "RMTB", "KPLS", "GEKPLS", "KPLSK"]
ST = dict(lf=st.sampled_from(COMP), br=st.sampled_from(COMP), type=st.sampled_from(["Additive", "Multiplicative"]), d=st.sampled_from([2, 1, 3]), n=st.sampled_from([8, 12]), box=st.sampled_from(["unit", "sym", "shift", "mixed"]), ye=st.sampled_from([0, 3, -3]),
          lfd=st.booleans(), brd=st.booleans(), same=st.booleans(), ny=st.sampled_from([1, 1, 2]), neg=st.booleans(), spare=st.booleans())


def opts(name, d, xl, rng):
    w = xl[:, 1] - xl[:, 0]
    o = {"KRG": dict(theta0=[0.5] * d), "KPLS": dict(n_comp=1, theta0=[0.5]), "KPLSK": dict(n_comp=1, theta0=[0.5]), "RBF": dict(d0=list((0.4 if d > 1 else 0.15) * w), poly_degree=int(rng.randint(-1, 2))),
         "IDW": dict(p=float(rng.choice([2.0, 2.5, 4.0]))), "RMTC": dict(xlimits=xl, num_elements=[2] * d), "RMTB": dict(xlimits=xl, num_ctrl_pts=[6] * d),
         "GEKPLS": dict(n_comp=1, theta0=[0.5], xlimits=xl, extra_points=int(rng.randint(0, 2)) if d > 1 else 0, delta_x=0.05)}.get(name, {})
    return dict(o, print_global=False)


def problem(c, rng):
    d = c["d"]
    nh = max(c["n"], (d + 1) * (d + 2) // 2 + 2)
    xl = gen.box(rng, c["box"], d)
    w = xl[:, 1] - xl[:, 0]
    s = 10.0 ** c["ye"]
    ny = c["ny"]
    a, b = rng.uniform(1, 2.5, (ny, d)), rng.uniform(-1, 1, (ny, d))
    sg = -1.0 if c["neg"] else 1.0

    def lo(U):
        return sg * s * (3.0 + np.sin(U @ a.T) + 0.3 * (U @ b.T))

    def dlo(U):
        return sg * s * (np.cos(U @ a.T)[:, :1] * a[:1] + 0.3 * b[:1]) / w

    def hi(U):
        return lo(U) * (1.2 + 0.2 * np.cos(2 * U @ b.T)) + 0.5 * s * (U @ a.T)

    def dhi(U):
        L, c2, s2 = lo(U)[:, :1], np.cos(2 * U @ b.T)[:, :1], np.sin(2 * U @ b.T)[:, :1]
        return dlo(U) * (1.2 + 0.2 * c2) - L * 0.4 * s2 * b[:1] / w + 0.5 * s * a[:1] / w
    Uh, Ul = gen.unit_design(rng, "spread", nh, d), gen.unit_design(rng, "spread", nh + 8, d)
    return xl, w, s, Uh, Ul, lo, dlo, hi, dhi


def component(name, o, X, Y, dY):
    sm = CL[name](**{k: copy.copy(v) for k, v in o.items()})
    sm.options["print_global"] = False
    sm.set_training_values(X, Y)
    if dY is not None:
        for i in range(X.shape[1]):
            sm.set_training_derivatives(X, dY[:, i], i)
    sm.train()
    return sm


@sub(gen.cases(**ST), quick=400, rule=RULE)
def combination(case):
    rng = rng_of(case, 1)
    c = dict(case)
    lf, br = c["lf"], c["lf"] if c["same"] else c["br"]
    if lf in SENS or br in SENS:
        c["ny"] = 1
    d = c["d"]
    if d == 3 and (lf in ("RMTB", "RMTC") or br in ("RMTB", "RMTC")):
        d = c["d"] = 2
    xl, w, s, Uh, Ul, lo, dlo, hi, dhi = problem(c, rng)
    lfd = c["ny"] == 1 and (lf == "GEKPLS" or (c["lfd"] and lf in DER))
    brd = c["ny"] == 1 and (br == "GEKPLS" or (c["brd"] and br in DER))
    if (lf == "GEKPLS" or br == "GEKPLS") and c["ny"] > 1:
        raise Discard("single output")
    XL, YL, XH, YH = gen.scale(Ul, xl), lo(Ul), gen.scale(Uh, xl), hi(Uh)
    oL, oB = opts(lf, d, xl, rng), opts(br, d, xl, rng)
    kL, kB = dict(oL), dict(oB)
    if lfd or c["lfd"]:
        kL["deriv"] = bool(lfd)
    if brd or c["brd"]:
        kB["deriv"] = bool(brd)
    if c["same"]:
        lfd = brd = lfd or brd
        kL = dict(kL, deriv=lfd) if lfd else kL
        kB, oB = kL, oL           # one dictionary for both models
    kw = dict(type_bridge=c["type"], name_model_LF=lf, name_model_bridge=br, X_LF=XL, y_LF=YL, X_HF=XH, y_HF=YH, options_LF=kL, options_bridge=kB)
    spare = c["spare"] and c["ny"] == 1          # derivatives given, but no option asks for them
    if lfd or spare:
        kw["dy_LF"] = dlo(Ul)
    if brd or spare:
        kw["dy_HF"] = dhi(Uh)
    keep = copy.deepcopy({k: v for k, v in kw.items()})
    vfm = VFM(**kw)
    xq = gen.scale(gen.queries(rng, 7, d, Uh, 0.0 if lf in ("RMTB", "RMTC") or br in ("RMTB", "RMTC") else 0.1), xl)
    try:
        got = vfm.predict_values(xq.copy())
    except ValueError as e:
        if "attempts to train" in str(e):
            raise Discard("training gave up")
        raise
    what = "%s bridge %s on %s" % (c["type"].lower(), br, lf)
    for k, v in keep.items():
        now = kw[k]
        same = np.array_equal(v, now) if isinstance(v, np.ndarray) else (v.keys() == now.keys() and all(np.array_equal(v[i], now[i]) for i in v)) if isinstance(v, dict) else v == now
        need(same, "%s: caller's %s changed: %s" % (what, k, now if isinstance(now, dict) else ""))
    # the definition
    L = component(lf, oL, XL, YL, dlo(Ul) if lfd else None)
    atH = L.predict_values(XH)
    dH = np.hstack([L.predict_derivatives(XH, i)[:, :1] for i in range(d)]) if brd else None
    if c["type"] == "Additive":
        YB = YH - atH
        dB = dhi(Uh) - dH if brd else None
    else:
        if np.abs(atH).min() < 0.1 * s:
            raise Discard("division by a small prediction")
        YB = YH / atH
        dB = (dhi(Uh) * atH - YH * dH) / atH ** 2 if brd else None
    try:
        B = component(br, oB, XH, YB, dB)
    except ValueError as e:
        if "attempts to train" in str(e):
            raise Discard("training gave up")
        raise
    big = 0.0
    for nm, m in ((lf, L), (br, B)):
        if nm in SENS:
            big = max(big, models.coef_size(m))
    if big > 1e7:
        raise Discard("ill-conditioned")
    mult = c["type"] == "Multiplicative"
    vB, vL = B.predict_values(xq), L.predict_values(xq)
    rt = 1e-3 if lf in SENS or br in SENS else 1e-4 if "RBF" in (lf, br) else 1e-7
    close(got, vB * vL if mult else vB + vL, 0, rt * (s * 5 + np.abs(vL).max() * (np.abs(vB).max() if mult else 1)), "%s: values" % what)
    for i in range(d):
        g = vfm.predict_derivatives(xq.copy(), i)
        dB_, dL_ = B.predict_derivatives(xq, i), L.predict_derivatives(xq, i)
        want = dB_ * vL + vB * dL_ if mult else dB_ + dL_
        close(g, want, 0, 3 * rt * (5 * s / w[i] + np.abs(dL_).max() * (np.abs(vB).max() if mult else 1) + np.abs(dB_).max() * (np.abs(vL).max() if mult else 1)), "%s: derivative with respect to input %d" % (what, i))
    if c["ny"] == 1:
        g = vfm.predict_derivatives(xq.copy(), None)
        need(g.shape == (len(xq), d), "%s: gradient has shape %s" % (what, g.shape))
        close(g, np.hstack([vfm.predict_derivatives(xq, i) for i in range(d)]), 1e-12, 1e-12 * s / w.min(), "%s: gradient against its columns" % what)
    if br in ("RBF", "IDW", "KRG", "KPLS", "KPLSK") and (br != "RBF" or d > 1 or len(Uh) < 10):
        close(vfm.predict_values(XH), YH, 0, 2e-4 * s * 5, "%s: high-fidelity data" % what)
    return np.ptp(YB) > 1e-6 * np.abs(YB).max(), ["lf:" + lf, "br:" + br, "type:" + c["type"], "deriv:%d%d" % (lfd, brd)]


@sub(gen.cases(lf=st.sampled_from(["LS", "KRG", "QP", "RBF", "IDW", "RMTB"]), br=st.sampled_from(["QP", "KRG", "LS", "RBF", "IDW", "RMTB"]), **{k: v for k, v in ST.items() if k not in ("lf", "br", "lfd", "brd", "same")}), quick=150, rule=RULE)
def slope(case):
    """derivatives are those of the predictions; predicting derivatives first gives the same model"""
    rng = rng_of(case, 2)
    c = dict(case)
    lf, br = c["lf"], c["br"]
    if lf == "KRG" or br == "KRG":
        c["ny"] = 1
    if c["d"] == 3 and "RMTB" in (lf, br):
        c["d"] = 2
    d = c["d"]
    xl, w, s, Uh, Ul, lo, dlo, hi, dhi = problem(c, rng)
    mk = lambda: VFM(type_bridge=c["type"], name_model_LF=lf, name_model_bridge=br, X_LF=gen.scale(Ul, xl), y_LF=lo(Ul), X_HF=gen.scale(Uh, xl), y_HF=hi(Uh), options_LF=opts(lf, d, xl, rng_of(case, 9)), options_bridge=opts(br, d, xl, rng_of(case, 8)))
    vfm = mk()
    U = rng.uniform(0.05, 0.95, (6, d))
    if "IDW" in (lf, br):
        U = U[[np.abs(np.vstack([Uh, Ul]) - u).max(1).min() > 0.03 for u in U]]
        if not len(U):
            raise Discard("too near to the data")
    xq = gen.scale(U, xl)
    for k in rng.permutation(d):
        g = vfm.predict_derivatives(xq, int(k))
        h = 1e-3
        e = np.zeros(d)
        e[k] = h
        F = [vfm.predict_values(gen.scale(U + j * e, xl)) for j in (-2, -1, 1, 2)]
        F2 = [vfm.predict_values(gen.scale(U + j * e / 2, xl)) for j in (-2, -1, 1, 2)]
        fd = (F[0] - 8 * F[1] + 8 * F[2] - F[3]) / (12 * h * w[k])
        f2 = (F2[0] - 8 * F2[1] + 8 * F2[2] - F2[3]) / (6 * h * w[k])
        big = max(np.abs(f).max() for f in F)
        if np.abs(fd - f2).max() > 1e-4 * big / w[k]:
            raise Discard("finite differences not settled")
        close(g, f2, 1e-4, 3e-4 * big / w[k] + 10 * np.abs(fd - f2).max(), "%s bridge %s on %s: derivative %d against differences" % (c["type"], br, lf, k))
    if "KRG" not in (lf, br):
        close(mk().predict_values(xq), vfm.predict_values(xq), 1e-8, 1e-8 * s, "values first and derivatives first")
    return True, ["type:" + c["type"]]
