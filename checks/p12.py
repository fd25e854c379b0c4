"""P12: metamorphic relations between batches of query points (rows alone, permuted, huge batches, other memory layouts and
number types) and between caller-owned and private arrays, for every model of the toolbox."""
import numpy as np
from hypothesis import strategies as st
from core import sub, need, close, rng_of, Discard, Violation
import gen, ref, models
from models import methods

BASIC = ["LS", "QP", "IDW", "RBF", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "RMTB", "RMTC", "GENN", "MGP"]
from models import well

RULE = "model trained; at least two query rows (or arrays) compared"


def setup(case, fam=None):
    # a nugget bounds the conditioning, so that rounding in another order of summation stays far below any mix-up of rows
    s = dict(case["spec"], nugget=1e-6, reg=1e-7)
    k = s["kind"]
    if k in ("MFK", "MFKPLS", "MFKPLSK"):
        s = dict(s, rho="constant") if case.get("drv", True) else s
    d = min(case["d"], models.max_dim(k))
    if k == "GEKPLS":
        d = max(d, 2)
    ny = 1 if models.single_output(k) else case["ny"]
    n = max(case["n"], models.min_points(s, d) + (2 if k in ("RMTB", "RMTC") else 0), 2 * d + 4 if k == "MGP" else 0)
    D = models.Data(case, n, d, ny, box=case["box"] if k not in ("RMTB", "RMTC", "MGP") else "shift", fam=fam)
    if np.any(np.std(D.Y, axis=0) < 1e-9 * np.abs(D.Y).max()):
        raise Discard("constant")
    return s, k, d, ny, D


def noise(f, Q, base):
    """size of the rounding noise of f: spread under relative perturbations of a few ulp (includes the true slope)."""
    e = np.zeros_like(base)
    for k, m in enumerate((1, -1, 3, -2)):
        e = np.maximum(e, np.abs(np.asarray(f(Q * (1 + m * 2.3e-16 * (1 + k)))) - base))
    return e


def compare(name, got, want, nz, scale):
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (name, got.shape, want.shape))
    fin = np.isfinite(want)
    if not np.array_equal(fin, np.isfinite(got)):
        raise Violation("%s: finite/non-finite results differ" % name)
    bad = fin & (np.abs(got - want) > 1e-6 * scale + 1e-9 * np.abs(want) + 30 * nz)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.abs(got - want), 0)), bad.shape)
        raise Violation("%s: %.12g, expected %.12g at %s (noise %.2g)" % (name, got[i], want[i], i, np.broadcast_to(nz, got.shape)[i]))


def rows_check(fs, Q, rng, k, ny, big=False):
    for name, f in fs.items():
        B = np.asarray(f(Q.copy()))
        need(B.shape[0] == len(Q), "%s %s: %d rows for %d points" % (k, name, B.shape[0], len(Q)))
        if k != "MGP" and name in ("values", "variances") or name.startswith("dx"):
            need(B.shape == (len(Q), ny), "%s %s: shape %s for %d points, %d outputs" % (k, name, B.shape, len(Q), ny))
        nz = noise(f, Q, B).max(axis=0)
        scale = np.abs(np.where(np.isfinite(B), B, 0)).max(axis=0)
        pick = range(len(Q)) if len(Q) <= 8 else rng.choice(len(Q), 8, replace=False)
        for i in pick:
            compare("%s %s: row %d of %d vs the point alone" % (k, name, i, len(Q)), np.asarray(f(Q[i:i + 1].copy()))[0], B[i], nz, scale)
        p = rng.permutation(len(Q))
        compare("%s %s: permuted batch" % (k, name), np.asarray(f(Q[p].copy())), B[p], nz, scale)


def query(case, D, rng, m):
    Q = rng.uniform(-0.2, 1.2, (m, D.d))
    if m > 2:
        Q[1] = Q[0]                       # a repeated point
        Q[2] = D.U[rng.randint(len(D.U))]  # a training point
    return gen.scale(Q, D.xl)


BASE = dict(n=st.integers(4, 10), d=st.integers(1, 4), ny=st.sampled_from([1, 2, 3, 5]), design=gen.DESIGNS,
            box=st.sampled_from(["unit", "sym", "shift", "wide", "mixed"]), fam=gen.FAMS, ye=st.integers(-1, 2))


@sub(gen.cases(spec=models.any_spec(BASIC), nq=st.integers(2, 7), **BASE), quick=700, rule=RULE)
def rows(case):
    s, k, d, ny, D = setup(case)
    sm = well(models.trained(s, case, D))
    rng = rng_of(case, 2)
    rows_check(methods(sm, s, d), query(case, D, rng, case["nq"]), rng, k, ny)
    return True, [k]


@sub(gen.cases(spec=models.any_spec(["KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MGP", "RBF", "IDW", "RMTB", "RMTC"]),
               nq=st.sampled_from([400, 1000, 1111, 2500]), **dict(BASE, n=st.sampled_from([4, 8, 10, 20, 25]))), quick=100, rule=RULE + "; several thousand point pairs")
def huge_batches(case):
    s, k, d, ny, D = setup(case)
    sm = well(models.trained(s, case, D))
    rng = rng_of(case, 2)
    nq = case["nq"] if k != "MGP" else min(case["nq"], 1111)
    rows_check({q: f for q, f in methods(sm, s, d).items() if q not in ("dyt", "dvar")}, query(case, D, rng, nq), rng, k, ny)
    return True, [k, "pairs>1e4" if nq * D.n > 1e4 else "pairs<=1e4", "pairs==k*1e4" if nq * D.n % 10000 == 0 else "other"]


LAYOUTS = ["F", "strided", "reversed", "readonly", "float32", "int", "big_endian", "1d"]
DATA_LAYOUTS = [l for l in LAYOUTS if l != "float32"]   # float32 training data may be worked on in float32


def lay(A, how):
    """Another array with the same values (after rounding to the representable ones for float32/int)."""
    A = np.array(A, dtype=float)
    if how == "F":
        return np.asfortranarray(A)
    if how == "strided":
        B = np.full((A.shape[0] * 2, A.shape[1] * 3), 7.5)
        B[::2, 1::3] = A
        return B[::2, 1::3]
    if how == "reversed":
        return A[::-1, ::-1].copy()[::-1, ::-1]
    if how == "readonly":
        B = A.copy()
        B.setflags(write=False)
        return B
    if how == "float32":
        return A.astype(np.float32)
    if how == "int":
        return A.astype(int)
    if how == "big_endian":
        return A.astype(">f8")
    if how == "1d":
        return A[:, 0].copy() if A.shape[1] == 1 else A
    return A


def exact(A, how):
    """values representable in the target type, still distinct rows"""
    if how == "float32":
        return A.astype(np.float32).astype(float)
    if how == "int":
        return np.round(A)
    return A


@sub(gen.cases(spec=models.any_spec(BASIC), nq=st.integers(1, 6), lt=st.sampled_from(DATA_LAYOUTS), ly=st.sampled_from(DATA_LAYOUTS), lq=st.sampled_from(LAYOUTS),
               **dict(BASE, box=st.sampled_from(["unit", "shift", "wide"]))), quick=700, rule="same values handed over in another memory layout or number type; results compared")
def layouts(case):
    lt, ly, lq = case["lt"], case["ly"], case["lq"]
    if "int" in (lt, lq):
        case = dict(case, box="wide")
    s, k, d, ny, D = setup(case)
    s["pin"] = True
    if k in ("RMTB", "RMTC") and lq == "float32":
        lq = "F"     # single precision decides differently which side of the domain boundary a point is on
    if k == "GEKPLS":
        s["h"] = 1
    if k in ("RMTB", "RMTC") and "int" in (lt, lq):
        D.xl = gen.box(rng_of(case, 3), "wide", d)
        D.X = gen.scale(D.U, D.xl)
        D.w = D.xl[:, 1] - D.xl[:, 0]
        s = dict(s, solver="lu")
    rng = rng_of(case, 2)
    D.Y = exact(D.Y * (100 if ly == "int" else 1), ly)
    D.X = exact(D.X, lt)
    if k in ("RMTB", "RMTC"):
        D.X = np.clip(D.X, D.xl[:, 0], D.xl[:, 1])
        if not np.array_equal(D.X, exact(D.X, lt)):
            D.X = exact(gen.scale(0.1 + 0.8 * D.U, D.xl), lt)
    if len(np.unique(D.X, axis=0)) < D.n or np.any(np.std(D.Y, axis=0) < 1e-9 * np.abs(D.Y).max()):
        raise Discard("rounding merged points")
    Q = exact(query(case, D, rng, case["nq"]), lq)
    models.usable(s, D)
    dY = D.dY

    def run(X, Y, dYs, Q, *lays):
        sm = models.build(s, d, D.xl)
        sm.set_training_values(X, Y)
        if k in ("GENN", "GEKPLS"):
            for i in range(d):
                sm.set_training_derivatives(X, dYs[i], i)
        if k.startswith("MF"):
            E = models.Data.__new__(models.Data)
            E.__dict__.update(D.__dict__)
            models.feed(models.build(s, d, D.xl), s, E)
            Xlo = np.vstack([D.X, E.Xlo[D.n:]])
            sm.set_training_values(lay(Xlo, lays[0]) if lays and lt in ("F", "strided", "reversed", "readonly", "1d") else Xlo, E.Ylo, name=0)
        np.random.seed(1)
        well(models.train(sm, s))
        fs = methods(sm, s, d)
        thetas.append(np.concatenate([np.ravel(np.asarray(t, float)) for t in sm.optimal_theta]) if hasattr(sm, "optimal_theta") and k in models.KRIGING else np.zeros(1))
        # the two extra multi-fidelity methods and MGP take plain [n, nx] arrays only
        return fs, {q: np.asarray(f(Q if q not in ("all_levels", "level0") and k != "MGP" else np.atleast_2d(Q.T).T)) for q, f in fs.items()}

    thetas = []

    fs, want = run(D.X, D.Y, [dY[:, i, :] for i in range(d)], Q)
    nzs = {q: noise(f, Q, want[q]) for q, f in fs.items()}
    if any((nzs[q] > 1e-5 * np.abs(want[q]).max()).any() for q in want if q in ("values", "variances")) and case["box"] != "wide":
        raise Discard("ill-conditioned")
    X2, Y2, Q2 = lay(D.X, lt), lay(D.Y, ly), lay(Q, lq)
    dY2 = [lay(dY[:, i, :], ly if ly not in ("float32", "int") else "C") for i in range(d)]
    keep = [a.copy() for a in [X2, Y2, Q2] + dY2]
    try:
        _, got = run(X2, Y2, dY2, Q2, lt)
    except (ValueError, TypeError) as e:
        # other number types may be refused, memory layouts may not
        if {lt, ly, lq} & {"float32", "int", "big_endian"}:
            return False, ["refused " + k]
        raise
    for a, b, nm in zip(keep, [X2, Y2, Q2] + dY2, ["xt", "yt", "x"] + ["dyt"] * d):
        need(np.array_equal(a, b) and a.dtype == b.dtype, "%s: array %s of the caller was changed" % (k, nm))
    if k in ("KPLSK", "MFKPLSK", "MGP") and (thetas[0].shape != thetas[1].shape or np.abs(thetas[0] / thetas[1] - 1).max() > 1e-6):
        raise Discard("rounding led the search elsewhere")
    for q in want:
        # training in another layout may round differently: allow the training's conditioning
        compare("%s %s with layouts x:%s y:%s query:%s" % (k, q, lt, ly, lq), got[q], want[q], nzs[q].max(axis=0), (10 if lq != "float32" else 1e4) * (np.abs(want[q]).max() + (np.abs(D.Y).max() if q == "values" else 0)))
    return True, [k, "t:" + lt, "y:" + ly, "q:" + lq]


@sub(gen.cases(spec=models.any_spec(BASIC), nq=st.integers(1, 6), when=st.sampled_from(["before_train", "after_train"]), via=st.sampled_from(["set", "set", "update"]), **BASE), quick=600,
     rule="caller overwrites every array it passed in (data, derivatives, options, queries); predictions compared with an undisturbed model")
def caller_overwrites(case):
    s, k, d, ny, D = setup(case)
    models.usable(s, D)
    rng = rng_of(case, 2)
    Q = query(case, D, rng, case["nq"])
    given = []

    def mine(a):
        b = np.array(a, dtype=float)
        given.append((b, b.copy()))
        return b

    def run(scribble):
        E = models.Data.__new__(models.Data)
        E.__dict__.update(D.__dict__)
        E.X, E.Y, E._dY = mine(D.X), mine(D.Y), np.array(D.dY)
        E.xl = mine(D.xl)
        sm = models.build(s, d, E.xl)

        class Giver:
            def set_training_values(self, x, y, name=None):
                if case["via"] == "update":
                    sm.set_training_values(mine(x), np.zeros(np.shape(y)), name)
                    sm.update_training_values(mine(y), name)
                else:
                    sm.set_training_values(mine(x), mine(y), name)

            def set_training_derivatives(self, x, y, i):
                if case["via"] == "update":
                    sm.set_training_derivatives(mine(x), np.zeros(np.shape(y)), i)
                    sm.update_training_derivatives(mine(y), i)
                else:
                    sm.set_training_derivatives(mine(x), mine(y), i)

        models.feed(Giver(), s, E)
        if scribble == "before_train":
            wreck()
        np.random.seed(1)
        well(models.train(sm, s))
        unchanged()
        if scribble == "after_train":
            wreck()
        fs = methods(sm, s, d)
        out = {}
        for q, f in fs.items():
            x = Q.copy()
            r = np.asarray(f(x))
            need(np.array_equal(x, Q), "%s %s changed the query array" % (k, q))
            keep = r.copy()
            x[...] = -3.25
            need(np.array_equal(keep, r, equal_nan=True), "%s %s: result aliases the query array" % (k, q))
            r[...] = 4.5e3
            out[q] = keep
            out[q + " again"] = np.asarray(f(Q.copy()))
        return out

    wrecked = []

    def unchanged():
        for b, c in given:
            if id(b) not in wrecked:
                need(np.array_equal(b, c), "%s: training changed an array of the caller" % k)

    def wreck():
        for b, c in given:
            if not np.array_equal(b, c):
                raise Violation("%s: an array of the caller was changed" % k)
            b[...] = b[::-1] * 1.7 + 0.3 if b.ndim == 2 and b.shape[1] != 2 else b * 1.7 + 0.3
            wrecked.append(id(b))

    want = run(None)
    given.clear()
    got = run(case["when"])
    for q in want:
        sc = np.abs(np.where(np.isfinite(want[q]), want[q], 0)).max()
        compare("%s %s after the caller overwrote its arrays (%s)" % (k, q, case["when"]), got[q], want[q], 0.0, sc)
    return True, [k, case["when"]]


@sub(gen.cases(spec=models.any_spec(BASIC), steps=st.lists(st.tuples(st.integers(0, 99), st.sampled_from(["buffer", "buffer", "one row changed", "shuffled", "view", "new"]), st.integers(0, 9999)), min_size=4, max_size=10), **BASE), quick=400,
     rule="at least four requests in a row, arrays reused and overwritten in between")
def histories(case):
    """a request's answer does not depend on the requests before it, even when the same array is filled with other points"""
    s, k, d, ny, D = setup(case)
    models.usable(s, D)
    sm = well(models.trained(s, case, D))
    rng = rng_of(case, 2)
    m = 4
    pool = query(case, D, rng, 9)
    fs = methods(sm, s, d)
    names = sorted(fs)
    base = {n: np.array(fs[n](pool.copy())) for n in names}
    nz = {n: noise(fs[n], pool, base[n]).max(axis=0) for n in names}
    scale = {n: np.abs(np.where(np.isfinite(base[n]), base[n], 0)).max(axis=0) for n in names}
    buf = np.array(pool[:m])
    idx = np.arange(m)
    for which, how, v in case["steps"]:
        r = np.random.RandomState(v)
        n = names[which % len(names)]
        if how == "one row changed":
            idx = idx.copy()
            idx[1 + r.randint(m - 1)] = r.randint(9)      # the first row stays
        elif how == "shuffled":
            idx = r.permutation(idx)
        else:
            idx = r.randint(0, 9, m)
        if how == "view":
            x = pool[idx[0]:idx[0] + 1]
            want = base[n][idx[0]:idx[0] + 1]
        elif how == "new":
            x, want = pool[idx].copy(), base[n][idx]
        else:
            buf[...] = pool[idx]                          # the same array object as before
            x, want = buf, base[n][idx]
        keep = x.copy()
        got = np.asarray(fs[n](x))
        need(np.array_equal(x, keep), "%s %s changed the query array" % (k, n))
        compare("%s %s after other requests (%s)" % (k, n, how), got, want, nz[n], scale[n])
    return True, [k]


APP = dict(app=st.sampled_from(["VFM", "VFM", "MIX", "MIX", "MOE", "MOESM"]), n=st.integers(5, 9), d=st.integers(1, 3), nq=st.integers(2, 6),
           design=st.just("spread"), box=st.sampled_from(["unit", "sym", "shift"]), fam=st.sampled_from(["smooth", "quad"]), ye=st.integers(-1, 1))


@sub(gen.cases(vfm=models.vfm_spec(), mix=st.sampled_from(["IDW", "RBF", "KRG", "LS"]), folded=st.booleans(), smooth=st.booleans(),
               heavi=st.booleans(), clusters=st.integers(1, 2), **APP), quick=100, rule="application model; rows and caller arrays")
def applications(case):
    import contextlib, io
    from smt.applications import MOE
    from smt.applications.moe import MOESurrogateModel
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT, ENUM
    app, d = case["app"], case["d"]
    rng = rng_of(case, 2)
    n = {"VFM": max(case["n"], (d + 1) * (d + 2) // 2 + 2), "MIX": 12, "MOE": 40, "MOESM": 40}[app]
    D = models.Data(case, n, d, 1)
    given = []

    def mine(a):
        b = np.array(a, dtype=float)
        given.append((b, b.copy()))
        return b

    def intact(what):
        for b, c in given:
            need(np.array_equal(b, c), "%s: %s changed an array of the caller" % (app, what))

    def wreck():
        for b, c in given:
            b[...] = b[::-1] * 1.7 + 0.3

    def make(scribble):
        np.random.seed(case["seed"] % 2 ** 31)
        given.clear()
        X, Y = mine(D.X), mine(D.Y)
        if app == "VFM":
            sm = models.build_vfm(case["vfm"], D)
            for q in ("X_LF", "y_LF", "X_HF", "y_HF"):
                sm.options[q] = mine(sm.options[q])
            fs = {"values": sm.predict_values}
            sm.predict_values(D.X[:1].copy())
            if case["vfm"]["lf"] != "IDW" and case["vfm"]["br"] != "IDW":
                for kx in range(d):
                    fs["dx%d" % kx] = lambda x, kx=kx: sm.predict_derivatives(x, kx)
            Q = query(case, D, rng_of(case, 4), case["nq"])
        elif app == "MIX":
            types = [FLOAT, (ENUM, 3), INT][:max(d, 2)]
            lims = [[D.xl[0, 0], D.xl[0, 1]], ["a", "b", "c"], [-2, 9]][:max(d, 2)]
            r = rng_of(case, 6)
            m = 14
            Z = np.stack([gen.scale(gen.unit_design(r, "spread", m, 1), D.xl[:1])[:, 0], r.randint(0, 3, m), r.randint(-2, 10, m)], axis=1)[:, :len(types)]
            from smt.applications.mixed_integer import unfold_with_enum_mask
            if not case["folded"]:
                Z = unfold_with_enum_mask(types, Z)
            dd = Z.shape[1] + (2 if case["folded"] else 0)
            base = models.build({"kind": case["mix"], "p": 2, "d0": 0.5, "aniso": False, "deg": 0, "corr": "squar_exp", "poly": "constant",
                                 "theta0": 0.3, "opt": "Cobyla", "nugget": 1e-6, "reg": 1e-7}, dd, np.array([[0.0, 3.0]] * dd))
            sm = MixedIntegerSurrogateModel(types, lims, base, input_in_folded_space=case["folded"])
            X = mine(Z)
            Yz = mine(np.sin(Z.sum(1))[:, None] + 0.1 * Z[:, :1])
            sm.set_training_values(X, Yz)
            if scribble == "before":
                wreck()
            sm.train()
            fs = {"values": sm.predict_values}
            if case["mix"] == "KRG":
                fs["variances"] = sm.predict_variances
            Q = Z[rng_of(case, 8).permutation(m)[:case["nq"]]].copy()
            Q[:, 0] += 0.1
            if not case["folded"]:
                Q[:, 1:4] = rng_of(case, 9).rand(len(Q), 3)
        else:
            o = dict(n_clusters=case["clusters"], smooth_recombination=case["smooth"], heaviside_optimization=case["heavi"] and case["smooth"],
                     variances_support=True, allow=["KRG"])
            sm = MOE(**o) if app == "MOE" else MOESurrogateModel(print_global=False, **o)
            sm.set_training_values(X, Y)
            if scribble == "before":
                wreck()
            with contextlib.redirect_stdout(io.StringIO()):
                sm.train()
            fs = {"values": sm.predict_values, "variances": sm.predict_variances}
            Q = query(case, D, rng_of(case, 4), case["nq"])
        if scribble is None:
            intact("training")
        if scribble == "after":
            wreck()
        return fs, Q

    fs, Q = make(None)
    for q, f in fs.items():
        x = Q.copy()
        f(x)
        need(np.array_equal(x, Q), "%s %s changed the query array" % (app, q))
    intact("prediction")
    rows_check(fs, Q, rng, app, 1)
    want = {q: np.asarray(f(Q.copy())) for q, f in fs.items()}
    for how in (["after"] if app == "VFM" else ["before", "after"]):
        fs, Q = make(how)
        for q in want:
            compare("%s %s after the caller overwrote its arrays (%s training)" % (app, q, how), np.asarray(fs[q](Q.copy())), want[q], 0.0, np.abs(want[q]).max())
    return True, [app]
