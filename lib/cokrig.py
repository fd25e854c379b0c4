"""Nested multi-fidelity data sets and model options (P02, P16)"""
import numpy as np
import gen
from core import Discard
from smt.applications import MFK, MFKPLS, MFKPLSK

CL = dict(MFK=MFK, MFKPLS=MFKPLS, MFKPLSK=MFKPLSK)


def nterms(p, d):
    return {"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[p]


def make_data(c, rng):
    """lists low -> high of inputs and outputs; each level's points are among those of the level below"""
    L, d = c["L"], c["d"]
    n = max(c["n"], nterms(c["poly"], d) + (nterms(c["rho"], d) if L > 1 else 0) + 3)
    Us = [gen.unit_design(rng, "spread", n, d)]
    for l in range(L - 1):
        extra = rng.rand(len(Us[0]) if len(Us[0]) < 20 else 6, d)
        U = np.vstack([Us[0], extra])
        Us.insert(0, U[rng.permutation(len(U))] if c["order"] else U)
    xl = gen.box(rng, c["box"], d)
    s = 10.0 ** c["ye"]
    a, b = rng.uniform(1, 3, d), rng.uniform(-1, 1, d)
    fs = [lambda U: np.sin(U @ a) + 0.3 * np.cos(3 * U[:, 0])]
    for l in range(L - 1):
        k, m, z = rng.uniform(0.6, 1.8), rng.uniform(0.5, 4), rng.uniform(-0.3, 0.3)
        f0 = fs[-1]
        fs.append(lambda U, f0=f0, k=k, m=m, z=z: (k + z * U[:, -1]) * f0(U) + 0.4 * np.cos(m * U @ b + m) + U[:, 0] ** 2 * z)
    return Us, [gen.scale(U, xl) for U in Us], [f(U)[:, None] * s for f, U in zip(fs, Us)], xl, s


def options(c, L, d, rng):
    k = c["model"]
    corr = c["corr"] if k == "MFK" else "squar_exp" if k == "MFKPLSK" or c["corr"].startswith("matern") else c["corr"]
    o = dict(corr=corr, poly=c["poly"], rho_regr=c["rho"], hyper_opt=c["opt"], **gen.QUIET)
    nt = d if k == "MFK" else min(c["h"], d)
    if k != "MFK":
        o["n_comp"] = nt
    if c["theta"] == "one":
        o["theta0"] = [rng.choice([0.2, 1.0])]
    elif c["theta"] == "perlevel" and L != nt:
        o["theta0"] = list(rng.choice([0.2, 1.0, 3.0], L))
    else:
        o["theta0"] = rng.choice([0.2, 1.0, 3.0], (L, nt))
    return o, corr


def train(sm, X, Y, rng):
    names = list(range(len(X) - 1))
    rng.shuffle(names)
    for l in names:
        sm.set_training_values(X[l], Y[l], name=l)
    sm.set_training_values(X[-1], Y[-1])
    try:
        sm.train()
    except Exception as e:
        if any(t in str(e) for t in ("attempts to train", "ill condi", "undetermined")):
            raise Discard("training gave up")
        raise
    return sm
