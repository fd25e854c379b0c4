"""P23: every sampling method x criteria x bounds x sizes: point count, shape, bounds, reproducibility, independence of the global generator, rescaling metamorphic relation"""
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, Violation, Discard, rng_of, close
from samplers import CRIT, limits, make, draw, inside
from smt.sampling_methods import LHS

RULE = "at least three points and two variables, bounds not the unit box"
ST = dict(m=st.sampled_from(["Random", "FullFactorial", "Nested"] + CRIT), d=st.sampled_from([2, 3, 4, 6, 1]), nt=st.one_of(st.integers(3, 40), st.integers(3, 12), st.integers(1, 4)), rs=st.integers(0, 2), w=st.integers(0, 2),
          box=st.sampled_from(gen.FAR_KINDS), intlim=st.booleans())


@sub(gen.cases(**ST), quick=1000, rule=RULE)
def count_and_bounds(case):
    d, nt = case["d"], case["nt"]
    if case["m"] in ("ese", "Nested"):
        nt = min(nt, 16)
        d = min(d, 4)
    xl = limits(case, d)
    if case["intlim"]:
        xl = np.stack([np.floor(xl[:, 0]), np.floor(xl[:, 0]) + 1 + np.arange(d)], 1).astype(int)
    keep = xl.copy()
    s = make(case, xl)
    x = draw(s, case, nt, d)
    inside(x, keep.astype(float), nt)
    need(np.array_equal(xl, keep), "the caller's bounds were changed")
    # a second size from the same object, and the first result left alone
    x0 = np.array(x)
    n2 = nt + 1
    y = draw(s, case, n2, d)
    inside(y, keep.astype(float), n2)
    need(np.array_equal(x, x0), "a later call changed an earlier design")
    return nt >= 3 and d >= 2 and case["box"] != "unit", ["m:" + case["m"], "d:%d" % d]


@sub(gen.cases(**dict(ST, m=st.sampled_from(["Random", "FullFactorial"] + CRIT))), quick=700, rule=RULE)
def reproducible_and_rescaled(case):
    d, nt = case["d"], case["nt"]
    if case["m"] == "ese":
        nt, d = min(nt, 12), min(d, 3)
    own = case["m"] in CRIT
    if own and case["rs"] == 0:
        case = dict(case, rs=1)
    xl = limits(case, d)
    np.random.seed(5)
    g0 = np.random.get_state()[1].copy()
    x = draw(make(case, xl), case, nt, d)
    if own or case["m"] == "FullFactorial":
        need(np.array_equal(np.random.get_state()[1], g0), "a design with its own random state drew from the global generator")
        np.random.seed(99)
        np.random.rand(3)
    else:
        np.random.seed(5)
    y = draw(make(case, xl), case, nt, d)
    need(np.array_equal(x, y), "same random state, other design")
    # other bounds: the same design, rescaled
    xl2 = gen.box(rng_of(case, 8), "shift", d)
    np.random.seed(5)
    z = draw(make(case, xl2), case, nt, d)
    inside(z, xl2, nt)
    u, v = (x - xl[:, 0]) / np.ptp(xl, axis=1), (z - xl2[:, 0]) / np.ptp(xl2, axis=1)
    tol = 1e-9 * (1 + (np.abs(xl).max(1) / np.ptp(xl, axis=1)).max() + (np.abs(xl2).max(1) / np.ptp(xl2, axis=1)).max())
    close(v, u, 0, tol, "design in unit coordinates under other bounds")
    # another state gives another design (a random method must be random)
    if own and nt >= 4 and d >= 2:
        # (centred designs of a few points may coincide by chance: three in a row do not)
        ys = []
        for k in (1, 2, 3):
            c2 = dict(case, seed=case["seed"] + k)
            ys.append(draw(LHS(xlimits=xl, criterion=case["m"], random_state=c2["seed"] % 10000), c2, nt, d))
        need(not all(np.array_equal(x, y) for y in ys), "another random state, the same design")
    return nt >= 3 and d >= 2 and case["box"] != "unit", ["m:" + case["m"]]
