"""Generators and helpers for sampling methods (P23, P24)."""
import numpy as np
import gen
from core import need, Discard, rng_of
from smt.sampling_methods import Random, LHS, FullFactorial
from smt.applications.mfk import NestedLHS

CRIT = ["center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"]


def limits(case, d, salt=0):
    return gen.box(rng_of(case, salt), case["box"], d)


def refused(m, nt, d):
    """pyDOE2 needs two points (maximin) or a correlation matrix (correlation) to compare designs"""
    return (m in ("maximin", "m", "centermaximin", "cm") and nt < 2) or (m in ("correlation", "corr") and (nt < 3 or d < 2))


def make(case, xl):
    m = case["m"]
    if m == "Random":
        return Random(xlimits=xl)
    if m == "FullFactorial":
        o = {}
        if case["w"]:
            r = rng_of(case, 3)
            o["weights"] = r.choice([0.5, 1.0, 2.0, 3.0], len(xl)) if case["w"] == 1 else list(map(int, r.randint(1, 4, len(xl))))
        return FullFactorial(xlimits=xl, **o)
    if m == "Nested":
        return NestedLHS(nlevel=1, xlimits=xl)
    rs = {0: None, 1: case["seed"] % 10000, 2: np.random.RandomState(case["seed"] % 10000)}[case["rs"]]
    return LHS(xlimits=xl, criterion=m, random_state=rs)


def draw(s, case, nt, d):
    try:
        x = s(nt)
    except (ValueError, UnboundLocalError):
        if refused(case["m"], nt, d):
            raise Discard("criterion undefined for so few points")
        raise
    return x[0] if case["m"] == "Nested" else x


def inside(x, xl, nt):
    x = np.asarray(x)
    need(x.shape == (nt, len(xl)), "asked for %d points in %d variables, got shape %s" % (nt, len(xl), x.shape))
    eps = 1e-12 * (np.abs(xl).max(1) + np.ptp(xl, axis=1))
    need(np.isfinite(x).all() and (x >= xl[:, 0] - eps).all() and (x <= xl[:, 1] + eps).all(), lambda: "point outside the bounds: %s in %s" % (x, xl))
