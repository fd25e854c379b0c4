"""Benchmark problems: names and construction from JSON-able cases (P26, P31)."""
from smt.problems import (Sphere, Rosenbrock, Branin, LpNorm, WingWeight, WeldedBeam, WaterFlow, WaterFlowLFidelity, RobotArm, TorsionVibration, TensorProduct, CantileverBeam,
                          NdimCantileverBeam, NdimRobotArm, NdimRosenbrock, NdimStepFunction)

NAMES = ["Sphere", "Rosenbrock", "Branin", "LpNorm", "WingWeight", "WeldedBeam", "WaterFlow", "WaterFlowLFidelity", "RobotArm", "TorsionVibration", "TensorProduct", "CantileverBeam",
         "NdimCantileverBeam", "NdimRobotArm", "NdimRosenbrock", "NdimStepFunction"]
FIX = dict(WingWeight=(WingWeight, 10), WeldedBeam=(WeldedBeam, 3), WaterFlow=(WaterFlow, 8), WaterFlowLFidelity=(WaterFlowLFidelity, 8), TorsionVibration=(TorsionVibration, 15))


def make(c):
    k, nd = c["name"], c["nd"]
    if k in FIX:
        cls, d = FIX[k]
        return cls(**(dict(use_FD=True) if c["fd"] == 0 else {})), d
    if k in ("Sphere", "Rosenbrock"):
        return dict(Sphere=Sphere, Rosenbrock=Rosenbrock)[k](ndim=nd), nd
    if k == "Branin":
        return Branin(), 2
    if k == "LpNorm":
        return LpNorm(ndim=nd, order=c["order"]), nd
    if k == "RobotArm":
        return RobotArm(ndim=2 * nd), 2 * nd
    if k == "CantileverBeam":
        kw = dict(P=3e4, E=1e10) if c["big"] else {}
        return CantileverBeam(ndim=3 * nd, **kw), 3 * nd
    if k == "TensorProduct":
        return TensorProduct(ndim=nd, func=c["func"], width=c["width"]), nd
    if k == "NdimStepFunction":
        return NdimStepFunction(ndim=nd, width=c["width"]), nd
    return dict(NdimCantileverBeam=NdimCantileverBeam, NdimRobotArm=NdimRobotArm, NdimRosenbrock=NdimRosenbrock)[k](ndim=nd, w=c["w"]), nd
