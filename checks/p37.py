"""P37: the same random history of trainings and predictions under random printing options: identical results, reports exactly where the options ask for them (read back from captured standard output), silence elsewhere, also after refused calls; the printer against a reference for random nestings with failures"""
import contextlib
import io
import re
import time
import numpy as np
from hypothesis import strategies as st
import gen, models
from core import sub, need, close, Discard, rng_of
from smt.utils.printer import Printer

KINDS = ["LS", "QP", "IDW", "RBF", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "MGP", "RMTB", "RMTC", "RMTB", "RMTC", "RBF", "GENN"]
FLAGS = ("print_global", "print_training", "print_prediction", "print_problem", "print_solver")
# messages about the data or the search, not reports
WARN = ("Warning", "exception", "Optimization failed", "fmin_cobyla failed", "warning")
flags = st.fixed_dictionaries({f: st.booleans() for f in FLAGS})
OPS = ["values", "values", "derivatives", "variances", "outputs", "refused", "train", "flags"]
RULE = "two of the histories ask for different reports, and at least one report is expected"


def capture(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f()
    lines = [l for l in out.getvalue().split("\n") if not l.strip().startswith(WARN)]
    return r, "\n".join(lines)


def expected_reports(fl, op, n_train, n, name, printed):
    """[(kind, number)] in order"""
    g = fl["print_global"]
    out = []
    if op == "train":
        if g:
            out.append(("name", None))
        if g and fl["print_problem"]:
            out += [("problem", None), ("points", n_train)]
        if g and fl["print_training"]:
            out += [("training", None), ("trained", None)]
    elif printed and g and fl["print_prediction"]:
        out += [("evaluation", None), ("evals", n), ("predicted", None), ("per point", None)]
    return out


def read(text, name):
    out = []
    for l in text.split("\n"):
        t = l.strip()
        m = re.match(r"# (training|eval) points\. +: (\d+)$", t)
        if m:
            out.append(("points" if m.group(1) == "training" else "evals", int(m.group(2))))
        elif t == name:
            out.append(("name", None))
        elif l == " Problem size":
            out.append(("problem", None))
        elif l == " Training":
            out.append(("training", None))
        elif l == " Evaluation":
            out.append(("evaluation", None))
        elif re.match(r"   Training - done\. Time \(sec\): +[\d.]+$", l):
            out.append(("trained", None))
        elif re.match(r"   Predicting - done\. Time \(sec\): +[\d.]+$", l):
            out.append(("predicted", None))
        elif re.match(r"   Prediction time/pt\. \(sec\) : +[\d.]+$", l):
            out.append(("per point", None))
    return out


@sub(gen.cases(s=models.any_spec(KINDS), a=flags, b=flags, ops=st.lists(st.tuples(st.sampled_from(OPS), flags, st.integers(1, 5)), min_size=2, max_size=6), d=st.sampled_from([2, 1, 3]), depth=st.sampled_from([9, 5, 1, 2, 3, 9]), ny=st.sampled_from([1, 1, 2])), quick=350, rule=RULE)
def reports(case):
    s, d = dict(case["s"]), min(case["d"], models.max_dim(case["s"]["kind"]))
    if s["kind"] == "MGP":
        d = max(d, 2)
    if s["kind"] in models.KRIGING and "theta0" in s:
        s["pin"] = True
    if s["kind"] == "KPLSK":
        s["pin"] = True
    ny = 1 if models.single_output(s["kind"]) else case["ny"]
    n = max(models.min_points(s, d) + 2, 8)
    D = models.Data(case, n, d, ny, fam="smooth", box="unit", design="spread")
    models.usable(s, D)
    Q = gen.scale(rng_of(case, 3).uniform(0.05, 0.95, (6, d)), D.xl)
    results, reported, wanted = [], 0, []
    for fl0 in (case["a"], case["b"], dict(case["a"], print_global=False), {f: True for f in FLAGS}):
        fl = dict(fl0)
        extra = dict(fl)
        if s["kind"] in ("RMTB", "RMTC", "RBF"):
            extra["max_print_depth"] = case["depth"]
        sm, text = capture(lambda: models.feed(models.build(s, d, D.xl, **extra), s, D))
        need(not text.strip(), "%s: building it and giving it data printed %r" % (s["kind"], text[:60]))
        res, last = [], None
        for op, new, k in [("train", fl, 1)] + list(case["ops"]):
            name = sm.name
            if op == "flags":
                if fl0 is case["a"] or fl0 is case["b"]:
                    fl = dict(new)
                    for f in FLAGS:
                        sm.options[f] = fl[f]
                continue
            if op == "train":
                np.random.seed(3)
                _, text = capture(lambda: models.train(sm, s))
                if s["kind"] in models.KRIGING and models.coef_size(sm) > 1e6:
                    raise Discard("ill-conditioned")
                want = expected_reports(fl, op, n, 0, name, True)
                got = read(text, name)
                if got[:1] == [("name", None)] and name == "Training":
                    raise Discard("name")
                solver = s["kind"] in ("RBF", "RMTB", "RMTC")
                if solver:
                    lines = [l for l in text.split("\n") if re.search(r"\(\d+ x \d+ mtx\)", l)]
                    on = fl["print_global"] and fl["print_training"] and fl["print_solver"]
                    need(on or not lines, "%s: solver report although options are %s: %r" % (s["kind"], fl, lines[:1]))
                    need(not on or case["depth"] < 9 or lines, "%s: no solver report although options are %s" % (s["kind"], fl))
                    deep = [l for l in text.split("\n") if l.startswith("   " * (case["depth"] + 1)) and re.search(r"\.\.\.$|- done\. Time|Iteration \(", l)]
                    need(not deep, "%s: max_print_depth %d, but printed %r" % (s["kind"], case["depth"], deep[:1]))
            else:
                m = models.methods(sm, s, d)
                x = Q[:k]
                if op == "refused":
                    try:
                        capture(lambda: sm.predict_values(np.full((2, d + 3), 0.5)))
                    except ValueError:
                        pass
                    else:
                        need(False, "%s: accepted %d inputs" % (s["kind"], d + 3))
                    keep = sm._predict_values
                    sm._predict_values = boom           # a failure inside the prediction
                    try:
                        capture(lambda: sm.predict_values(x))
                    except (_Boom, ValueError):
                        pass
                    finally:
                        sm._predict_values = keep
                    continue
                q = {"values": "values", "derivatives": "dx0", "variances": "variances", "outputs": "dyt"}[op]
                if q not in m:
                    continue
                r, text = capture(lambda: np.array(m[q](x)))
                res.append((q, r))
                own = s["kind"] == "MGP" and op in ("values", "variances")
                printed = op in ("values", "derivatives") and not own
                want = expected_reports(fl, op, n, k, name, printed)
                got = read(text, name)
                if not (fl["print_global"] and fl["print_prediction"]):
                    need(not text.strip(), "%s.%s: printed %r with options %s" % (s["kind"], op, text.strip()[:80], fl))
                if not fl["print_solver"]:
                    need(not re.search(r"\(\d+ x \d+ mtx\)", text), "%s.%s: solver report with options %s" % (s["kind"], op, fl))
                if op in ("variances",) or own:
                    continue                     # whether these report is left open
            need(got == want or op == "outputs", "%s: %s reported %s, the options %s ask for %s" % (s["kind"], op, got, fl, want))
            reported += len(want)
            if not fl["print_global"]:
                need(not text.strip(), "%s: %s printed %r with print_global off" % (s["kind"], op, text.strip()[:80]))
        results.append(res)
        wanted.append(reported)
    for r in results[1:]:
        need([q for q, _ in r] == [q for q, _ in results[0]], "other results")
        for (q, u), (_, v) in zip(r, results[0]):
            sc = np.abs(np.asarray(v, float)).max()
            close(u, v, 1e-8, 1e-8 * (sc + 1e-9), "%s: %s under other printing options" % (s["kind"], q))
    return case["a"] != case["b"] and wanted[-1] > 0 and bool(results[0]), ["kind:" + s["kind"]]


class _Boom(Exception):
    pass


def boom(x):
    raise _Boom()


# ---------------------------------------------------------------- the printer
leaf = st.tuples(st.sampled_from(["print", "noindent", "fail", "center", "title", "wait"]), st.integers(0, 5))
tree = st.recursive(leaf, lambda t: st.tuples(st.just("ctx"), st.tuples(st.booleans(), st.sampled_from([None, "k1", "k2"]), st.lists(t, max_size=4))), max_leaves=12)


@sub(gen.cases(nodes=st.lists(tree, min_size=1, max_size=5), active=st.booleans(), depth=st.integers(0, 6)), quick=600, rule="at least two nested operations, one of which prints")
def printer(case):
    p = Printer()
    p.active, p.max_print_depth = case["active"], case["depth"]
    want, times = [], {}

    def say(text, depth, noindent=False):
        if case["active"] and depth <= case["depth"]:
            want.append(text if noindent else "   " * depth + text)

    def run(node, depth):
        what, arg = node
        if what == "print":
            p("line %d" % arg)
            say("line %d" % arg, depth)
        elif what == "noindent":
            p("raw %d" % arg, noindent=True)
            say("raw %d" % arg, depth, True)
        elif what == "center":
            p._center("name%d" % arg)
            say(" " * int((75 - 5) / 2.0) + "name%d" % arg, depth, True)
        elif what == "title":
            p._title("part %d" % arg)
            for t, raw in (("_" * 75, True), ("", False), (" part %d" % arg, True), ("", False)):
                say(t, depth, raw)
        elif what == "fail":
            raise _Boom()
        elif what == "wait":
            time.sleep(0.002)
        else:
            named, key, inner = arg
            if named:
                say("op ...", depth)
            t0 = time.perf_counter()
            with p._timed_context("op" if named else None, key):
                t1 = time.perf_counter()
                for t in inner:
                    run(t, depth + 1)
                t2 = time.perf_counter()
            if named:
                say("op - done. Time (sec):", depth)
            if key:
                times.setdefault(key, []).append((t2 - t1, time.perf_counter() - t0))

    out = io.StringIO()
    deepest = [0]
    with contextlib.redirect_stdout(out):
        for node in case["nodes"]:
            try:
                run(node, 1)
            except _Boom:
                pass
    got = [re.sub(r"(Time \(sec\):) +[\d.]+$", r"\1", l) for l in out.getvalue().split("\n")[:-1]]
    need([g.rstrip() for g in got] == [w.rstrip() for w in want], "printed\n%s\nexpected\n%s" % ("\n".join(got), "\n".join(want)))
    for k, v in times.items():
        t = p._time(k)
        need(len(t) == len(v) and all(x >= 0 for x in t), "operation %r was timed %s, run %d times" % (k, t, len(v)))
        for x, (lo, hi) in zip(t, v):                          # nested intervals; clocks may run at slightly different rates
            need(lo - 3e-4 <= x <= hi + 3e-4, "operation %r took %g to %g s, timed %g" % (k, lo, hi, x))
    nested = str(case["nodes"]).count("ctx") >= 2
    return nested and bool(want), ["active"] * case["active"]
