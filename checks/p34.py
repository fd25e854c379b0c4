"""P34: random histories of trainings, data replacements and predictions with the four compiled models, their kernels rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer; each history runs in a child process whose sanitizer report is the verdict, fresh memory is filled with NaN so that entries left unwritten are visible"""
import os, pickle, signal, tempfile, time
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, Violation, Discard, rng_of, judge
from smt.surrogate_models import IDW, RBF, RMTB, RMTC

CL = dict(IDW=IDW, RBF=RBF, RMTB=RMTB, RMTC=RMTC)
RULE = "at least one training and two prediction calls returned"
LIMIT = 120


def guarded(fn, case):
    """Run fn(case) in a child; anything the sanitizers or the kernel end is a violation carrying the report."""
    tmp = tempfile.TemporaryFile()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(tmp.fileno(), 2)
            try:
                res = ("ret", fn(case))
            except Violation as e:
                res = ("viol", str(e), e.key)
            except Discard as e:
                res = ("disc", str(e))
            except BaseException as e:
                import traceback
                from core import in_repo_tb
                res = ("exc", in_repo_tb(e), "%s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    t0 = time.time()
    import select
    blob = b""
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, LIMIT - (time.time() - t0)))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise Violation("no answer within %d s" % LIMIT, "hang")
        chunk = os.read(r, 65536)
        if not chunk:
            break
        blob += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not blob:
        tmp.seek(0)
        rep = tmp.read().decode(errors="replace")
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
            raise RuntimeError("child killed (memory?)")
        lines = [l for l in rep.splitlines() if "runtime error" in l or "ERROR: " in l or "SUMMARY" in l or ("/smt/src" in l or "smt/src" in l)]
        raise Violation("sanitizer report (status %s): %s" % (status, " | ".join(l.strip() for l in lines[:6])[:700]), "sanitizer")
    res = pickle.loads(blob)
    tmp.close()
    if res[0] == "ret":
        return res[1]
    if res[0] == "viol":
        raise Violation(res[1], res[2])
    if res[0] == "disc":
        raise Discard(res[1])
    if res[1]:
        raise Violation("unexpected " + res[2] + "\n" + res[3][-1500:], "exception")
    raise RuntimeError(res[3])


STEP = st.tuples(st.sampled_from(["train", "train", "train", "swap", "untrained", "val", "val", "val", "der", "der", "out", "bad", "new"]),
                 st.integers(0, 10 ** 6))


def options(kind, r, nx):
    o = dict(print_global=False)
    if kind == "IDW":
        o["p"] = [2.5, 1, 2, 0.5, 7.5, 40.0][r.randint(6)]
    elif kind == "RBF":
        d0 = float(10 ** r.uniform(-1, 0.5))
        o["d0"] = [d0, d0, [d0] * nx, np.full(nx, d0)][r.randint(4)]
        o["poly_degree"] = [-1, 0, 1][r.randint(3)]
        o["reg"] = 1e-8
    else:
        lo, w = r.uniform(-3, 1, nx), 10 ** r.uniform(-1, 1, nx)
        o["xlimits"] = np.column_stack([lo, lo + w])
        o["nonlinear_maxiter"] = 2
        o["approx_order"] = [2, 4][r.randint(2)]
        o["smoothness"] = [1.0, [0.5] * nx][r.randint(2)]
        o["extrapolate"] = bool(r.randint(2))
        o["min_energy"] = bool(r.randint(4))
        o["regularization_weight"] = 1e-8
        mx = {1: 9, 2: 6, 3: 4}[nx]
        if kind == "RMTB":
            order = [int(r.randint(1, 6)) for _ in range(nx)]
            if r.randint(2):
                order = [order[0]] * nx
            ncp = [int(k + r.randint(0, max(1, mx - 2))) for k in order]
            o["order"] = order if r.randint(3) else max(order)
            o["num_ctrl_pts"] = ncp if r.randint(3) else max(ncp + [max(order)])
            if not isinstance(o["num_ctrl_pts"], int) and isinstance(o["order"], int):
                o["num_ctrl_pts"] = [max(n, o["order"]) for n in ncp]
            if nx == 3:
                o["order"], o["num_ctrl_pts"] = [min(3, k) for k in order], [min(5, max(min(3, k), n)) for k, n in zip(order, ncp)]
            if r.randint(2):
                o["order"] = np.array(o["order"]) if isinstance(o["order"], list) else o["order"]
        else:
            ne = [int(r.randint(1, {1: 8, 2: 4, 3: 3}[nx])) for _ in range(nx)]
            o["num_elements"] = ne if r.randint(3) else max(ne)
            if isinstance(o["num_elements"], int) and nx == 3:
                o["num_elements"] = 2
    return o


def limits(kind, o, nx):
    return o["xlimits"] if kind in ("RMTB", "RMTC") else np.column_stack([np.zeros(nx), np.ones(nx)])


def points(kind, r, o, lim, n, data):
    """Training points (inside) or query points (inside, element boundaries, corners, outside, far outside)."""
    nx = lim.shape[0]
    u = r.uniform(0, 1, (n, nx))
    if kind in ("RMTB", "RMTC"):
        ne = o["num_elements"] if kind == "RMTC" else np.array(o["num_ctrl_pts"]) - np.array(o["order"]) + 1
        ne = np.broadcast_to(ne, (nx,))
        m = r.uniform(0, 1, (n, nx)) < 0.4
        u = np.where(m, np.round(u * ne) / ne, u)
        m = r.uniform(0, 1, (n, nx)) < 0.1
        u = np.where(m, np.round(u), u)
    x = lim[:, 0] + u * (lim[:, 1] - lim[:, 0])
    if data:
        return np.clip(x, lim[:, 0], lim[:, 1])
    k = r.randint(5)
    if k >= 2:
        m = r.uniform(0, 1, (n, nx)) < 0.4
        far = np.array([1e-16, 1e-9, 0.3, 3.0, 1e3, 1e7, 3e9, 1e12, 1e200])[r.randint(9 if k == 4 else 4, size=(n, nx))]
        sgn = r.choice([-1, 1], size=(n, nx))
        x = np.where(m, np.where(sgn > 0, lim[:, 1], lim[:, 0]) + sgn * far * (lim[:, 1] - lim[:, 0]), x)
    return x


def history(case):
    kind = case["kind"]
    trained = None
    sm = None
    calls = dict(train=0, pred=0)
    labels = [kind]
    nx = o = lim = X = None
    stale = False
    for op, a in [("new", case["seed"]), ("train", 0)] + list(case["steps"]) + [("val", 1)]:
        r = np.random.RandomState((a * 7919 + case["seed"]) % 2 ** 32)
        if op == "new":
            nx = int(r.randint(1, 4))
            o = options(kind, r, nx)
            lim = limits(kind, o, nx)
            sm = CL[kind](**o)
            X, trained, stale = None, None, False
            op = "swap"
        if op in ("train", "swap", "untrained"):
            if op == "swap" and trained and trained[1]:
                # other number of inputs too, with the same object (the data are replaced as a whole)
                nx = int(r.randint(1, 4))
                o = options(kind, r, nx)
                lim = limits(kind, o, nx)
                for k, v in o.items():
                    sm.options[k] = v
                sm.training_points.clear()
            if op != "train" or X is None or r.randint(2):
                n = int(r.choice([1, 2, 3, 5, 8, 17, 40]))
                ny = int(r.randint(1, 4))
                X = points(kind, r, o, lim, n, True)
                Y = r.uniform(-1, 1, (n, ny))
                if kind == "RBF" and o["poly_degree"] == 1:
                    # the polynomial needs enough points
                    X = points(kind, r, o, lim, max(n, nx + 2), True)
                    Y = r.uniform(-1, 1, (X.shape[0], ny))
                X = np.asfortranarray(X) if r.randint(2) else X
                sm.training_points.clear()
                sm.set_training_values(X, Y)
                if kind in ("RMTB", "RMTC") and r.randint(2):
                    for k in range(nx):
                        if r.randint(2):
                            m = int(r.randint(1, 9))
                            sm.set_training_derivatives(points(kind, r, o, lim, m, True), r.uniform(-1, 1, (m, ny)), k)
                stale = True
            if op == "untrained":
                labels.append("data replaced after training")
                continue
            try:
                sm.train()
            except (np.linalg.LinAlgError, RuntimeError) as e:
                # singular system: the linear solver may refuse, the memory must stay intact
                labels.append("training refused")
                trained = None
                sm = CL[kind](**o)
                sm.set_training_values(X, Y)
                continue
            calls["train"] += 1
            trained = (nx, op != "untrained")
            stale = False
            continue
        if trained is None:
            continue
        q = int(r.choice([1, 2, 3, 7, 30]))
        Q = points(kind, r, o, lim, q, False)
        if op == "bad":
            m = r.uniform(0, 1, Q.shape) < 0.3
            Q = np.where(m, np.array([np.nan, np.inf, -np.inf])[r.randint(3, size=Q.shape)], Q)
            if r.randint(4) == 0:
                Q = np.hstack([Q, Q])
        Q = [Q, np.asfortranarray(Q), np.repeat(Q, 2, 0)[::2], np.hstack([Q, Q])[:, :Q.shape[1]]][r.randint(4)]
        try:
            if op == "val" or (op == "bad" and a % 2):
                y = sm.predict_values(Q)
            elif op in ("der", "bad"):
                k = int(r.randint(-1, nx + 1)) if op == "bad" else int(r.randint(nx))
                y = sm.predict_derivatives(Q, k)
            else:
                y = sm.predict_output_derivatives(Q)[None]
        except Exception as e:
            # refusing is fine once the data have been replaced, for absurd queries and for singular derivative systems
            if not (stale or op == "bad" or op == "out"):
                raise
            labels.append("refused: " + op)
            continue
        calls["pred"] += 1
        if stale:
            labels.append("predicted with replaced data")
            continue
        ext = np.max(np.abs(Q - lim[:, 0]) / (lim[:, 1] - lim[:, 0]), axis=1) < 1e5 if op != "bad" else np.zeros(len(Q), bool)
        if op != "bad":
            y = np.asarray(y)
            y = y.reshape(len(Q), -1)
            need(np.all(np.isfinite(y[ext])), lambda: "%s returned %r for points near the domain: memory that was never written" % (op, y[ext].ravel()[:6].tolist()), "unwritten")
    return calls["train"] >= 1 and calls["pred"] >= 2, labels


def mk(name, kind, quick, thorough):
    def fn(case):
        return guarded(history, case)
    fn.__name__ = name
    return sub(gen.cases(kind=st.just(kind), steps=st.lists(STEP, min_size=1, max_size=12)), quick=quick, thorough=thorough, rule=RULE)(fn)


idw = mk("idw", "IDW", 240, 20000)
rbf = mk("rbf", "RBF", 240, 20000)
rmtb = mk("rmtb", "RMTB", 240, 12000)
rmtc = mk("rmtc", "RMTC", 240, 12000)
