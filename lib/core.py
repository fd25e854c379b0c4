"""Sub-check registry, sharded Hypothesis runner, replay files, evidence."""
import hashlib, json, math, multiprocessing as mp, os, pickle, shutil, signal, sys, tempfile, time, traceback
import numpy as np
from boot import VERIF, REPO

SUBS = []  # filled by @sub


class Violation(Exception):
    """The property is broken for this case. key: stable signature, matched against known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Discard(Exception):
    """The case is outside the property's domain (counted, never judged)."""


class _Stop(KeyboardInterrupt):
    pass


class Sub:
    def __init__(self, name, fn, strategy, quick, thorough, shards, rule):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


def sub(strategy, quick, thorough=None, shards=None, rule=""):
    """Register fn(case) -> bool | (bool, [labels]). quick/thorough: total number of generated cases."""

    def deco(fn):
        SUBS.append(Sub(fn.__name__, fn, strategy, quick, thorough or quick * 20, shards, rule))
        return fn

    return deco


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg(), key)


def _short(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:6], precision=8)


def close(got, want, rtol, atol, what, key=None):
    """|got-want| <= atol + rtol*|want| elementwise, shapes equal, everything finite."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape), key)
    err = np.abs(got - want)
    lim = atol + rtol * np.abs(want)
    bad = ~(err <= lim)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err - lim)), err.shape) if err.ndim else ()
        raise Violation("%s: got %.12g expected %.12g (err %.3g, tol %.3g) at %s" % (
            what, got[i], want[i], err[i], np.broadcast_to(lim, err.shape)[i], i), key)


def rng_of(case, salt=0):
    return np.random.RandomState((int(case["seed"]) * 1000003 + salt) % (2 ** 32))


def jdump(o):
    def default(v):
        if isinstance(v, (np.integer,)):
            return int(v)
        if isinstance(v, (np.floating,)):
            return float(v)
        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, (set, tuple)):
            return list(v)
        return repr(v)

    return json.dumps(o, sort_keys=True, default=default)


def case_digest(case):
    return hashlib.sha256(jdump(case).encode()).hexdigest()[:16]


def in_repo_tb(e):
    """Does the exception pass through code of the package under test (outside its tests)?"""
    tb = e.__traceback__
    root = os.path.realpath(os.path.join(REPO, "smt")) + os.sep
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
                return True
            f = tb.tb_frame.f_code.co_filename
            if f.startswith("smt/src/") or f.endswith(".pyx"):
                return True
            tb = tb.tb_next
        e = e.__context__
    return False


def judge(s, case):
    """Run one case. Returns ('ok'|'trivial'|'discard'|'violation'|'error', info dict)."""
    h = int(case_digest(case), 16)
    np.random.seed(h % (2 ** 32))
    import random
    random.seed(h)
    try:
        r = s.fn(case)
        labels = []
        if isinstance(r, tuple):
            r, labels = r
        return ("trivial" if r is False else "ok"), {"labels": labels}
    except Discard as e:
        return "discard", {"labels": ["discard:" + str(e)] if str(e) else []}
    except Violation as e:
        return "violation", {"msg": str(e), "key": e.key}
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if type(e).__module__.startswith("hypothesis"):
            raise
        if in_repo_tb(e):
            return "violation", {"msg": "unexpected %s: %s" % (type(e).__name__, str(e)[:300]), "key": "exception", "tb": tb[-3000:]}
        return "error", {"msg": tb[-4000:]}


def judge_forked(s, case, limit=240):
    """judge() in a child process, so that a crash or hang is a verdict too."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def body():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        b.send(judge(s, case))
        os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    b.close()
    try:
        if not a.poll(limit):
            p.kill()
            return "violation", dict(msg="no answer within %d s" % limit, key="hang")
        return a.recv()
    except EOFError:
        p.join()
        return "violation", dict(msg="process died with exit code %s" % p.exitcode, key="crash")
    finally:
        p.join(5)


def _run_shard(s, seed, n, soft_s, conn_path, cur_path, known_keys):
    """Body of a worker process."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    st = dict(evals=0, ok=0, trivial=0, discard=0, skipped=0, labels={}, digests=set(), samples=[], known={},
              viol=None, error=None)
    t0 = time.time()
    state = dict(first_fail=None, best=None, nfail=0)
    SHRINK_S = 25.0
    cur = open(cur_path, "w")

    class Fail(Exception):
        pass

    def body(case):
        now = time.time()
        if now - t0 > soft_s and state["best"] is None:
            st["skipped"] += 1
            return
        if state["best"] is not None and now - state["first_fail"] > SHRINK_S:
            raise _Stop()
        cj = jdump(case)
        cur.seek(0)
        cur.truncate()
        cur.write(cj)
        cur.flush()
        verdict, info = judge(s, case)
        st["evals"] += 1
        if verdict in ("ok", "trivial", "discard"):
            st[verdict] += 1
            for l in info["labels"]:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if verdict == "ok":
                st["digests"].add(case_digest(case))
                if len(st["samples"]) < 3:
                    st["samples"].append(case)
            return
        if verdict == "error":
            st["error"] = dict(case=case, **info)
            raise _Stop()
        if info.get("key") in known_keys:
            st["known"].setdefault(info["key"], dict(case=case, **info))
            return
        if state["best"] is None:
            state["first_fail"] = time.time()
        state["nfail"] += 1
        size = (len(cj), cj)
        if state["best"] is None or size <= state["best"][0]:
            state["best"] = (size, dict(case=case, **info))
        raise Fail()

    test = given(s.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (Fail, _Stop):
        pass
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if state["best"] is None:
            st["error"] = dict(case=None, msg="".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    if state["best"] is not None:
        st["viol"] = state["best"][1]
        st["error"] = None
    st["wall"] = time.time() - t0
    with open(conn_path, "wb") as f:
        pickle.dump(st, f)
    os._exit(0)


def run_all(subs, seed, tier, scale=1.0, jobs=None, hang_s=240, known_keys=()):
    """Run every sub-check, sharded; returns {sub: merged stats}."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    soft = 240.0 if tier == "quick" else 2400.0
    tasks = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        sh = s.shards or min(8, max(1, total // 4))
        for k in range(sh):
            n = total // sh + (1 if k < total % sh else 0)
            if n:
                sd = int(hashlib.sha256(("%s/%s/%d" % (seed, s.name, k)).encode()).hexdigest()[:12], 16)
                tasks.append((s, k, sd, n))
    merged = {s.name: dict(evals=0, ok=0, trivial=0, discard=0, skipped=0, labels={}, digests=set(), samples=[],
                           known={}, viol=[], error=[], wall=0.0, planned=0) for s in subs}
    for s, k, sd, n in tasks:
        merged[s.name]["planned"] += n
    ctx = mp.get_context("fork")
    running, queue = {}, list(enumerate(tasks))
    stop_early = False
    try:
        while queue or running:
            while queue and len(running) < jobs and not stop_early:
                i, (s, k, sd, n) = queue.pop(0)
                op, cp = os.path.join(tmp, "o%d" % i), os.path.join(tmp, "c%d" % i)
                p = ctx.Process(target=_run_shard, args=(s, sd, n, soft, op, cp, set(known_keys)))
                p.start()
                running[i] = (p, s, op, cp, time.time())
            if stop_early and not running:
                break
            time.sleep(0.02)
            for i in list(running):
                p, s, op, cp, t = running[i]
                m = merged[s.name]
                if p.is_alive():
                    age = time.time() - (os.path.getmtime(cp) if os.path.exists(cp) else t)
                    if age > hang_s:
                        p.kill()
                        p.join()
                        m["viol"].append(dict(case=_load_case(cp), msg="no answer within %d s" % hang_s, key="hang"))
                        stop_early = True
                        del running[i]
                    continue
                p.join()
                del running[i]
                if p.exitcode == 0 and os.path.exists(op):
                    with open(op, "rb") as f:
                        st = pickle.load(f)
                    for q in ("evals", "ok", "trivial", "discard", "skipped", "wall"):
                        m[q] += st[q]
                    for l, c in st["labels"].items():
                        m["labels"][l] = m["labels"].get(l, 0) + c
                    m["digests"] |= st["digests"]
                    m["samples"] = (m["samples"] + st["samples"])[:4]
                    for kk, v in st["known"].items():
                        m["known"].setdefault(kk, v)
                    if st["viol"]:
                        m["viol"].append(st["viol"])
                        stop_early = True
                    if st["error"]:
                        m["error"].append(st["error"])
                elif p.exitcode is not None and p.exitcode < 0 and -p.exitcode in (signal.SIGKILL, signal.SIGTERM):
                    m["error"].append(dict(case=_load_case(cp), msg="worker killed by signal %d" % -p.exitcode))
                else:
                    m["viol"].append(dict(case=_load_case(cp), msg="process died with exit code %s" % p.exitcode, key="crash"))
                    stop_early = True
    finally:
        for i in running:
            running[i][0].kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return merged


def _load_case(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None
