"""Run a function in a forked child: whatever it leaves behind in modules and classes is gone afterwards."""
import ctypes
import os
import pickle
import signal
import traceback
from core import Violation, in_repo_tb

_libc = ctypes.CDLL(None)


def apart(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            _libc.prctl(1, signal.SIGKILL)          # ends with its parent
            os.close(r)
            try:
                msg = ("value", f())
            except Violation as e:
                msg = ("violation", (str(e), e.key))
            except BaseException as e:
                if in_repo_tb(e) and type(e).__name__ != "Discard":
                    msg = ("violation", ("unexpected %s: %s" % (type(e).__name__, str(e)[:300]), "exception"))
                else:
                    msg = ("other", e)
            try:
                blob = pickle.dumps(msg)
                pickle.loads(blob)
            except Exception:
                blob = pickle.dumps(("other", RuntimeError(traceback.format_exc()[-2000:])))
            with os.fdopen(w, "wb") as h:
                h.write(blob)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            blob = h.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if not blob:
        raise Violation("the process died with status %d" % status, key="crash")
    kind, v = pickle.loads(blob)
    if kind == "value":
        return v
    if kind == "violation":
        raise Violation(*v)
    raise v
