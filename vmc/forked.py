"""Run a function in a forked child and return its result (a fresh history)."""
import os, pickle, signal, sys


def forked(f, timeout=120):
    """(value, None) or (None, fault)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            out = pickle.dumps(("ok", f()))
        except BaseException as e:
            out = pickle.dumps(("error", "%s: %s" % (type(e).__name__, e)))
            code = 1
        try:
            with os.fdopen(w, "wb") as h:
                h.write(out)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        return None, "the process died or took more than %d s" % timeout
    kind, v = pickle.loads(data)
    return (v, None) if kind == "ok" else (None, v)
