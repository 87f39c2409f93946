"""Kill points: run an operation in a forked child that dies (os._exit) at the k-th traced line of the code under test."""
import os
import signal
import sys
import time

KILLED = 77


def forked(op, files, kill_at=None, timeout=60):
    """
    Run op() in a forked child.  kill_at=None: returns the number of kill points of a complete run.
    kill_at=k: the child dies at the k-th point; returns True when it did die there.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            n = 0

            def local(frame, event, arg):
                nonlocal n
                if event == "line" or event == "return":
                    if kill_at is not None and n == kill_at:
                        os._exit(KILLED)
                    n += 1
                return local

            def tracer(frame, event, arg):
                if frame.f_code.co_filename.startswith(files):
                    return local
                return None
            sys.settrace(tracer)
            try:
                op()
            finally:
                sys.settrace(None)
            os.write(w, str(n).encode())
            code = 0
        except BaseException:
            import traceback
            os.write(w, ("!" + traceback.format_exc()[-3000:]).encode())
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == KILLED:
        return True
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return int(out) if kill_at is None else False
    from mc.engine import Violation
    raise Violation("operation failed in the child (status %s): %s" % (st, out.decode(errors="replace")), "operation raised")
