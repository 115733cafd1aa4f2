"""Crash and write-error injection at every file operation, by a preloaded library (fault.c) in forked processes.

prepare() compiles the library and starts the interpreter again with it preloaded.  run(f, prefix, k, mode) forks, and the
child calls f with the k-th effect on a file below prefix stopped (KILL, TEAR) or failing (FAIL); NONE only counts effects.
"""
import ctypes
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

NONE, KILL, TEAR, FAIL = range(4)
MODES = {"killed before": KILL, "killed halfway through": TEAR, "failing": FAIL}
_lib = None


def prepare():
    global _lib
    if _lib is not None:
        return
    built = os.environ.pop("VERIF_FAULT", None)
    if built is None:
        d = tempfile.mkdtemp(prefix="fault-")
        so = os.path.join(d, "fault.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fault.c"), "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=so, VERIF_FAULT=so)
        os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], env)
    os.environ.pop("LD_PRELOAD", None)
    _lib = ctypes.CDLL(built)
    shutil.rmtree(os.path.dirname(built), ignore_errors=True)
    _lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    _lib.fault_count.restype = ctypes.c_long


def run(f, prefix, k=0, mode=NONE):
    """(end, message, effects, value): end is 'ok', 'error' or 'killed'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _lib.fault_arm(os.path.join(os.path.realpath(prefix), "").encode(), k, mode)
            try:
                out = ("ok", "", f())
            except BaseException as e:
                out = ("error", f"{type(e).__name__}: {e}", None)
            n = _lib.fault_count()
            _lib.fault_disarm()
            with os.fdopen(w, "wb") as p:
                pickle.dump(out[:2] + (n,) + out[2:], p)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("killed", "", None, None)
