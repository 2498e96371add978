"""Runs iwyu_tool.py unchanged, with the operating-system interfaces it uses to
start children and to read the load wrapped so that they are recorded.
argv: FAKE_DIR script args..."""
import os
import runpy
import subprocess
import sys

fake_dir = sys.argv[1]
script = sys.argv[2]
sys.argv = sys.argv[2:]
_fd = os.open(os.path.join(fake_dir, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
_loads = []
try:
    with open(os.path.join(fake_dir, "loads")) as f:
        _loads = [int(x) for x in f.read().split()]
except OSError:
    pass
_state = {"calls": 0, "last": None}


def _log(*a):
    os.write(_fd, (" ".join(str(x) for x in a) + "\n").encode())


_real_getloadavg = os.getloadavg


def _getloadavg():
    if not _loads:
        return _real_getloadavg()
    k = min(_state["calls"] // 40, 10 ** 9) % len(_loads)
    _state["calls"] += 1
    _state["last"] = _loads[k]
    v = _loads[k] / 4.0
    return (v, v, v)


os.getloadavg = _getloadavg


class Popen(subprocess.Popen):
    def __init__(self, args, *a, **kw):
        ident = "none"
        if not isinstance(args, str):
            for x in args:
                if x.startswith("-DID="):
                    ident = x[5:]
        if _state["last"] is not None:
            _log("load", _state["last"])
            _state["last"] = None
        _log("spawn", ident)
        super().__init__(args, *a, **kw)


subprocess.Popen = Popen
sys.path.insert(0, os.path.dirname(os.path.abspath(script)))
runpy.run_path(script, run_name="__main__")
