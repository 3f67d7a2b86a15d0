"""A freshly exec'd interpreter with a chosen PYTHONHASHSEED.

It imports neutrinomass once and then serves requests, one forked child per
simulated process life, so that every life starts from the pristine state of a
process that has just imported the package.  Protocol: JSON lines on stdin
({"id", "module", "fn", "args", "out", "wall", "import": bool}); JSON lines on
the original stdout ({"id", "status"}).  Children write their result to "out".
"""

import faulthandler
import gc
import contextlib
import importlib
import json
import os
import resource
import select
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def from_package(e):
    """Whether the error came up inside neutrinomass (else it is the harness's)."""
    from sim import boot

    root = os.path.join(os.path.abspath(boot.REPO), "neutrinomass") + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(e.__traceback__))


def child(req):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    os.setsid()
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    out = req["out"]
    try:
        if HERE not in sys.path:
            sys.path.insert(0, HERE)
        mod = importlib.import_module(req["module"])
        res = {"status": "ok", "value": getattr(mod, req["fn"])(*req["args"])}
        data = json.dumps(res)
    except BaseException as e:  # noqa: B902
        data = json.dumps({"status": "error", "trace": traceback.format_exc(), "package": from_package(e)})
    fd = os.open(out + ".tmp", os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    view = data.encode()
    while view:
        view = view[os.write(fd, view):]
    os.close(fd)
    os.rename(out + ".tmp", out)
    os._exit(0)


BASE = ["sympy", "sympy.tensor.tensor", "networkx", "pandas", "numpy", "matplotlib.pyplot", "basisgen", "matchpy",
        "alive_progress", "networkx.algorithms.isomorphism"]


def main():
    chan = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if "--bare" not in sys.argv:
        from sim import boot

        try:
            boot.load()
        except BaseException:
            chan.write(json.dumps({"ready": False, "trace": traceback.format_exc()}) + "\n")
            return
    else:
        # what the package stands on, but not the package
        for name in BASE:
            with contextlib.suppress(ImportError):
                importlib.import_module(name)
    gc.collect()
    gc.freeze()
    r, w = os.pipe()
    os.set_blocking(w, False)
    signal.signal(signal.SIGCHLD, lambda *a: None)
    signal.set_wakeup_fd(w)
    chan.write(json.dumps({"ready": True}) + "\n")
    running = {}
    buf = b""
    eof = False
    while not eof or running:
        fds = [r] + ([] if eof else [0])
        ready, _, _ = select.select(fds, [], [], 0.5)
        if 0 in ready:
            data = os.read(0, 1 << 20)
            if not data:
                eof = True
                for pid in running:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
            buf += data
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                req = json.loads(line)
                if "kill" in req:
                    for pid, rid in running.items():
                        if rid == req["kill"]:
                            try:
                                os.killpg(pid, signal.SIGKILL)
                            except OSError:
                                pass
                    continue
                pid = os.fork()
                if pid == 0:
                    signal.set_wakeup_fd(-1)
                    os.close(r)
                    os.close(w)
                    try:
                        child(req)
                    finally:
                        os._exit(97)
                running[pid] = req["id"]
        if r in ready:
            os.read(r, 4096)
        while running:
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break
            rid = running.pop(pid, None)
            if rid is not None:
                chan.write(json.dumps({"id": rid, "status": status}) + "\n")


if __name__ == "__main__":
    main()
