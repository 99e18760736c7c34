"""Kill points and failing writes: runs an exploration under the shim/crash.c library.

parent: result = run("mc.checks.c36", "explore", case, root)   (a new process)
in it:  crash.points(folder, fn)      how many changes fn makes to files below the folder
        crash.at(folder, k, how, fn)  forks, runs fn with a fault at change k; exit status
"""
import ctypes
import json
import os
import signal
import subprocess
import sys
from pathlib import Path

HOW = {"killed": 0, "torn": 1, "full": 2, "error": 3}
SHIM = Path(__file__).resolve().parent.parent / "shim" / "crash.c"


def run(module, function, case, root, timeout=800, shim="crash.c"):
    root = Path(root)
    root.mkdir(parents=True, exist_ok=True)
    lib = root / "shim.so"
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", str(lib), str(SHIM.parent / shim),
                    "-ldl"],
                   check=True, capture_output=True)
    env = dict(os.environ, LD_PRELOAD=str(lib), TMPDIR=str(root))
    from mc import run as runner

    env["WAM_SRC"] = runner.SRC
    arg = json.dumps(dict(module=module, function=function, case=case, root=str(root)))
    p = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "mc.crash", arg],
                         cwd=SHIM.parent.parent, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except BaseException:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    for line in out.decode(errors="replace").splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise RuntimeError(f"no result, exit {p.returncode}: {err.decode(errors='replace')[-1500:]}")


class Report:
    """Collects what the exploring process found."""

    def __init__(self):
        self.counts, self.states, self.fails, self.samples = {}, [], [], []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        self.states.append(repr(key))

    def fail(self, msg):
        self.fails.append(str(msg)[:1500])


def main():
    job = json.loads(sys.argv[1])
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ["WAM_SRC"])
    os.environ.pop("LD_PRELOAD", None)
    import importlib

    from mc import run as runner

    runner.quiet()
    runner.SCRATCH = job["root"]
    mod = importlib.import_module(job["module"])
    mod.preload()
    rep = Report()
    getattr(mod, job["function"])(job["case"], Path(job["root"]), rep)
    print("RESULT " + json.dumps(rep.__dict__), flush=True)
    os._exit(0)


def points(folder, fn):
    lib = ctypes.CDLL(None)
    lib.crash_arm(str(folder).encode(), ctypes.c_long(0), 0)
    try:
        fn()
        return lib.crash_count()
    finally:
        lib.crash_disarm()


def at(folder, k, how, fn):
    """The exit status: 0 finished, 7 failed with an exception, 137 killed, < 0 signal."""
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            signal.alarm(120)
            ctypes.CDLL(None).crash_arm(str(folder).encode(), ctypes.c_long(k), HOW[how])
            fn()
        except BaseException:
            os._exit(7)
        os._exit(0)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


if __name__ == "__main__":
    main()
