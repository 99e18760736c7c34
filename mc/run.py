"""Entry point: explores one property's bounded space against /repo and reports.

    ./run C01 [--tier quick|thorough] [--replay FILE] [--jobs N]

Every check module in mc/checks defines

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)          -> list of JSON-able dicts: the complete bounded space
    run_case(case, ctx)  -> explores one of them on the real code

The runner executes every case (never a sample of them), merges the counts that the
cases measured, writes evidence/<ID>.json, and prints VIOLATION / KNOWN-FINDING lines.
"""
import argparse
import atexit
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
# Scratch copies of the repository can be checked with WAM_SRC=/path/to/src; the
# registered commands leave it unset, and then only /repo is used.
SRC = os.environ.get("WAM_SRC", "/repo/src")


def _scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


SCRATCH = None


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx:
    """What a case uses to report: failures, counts, states, samples."""

    def __init__(self, case, replay=False):
        self.case = case
        self.replay = replay
        self.counts = {}
        self.states = set()
        self.fails = []
        self.knowns = {}
        self.samples = []
        self._tmp = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        import hashlib

        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.states.add(int.from_bytes(h, "little"))

    def state_arrays(self, *arrays):
        import hashlib

        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            h.update(a.tobytes() if hasattr(a, "tobytes") else repr(a).encode())
        self.states.add(int.from_bytes(h.digest(), "little"))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, msg, **detail):
        if len(self.fails) < 3:
            self.fails.append({"msg": str(msg)[:2000], "detail": detail})

    def known(self, key, msg):
        self.knowns.setdefault(key, msg)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = Path(tempfile.mkdtemp(dir=SCRATCH))
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    os.environ.setdefault("MPLBACKEND", "Agg")


def exec_case(modname, case, timeout, replay=False):
    mod = importlib.import_module(modname)
    ctx = Ctx(case, replay)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        mod.run_case(case, ctx)
    except CaseTimeout:
        ctx.fail(f"the run did not finish within {timeout} s")
    except Exception:
        ctx.fail("unexpected exception:\n" + traceback.format_exc(limit=-6))
    except SystemExit as e:
        ctx.fail(f"unexpected SystemExit {e.code}\n" + traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        ctx.cleanup()
    return case, ctx.counts, ctx.states, ctx.fails, ctx.knowns, ctx.samples


def _worker_init(scratch):
    global SCRATCH
    SCRATCH = scratch
    quiet()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)


def load_known():
    """property -> {key: description} of the open (not fixed) findings."""
    out = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.strip().startswith("{"):
                d = json.loads(line)
                out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    SCRATCH = tempfile.mkdtemp(prefix=f"wam-mc-{args.id}-", dir=_scratch_base())
    owner = os.getpid()

    def _clean():
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)

    atexit.register(_clean)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    os.environ["TMPDIR"] = SCRATCH
    tempfile.tempdir = SCRATCH
    # Never trust byte code compiled from an earlier state of the tree
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    quiet()

    modname = f"mc.checks.{args.id.lower()}"
    mod = importlib.import_module(modname)
    timeout = getattr(mod, "CASE_TIMEOUT", 120 if args.tier == "quick" else 600)
    known = load_known().get(args.id, {})

    agg = {"counts": {}, "states": set(), "samples": [], "knowns": {}}
    violations = []
    ncases = 0

    def take(res):
        nonlocal ncases
        case, counts, states, fails, knowns, samples = res
        ncases += 1
        for k, v in counts.items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["states"] |= states
        if len(agg["samples"]) < 4:
            agg["samples"].extend(samples[: 4 - len(agg["samples"])])
        for k, m in knowns.items():
            if k in known:
                agg["knowns"].setdefault(k, m)
            else:
                fails = fails + [{"msg": m, "detail": {"key": k}}]
        for f in fails:
            violations.append((case, f))

    if args.replay:
        rec = json.loads(Path(args.replay).read_text())
        take(exec_case(modname, rec["case"], timeout, replay=True))
        total = 1
    else:
        try:
            space = list(mod.cases(args.tier))
        except Exception:
            space = []
            violations.append(({}, {"msg": "cannot set up the exploration:\n"
                                    + traceback.format_exc(limit=-6), "detail": {}}))
        total = len(space)
        jobs = max(1, min(args.jobs, getattr(mod, "JOBS", args.jobs)))
        preload = getattr(mod, "preload", None)
        if preload:
            try:
                preload()
            except Exception:
                pass  # the cases will report it
        mpctx = multiprocessing.get_context("fork")
        ex = cf.ProcessPoolExecutor(jobs, mp_context=mpctx, initializer=_worker_init,
                                    initargs=(SCRATCH,))
        try:
            futs = {ex.submit(exec_case, modname, c, timeout): c for c in space}
            for fut in cf.as_completed(futs):
                try:
                    take(fut.result())
                except cf.process.BrokenProcessPool:
                    violations.append((futs[fut], {"msg": "the process running this "
                                       "case died", "detail": {}}))
                    break
                if len(violations) >= int(os.environ.get("MC_STOP_AFTER", "8")):
                    break
        finally:
            procs = list(getattr(ex, "_processes", {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:  # nobody waits for them, and all results are there
                p.kill()

    # Evidence
    cov = dict(agg["counts"])
    level = mod.LEVEL
    cov["cases"] = ncases
    cov["cases_in_space"] = total
    cov["exhaustive"] = bool(ncases == total and not args.replay)
    cov["rule"] = mod.RULE
    cov["samples"] = agg["samples"] or [space[0] if not args.replay and total else {}]
    if level == "model_checking":
        cov["states"] = len(agg["states"])
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
    else:
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = len(agg["states"])
    ev = {
        "property": args.id,
        "tier": args.tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(violations),
    }
    if not args.replay:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{args.id}.json").write_text(
            json.dumps(ev, indent=1, default=str) + "\n")

    for k, m in sorted(agg["knowns"].items()):
        print(f"KNOWN-FINDING: property={args.id} {known[k]}")
    if violations:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        for n, (case, f) in enumerate(violations[:3]):
            path = Path(args.replay) if args.replay else rdir / f"{args.id}-{n}.json"
            if not args.replay:
                path.write_text(json.dumps({"property": args.id, "tier": args.tier,
                                            "case": case, "failure": f},
                                           indent=1, default=str) + "\n")
            print(f"VIOLATION property={args.id} replay={path}")
            print("  " + f["msg"].replace("\n", "\n  ")[:3000])
            if f["detail"]:
                print("  " + json.dumps(f["detail"], default=str)[:1500])
        sys.stdout.flush()
        _clean()
        os._exit(1)
    print(f"OK {args.id} tier={args.tier} cases={ncases}/{total} "
          + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int)
                     and k not in ("cases", "cases_in_space", "exhaustive"))
          + f" wall={ev['wall_s']}s")
    if ncases == 0:
        print("nothing was explored")
        _clean()
        os._exit(2)
    sys.stdout.flush()
    _clean()
    os._exit(0)


if __name__ == "__main__":
    main()
