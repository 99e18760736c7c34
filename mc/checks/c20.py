"""C20: spurious read failures are retried, real ones are reported."""
import datetime as dtm
import itertools
import sys
import time

import numpy as np

from mc import scen, synth, wam

ID = "C20"
LEVEL = "fault_enumeration"
RULE = ("(a) every fault sequence (index errors up to two beyond the limit, then success or "
        "another error) on one read, for every subset and position in time; (b) all "
        "histories of up to three reads with every assignment of fault sequences to them; "
        "(c) complete runs with every read failing in every way, and a rerun in the same "
        "process; an evaluation is one faulty read or run; distinct = distinct fault history")
ASSUMPTIONS = ["reading goes through xarray.open_dataset and waiting through time.sleep, "
               "both replaced here", "a spurious failure shows as IndexError on opening"]
preload = wam.preload
LIMIT = 8
OTHER = {"os": OSError("no route to host"), "value": ValueError("bad file"),
         "key": KeyError("time"), "runtime": RuntimeError("NetCDF: DAP failure"),
         "type": TypeError("unexpected"), "missing": FileNotFoundError("gone"),
         "permission": PermissionError("not yours"), "lookup": LookupError("no"),
         "timeout": TimeoutError("slow"), "connection": ConnectionError("reset"),
         "attribute": AttributeError("x"), "memory": MemoryError("full"),
         "eof": EOFError("short"), "arithmetic": OverflowError("date")}


class Faults:
    """Replaces opening and sleeping; answers each opening from a script."""

    def __init__(self, script=()):
        self.script = list(script)
        self.opened = 0
        self.waits = []

    def __enter__(self):
        import xarray as xr

        self.real, self.real_sleep = xr.open_dataset, time.sleep
        self.saved = []

        def opening(name, *a, **k):
            if "_fluxes_storages" not in str(name):
                return self.real(name, *a, **k)
            self.opened += 1
            f = self.script.pop(0) if self.script else "ok"
            if f == "index":
                raise IndexError("The indexing operation you are attempting to perform "
                                 "is not valid on netCDF4.Variable object.")
            if f != "ok":
                raise OTHER[f]
            return self.real(name, *a, **k)

        def sleeping(s):
            self.waits.append(float(s))

        for n, m in list(sys.modules.items()):
            if n == "time" or n.startswith(("xarray", "wam2layers")):
                for k, v in list(vars(m).items()):
                    if v is self.real or v is self.real_sleep:
                        self.saved.append((m, k, v))
                        setattr(m, k, opening if v is self.real else sleeping)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def sequences(tier):
    out = []
    others = list(OTHER)
    for n in range(LIMIT + 3):
        out.append(["index"] * n + ["ok"])
        for o in others:
            if tier == "quick" and n not in (0, 1, LIMIT, LIMIT + 1) and o not in (
                    "os", "value"):
                continue
            out.append(["index"] * n + [o])
            if n < 3:
                out.append([o] + ["index"] * n)
    return out


def cases(tier):
    out = []
    for sub in ("fluxes", "states"):
        for off in (0, 30, 90):
            out.append(dict(kind="read", subset=sub, minutes=off, tier=tier))
    short = [["ok"], ["index", "ok"], ["index"] * 8 + ["ok"], ["index"] * 9, ["os"],
             ["index", "value"]]
    for a in range(len(short)):
        out.append(dict(kind="history", first=a, short=short,
                        depth=2 if tier == "quick" else 3))
    for d in ("forward", "backward"):
        for f in (["index"], ["index"] * 8, ["index"] * 9, ["os"], ["index", "value"]):
            out.append(dict(kind="run", direction=d, fault=f,
                            every=1 if tier != "quick" else 3))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def setup(root):
    lat, lon = scen.grid("small")
    times = synth.hours(synth.T(2021, 7, 1, 20), 8)
    f = scen.make_fields("wave", "flicker", "both", 8, len(lat), len(lon), 0.3)
    synth.write_prep(root / "prep", times, lat, lon, f)
    cfg = synth.base_config(root, tracking_start_date=times[0],
                            tracking_end_date=times[-1], tagging_start_date=times[0],
                            tagging_end_date=times[-1], output_frequency="2h")
    return times, f, cfg


NAMES = {"fluxes": ["fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip"],
         "states": ["s_upper", "s_lower"]}


def check_data(ctx, what, ds, times, f, t, subset):
    x = (t - times[0]).total_seconds() / 3600
    k, w = int(x), x - int(x)
    for v in NAMES[subset]:
        want = f[v][k] if w == 0 else (1 - w) * f[v][k] + w * f[v][k + 1]
        if not np.allclose(ds[v].values, want, rtol=1e-5, atol=1e-4 * np.abs(want).max()):
            ctx.fail(f"{what}: {v} differs from an undisturbed read")
            return False
    return True


def cls_time(cfg, t):
    """t on the date class the run uses"""
    return type(cfg.tracking_start_date)(t.year, t.month, t.day, t.hour, t.minute)


def attempt(ctx, what, script, cfg, times, f, t, subset, reads):
    """One load with scripted faults; reads = openings an undisturbed load needs."""
    load = wam.need("tracking.io", "load_data")
    with Faults(script) as fl:
        err = None
        try:
            ds = load(cls_time(cfg, t), cfg, subset)
        except Exception as e:
            err = e
    ctx.count("evaluations")
    # the model: answers are consumed until a read succeeds or the load fails
    left, need, tries, want_err, waits, used = list(script), reads, 0, None, 0, 0
    per = []
    while need and want_err is None:
        a = left.pop(0) if left else "ok"
        used += 1
        if a == "ok":
            need -= 1
            per.append(tries)
            tries = 0
        elif a == "index":
            tries += 1
            if tries > LIMIT:
                want_err = IndexError
            else:
                waits += 1
        else:
            want_err = type(OTHER[a])
    per.append(tries)
    if want_err is not None:
        if err is None:
            ctx.fail(f"{what}: no error although the read failed with {script}")
            return False
        if not isinstance(err, want_err):
            ctx.fail(f"{what}: {type(err).__name__} instead of {want_err.__name__} for "
                     f"{script}")
            return False
    elif err is not None:
        ctx.fail(f"{what}: {type(err).__name__}: {err} for {script}")
        return False
    if fl.opened != used:
        ctx.fail(f"{what}: {fl.opened} attempts, expected {used} for {script}")
        return False
    if len(fl.waits) != waits:
        ctx.fail(f"{what}: waited {len(fl.waits)} times, expected {waits} for {script}")
        return False
    pos = 0
    for n in per:
        w = fl.waits[pos:pos + min(n, LIMIT)]
        pos += len(w)
        if any(b <= a for a, b in zip(w, w[1:])) or any(x <= 0 for x in w):
            ctx.fail(f"{what}: waits do not grow: {w}")
            return False
        if sum(w) > 600:
            ctx.fail(f"{what}: waits {w} add up to more than ten minutes")
    if err is None:
        return check_data(ctx, what, ds, times, f, t, subset)
    return True


def clear():
    f = wam.opt("tracking.io", "_load_slice_with_cache")
    if f is not None and hasattr(f, "cache_clear"):
        f.cache_clear()


def read(case, ctx):
    n = 0
    Config = wam.need("config", "Config")
    for script in sequences(case["tier"]):
        root = ctx.tmp / f"r{n}"
        n += 1
        times, f, cfg = setup(root)
        cfg = Config(**cfg)
        t = times[3] + dtm.timedelta(minutes=case["minutes"])
        what = f"reading {case['subset']} at {t}"
        reads = 1 if case["minutes"] % 60 == 0 else 2
        ctx.state(case["subset"], case["minutes"], script)
        if not attempt(ctx, what, script, cfg, times, f, t, case["subset"], reads):
            return
        # an undisturbed read of the same data afterwards
        with Faults():
            ds = wam.need("tracking.io", "load_data")(cls_time(cfg, t), cfg,
                                                      case["subset"])
        if not check_data(ctx, what + f" after {script}", ds, times, f, t,
                          case["subset"]):
            return
    ctx.sample({"subset": case["subset"], "scripts": n, "longest": LIMIT + 2})


def history(case, ctx):
    """Reads of the same and of another time, each with its own faults."""
    Config = wam.need("config", "Config")
    n = 0
    depth = case["depth"]
    for rest in itertools.product(range(len(case["short"])), repeat=depth - 1):
        for which in itertools.product((2, 3), repeat=depth):
            scripts = [case["short"][k] for k in (case["first"],) + rest]
            root = ctx.tmp / f"h{n}"
            n += 1
            times, f, cfg = setup(root)
            cfg = Config(**cfg)
            done = set()
            ctx.state(scripts, which)
            for step, (s, w) in enumerate(zip(scripts, which)):
                what = f"history {list(zip(which, scripts))}, read {step + 1}"
                reads = 0 if w in done else 1
                if reads == 0:
                    # whether it is answered from a cache or read again is free
                    with Faults() as fl:
                        ds = wam.need("tracking.io", "load_data")(
                            cls_time(cfg, times[w]), cfg, "fluxes")
                    ctx.count("evaluations")
                    if not check_data(ctx, what, ds, times, f, times[w], "fluxes"):
                        return
                    continue
                if not attempt(ctx, what, s, cfg, times, f, times[w], "fluxes", 1):
                    return
                if s[-1] == "ok":
                    done.add(w)
    ctx.sample({"first": case["short"][case["first"]], "histories": n})


def run(case, ctx):
    times, f, cfg = setup(ctx.tmp / "base")
    cfg["tracking_direction"] = case["direction"]
    with Faults() as fl:
        synth.run_tracking(cfg)
    want = synth.outputs(cfg)
    total = fl.opened
    fatal = case["fault"].count("index") > LIMIT or case["fault"][-1] != "index"
    for k in range(0, total, case["every"]):
        root = ctx.tmp / f"k{k}"
        times, f, cfg = setup(root)
        cfg["tracking_direction"] = case["direction"]
        what = f"{case['direction']} run, read {k + 1} of {total} fails {case['fault']}"
        ctx.count("evaluations")
        ctx.state(case["direction"], case["fault"], k)
        err = None
        with Faults(["ok"] * k + case["fault"]) as fl:
            try:
                synth.run_tracking(cfg)
            except Exception as e:
                err = e
        if fl.opened <= k:
            continue
        if fatal and err is None:
            ctx.fail(f"{what}: the run did not fail")
            return
        if not fatal and err is not None:
            ctx.fail(f"{what}: {type(err).__name__}: {err}")
            return
        if fatal:
            cfg["output_folder"] += "_again"
            with Faults():
                synth.run_tracking(cfg)
        got = synth.outputs(cfg)
        if set(got) != set(want):
            ctx.fail(f"{what}: outputs {sorted(got)}, expected {sorted(want)}")
            return
        for n in want:
            for v, a in want[n].items():
                if isinstance(a, np.ndarray) and a.dtype.kind == "f" and not \
                        np.array_equal(a, got[n][v], equal_nan=True):
                    ctx.fail(f"{what}{', rerun' if fatal else ''}: {v} in {n} differs from "
                             f"the undisturbed run")
                    return
    ctx.sample({"direction": case["direction"], "fault": case["fault"], "reads": total})
