"""C16: preprocessing stores every input time once, in the file of its day."""
import datetime as dtm
import itertools
import os
import shutil
from pathlib import Path

import netCDF4
import numpy as np

from mc import prep, sched, synth, wam

ID = "C16"
LEVEL = "model_checking"
RULE = ("(a) all interleavings of the file operations (opening and closing for writing) of "
        "real day tasks that run as processes into one folder; (b) every period, frequency, "
        "calendar and remainder of earlier files of the alphabets, sequentially; (c) real "
        "parallel runs with every number of worker processes. A state is one distinct "
        "schedule or configuration, a transition one file operation or time step, a "
        "validated trace one execution whose stored times and values are all compared with "
        "the input")
ASSUMPTIONS = ["the period starts on an input time", "tasks only interact through files",
               "reads of the (unchanging) input commute with everything"]
preload = wam.preload
LAT, LON = np.array([50.0, 49.0]), np.array([3.0, 4.0, 5.0])
LEVELS = [100, 130]
SECS = {"1h": 3600, "3h": 10800, "6h": 21600, "12h": 43200, "24h": 86400, "1D": 86400,
        "30min": 1800}


def cases(tier):
    out = []
    # (a) schedules: days x times per day, split by the first turns
    shapes = [(2, 2, 3)] if tier == "quick" else [(2, 2, 2), (2, 3, 5), (3, 1, 3)]
    for days, per, depth in shapes:
        for pre in itertools.product(range(days), repeat=depth):
            out.append(dict(kind="schedules", days=days, per=per, prefix=pre))
    # (b) periods
    q = tier == "quick"
    cals = ["standard", "noleap", "360_day", "all_leap"] if q else [
        "standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day",
        "julian", "all_leap", "366_day"]
    for cal, f in itertools.product(cals, ["6h", "24h"] if q else list(SECS)):
        for start, n in itertools.product([0, 6, 18], [1, 3, 6] if q else [1, 2, 3, 5, 9]):
            for left in (["none", "torn"] if q else ["none", "torn", "other", "same"]):
                if f in ("24h", "1D") and start:
                    continue
                out.append(dict(kind="period", calendar=cal, freq=f, start=start, n=n,
                                left=left))
    for f in ("1h", "30min", "3h", "12h"):
        for left in ("none", "other", "same"):
            out.append(dict(kind="period", calendar="standard", freq=f, start=12, n=5,
                            left=left))
    # (c) real pools
    for p in (1, 2, 3, None) if q else (1, 2, 3, 4, 5, None):
        out.append(dict(kind="pool", processes=p, days=4, freq="6h"))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def inputs(root, times, cal="standard"):
    nt = len(times)
    k = np.arange(nt)[:, None, None]
    c = np.arange(6).reshape(1, 2, 3)
    one = np.ones((nt, 2, 3))
    val = 1 + 0.01 * k + 0.1 * c
    f = dict(q=0.001 * np.stack([val, 2 * val], 1), u=np.stack([val, -val], 1) * 3,
             v=np.stack([-2 * val, val], 1), sp=1e5 - 100 * val, e=-1e-4 * val,
             tp=2e-4 * val * one)
    tpl = prep.write_era5(Path(root) / "in", times, LAT, LON, "model_levels", LEVELS, f,
                          cal=cal)
    return tpl, f


def expected(f, times, secs):
    out = {}
    for k, t in enumerate(times):
        w = prep.model_levels(LEVELS, 111, f["q"][k], f["u"][k], f["v"][k], f["sp"][k])
        w["precip"], w["evap"] = prep.net_fluxes(f["tp"][k] * 1000 / secs,
                                                 -f["e"][k] * 1000 / secs)
        out[t] = w
    return out


def verify(ctx, what, cfg, want):
    """Every wanted time once, in order, in the file of its day, with its values."""
    got = prep.read(cfg)
    days = {}
    for t in sorted(want):
        days.setdefault(t.strftime("%Y-%m-%d"), []).append(t)
    if sorted(got) != sorted(days):
        ctx.fail(f"{what}: files of {sorted(got)}, expected {sorted(days)}")
        return False
    for d, ts in days.items():
        have = list(got[d]["time"])
        if len(have) != len(ts) or any(a != b for a, b in zip(have, ts)):
            ctx.fail(f"{what}: file of {d} holds times {[str(t) for t in have]}, expected "
                     f"{[str(t) for t in ts]}")
            return False
        for k, t in enumerate(ts):
            for v, x in want[t].items():
                if not np.allclose(got[d][v][k], x, rtol=2e-5, atol=1e-9):
                    ctx.fail(f"{what}: {v} at {t} is {got[d][v][k].ravel()[:3]}, expected "
                             f"{x.ravel()[:3]}")
                    return False
    ctx.count("traces_validated_against_impl")
    return True


def watch():
    """Make opening for writing and closing a scheduling point."""
    real = netCDF4.Dataset

    class Watched(real):
        def __init__(self, filename, mode="r", *a, **k):
            self._w = mode != "r"
            if self._w:
                sched.point()
            real.__init__(self, filename, mode, *a, **k)

        def __setattr__(self, name, value):
            if name == "_w":
                self.__dict__["_w"] = value
            else:
                real.__setattr__(self, name, value)

        def close(self):
            if self.__dict__.get("_w"):
                sched.point()
            return real.close(self)

        def __exit__(self, *a):
            self.close()

    netCDF4.Dataset = Watched


def warm(times, tpl, step, ctx):
    """Load what preprocessing loads lazily, once, before the tasks are forked."""
    import dask

    with dask.config.set(scheduler="synchronous"):
        prep.run(prep.config(ctx.tmp / "warm", tpl, times[0], times[-1], levels=LEVELS,
                             input_frequency=f"{step}h"))


def schedules(case, ctx):
    days, per = case["days"], case["per"]
    step = 24 // max(per, 2)
    t0 = synth.T(2021, 2, 28)
    times = [t0 + dtm.timedelta(days=d, hours=step * k) for d in range(days)
             for k in range(per)]
    tpl, f = inputs(ctx.tmp, times)
    want = expected(f, times, 3600 * step)
    warm(times, tpl, step, ctx)
    run = [0]
    cfgs = []

    def setup():
        root = ctx.tmp / f"r{run[0]}"
        run[0] += 1
        (root / "prep").mkdir(parents=True)
        cfgs[:] = []
        tasks = []
        for d in range(days):
            ts = times[d * per: (d + 1) * per]
            cfg = prep.config(root, tpl, ts[0], ts[-1], levels=LEVELS,
                              input_frequency=f"{step}h")
            cfgs.append(cfg)

            def task(cfg=cfg, d=d):
                watch()
                prep.run(cfg, "ERA5", str(root / f"config{d}.yaml"))

            tasks.append(task)
        return tasks

    def check(trace, errors):
        ctx.count("transitions", len(trace))
        ctx.state(days, per, tuple(trace))
        if len(trace) < 2 * len(times):
            ctx.count("schedules_without_enough_points")
        what = f"schedule {trace} of {days} day tasks"
        if errors:
            ctx.fail(f"{what}: {errors}")
            return False
        ok = verify(ctx, what, cfgs[0], want)
        shutil.rmtree(Path(cfgs[0]["preprocessed_data_folder"]).parent)
        if ok and len(ctx.samples) == 0:
            ctx.sample({"schedule": trace, "days": days, "times_per_day": per})
        return ok

    n = sched.explore(setup, check, case["prefix"])
    ctx.count("schedules", n)


def period(case, ctx):
    cal, secs = case["calendar"], SECS[case["freq"]]
    base = synth.T(2020, 2, 28, cal=cal)
    # a little more data than is asked for, on both sides
    first = base + dtm.timedelta(hours=case["start"])
    n = case["n"]
    if n == 6 or n == 9:
        first = first + dtm.timedelta(days=1)
    lead = [first - dtm.timedelta(seconds=secs * k) for k in (2, 1)]
    times = [first + dtm.timedelta(seconds=secs * k) for k in range(n)]
    tail = [times[-1] + dtm.timedelta(seconds=secs * k) for k in (1, 2)]
    tpl, f = inputs(ctx.tmp, lead + times + tail, cal)
    f = {v: a[2:-2] for v, a in f.items()}
    want = expected(f, times, secs)
    cfg = prep.config(ctx.tmp, tpl, times[0], times[-1], levels=LEVELS, calendar=cal,
                      input_frequency=case["freq"])
    # the end of the period need not be an input time
    if case["n"] == 3:
        cfg["preprocess_end_date"] = synth.iso(times[-1] + dtm.timedelta(
            seconds=secs // 60 // 2 * 60))
    if case["left"] != "none":
        folder = Path(cfg["preprocessed_data_folder"])
        if case["left"] == "torn":
            folder.mkdir(parents=True)
            for t in times:
                (folder / f"{t.strftime('%Y-%m-%d')}_fluxes_storages.nc").write_bytes(
                    b"\x89HDF\r\n\x1a\n torn")
        else:
            c = dict(cfg)
            if case["left"] == "other":  # stores times the second run does not ask for
                c["preprocess_start_date"] = synth.iso(times[0])
                c["preprocess_end_date"] = synth.iso(times[-1])
                c["level_layer_boundary"] = 50
            prep.run(c)
    before = {p: p.read_bytes() for p in (ctx.tmp / "in").glob("*")}
    prep.run(cfg)
    ctx.count("transitions", len(times))
    ctx.state(str(case))
    if verify(ctx, f"{case}", cfg, want):
        c = next(iter(prep.read(cfg).values()))["calendar"]
        same = [{"standard", "gregorian"}, {"noleap", "365_day"}, {"all_leap", "366_day"}]
        if c != cal and not any({c, cal} <= s for s in same):
            ctx.fail(f"{case}: stored on calendar {c}")
    if any(p.read_bytes() != b for p, b in before.items()):
        ctx.fail("the input files were changed")
    ctx.sample(case)


def pool(case, ctx):
    times = synth.hours(synth.T(2021, 2, 27, 6), 4 * case["days"] - 2, 6)
    tpl, f = inputs(ctx.tmp, times)
    cfg = prep.config(ctx.tmp, tpl, times[0], times[-1], levels=LEVELS,
                      input_frequency="6h", parallel_preprocess=True,
                      parallel_processes=case["processes"])

    def go():
        prep.run(cfg)
        return {p.name: p.stat().st_size for p in Path(
            cfg["preprocessed_data_folder"]).glob("*.nc")}

    prep.in_child(go)
    ctx.count("transitions", len(times))
    ctx.state(str(case))
    verify(ctx, f"parallel run with {case['processes']} processes", cfg,
           expected(f, times, 21600))
