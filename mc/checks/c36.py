"""C36: what a killed or failing run leaves behind is never mistaken for a result."""
import shutil
import datetime as dtm
from pathlib import Path

import netCDF4
import numpy as np

from mc import crash, prep, scen, synth, wam
from mc.checks import c16

ID = "C36"
LEVEL = "fault_enumeration"
RULE = ("every change that a real run makes to a file (creating, each single write of the "
        "netCDF library, truncating, renaming, removing), found by counting them in an "
        "undisturbed run: the process is killed before it, or after half of its bytes, or the "
        "change fails once or from then on (full disk); for tracking in both directions, in "
        "an empty folder, over the results of another run and while restarting, and for "
        "preprocessing. After each fault all files left are read, the run is repeated, and "
        "from each new set of complete outputs the run is restarted. An evaluation is one "
        "faulty run; distinct = distinct run, change and fault")
ASSUMPTIONS = ["the file system keeps what was written when the process dies (no power loss)",
               "files other than those with the name of an output or of a preprocessed day "
               "are not results", "a run that crashes on a full disk has reported it"]
CASE_TIMEOUT = 850
VARS = prep.OUT


def preload():
    wam.preload()
    wam.need("tracking.forwardtrack")
    wam.need("tracking.backtrack")


def cases(tier):
    out = []
    q = tier == "quick"
    parts = 4

    def add(part_n=parts, **kw):
        out.extend(dict(kw, part=p, parts=part_n, rerun=7 if q else 1)
                   for p in range(part_n))

    for d in ("forward", "backward"):
        for how in crash.HOW:
            for start in ("fresh", "over", "restart"):
                if q and how != "torn" and (start, d) != ("fresh", "forward"):
                    continue
                add(kind="track", direction=d, how=how, start=start, steps=2 if q else 4)
    for how in crash.HOW:
        for start in ("fresh", "over"):
            if q and (how, start) not in (("torn", "over"), ("killed", "fresh"),
                                          ("full", "fresh")):
                continue
            for days, per in [(2, 2)] if q else [(2, 2), (3, 1), (1, 4)]:
                add(8, kind="prepare", how=how, start=start, days=days, per=per)
    return out


def run_case(case, ctx):
    res = crash.run("mc.checks.c36", "explore", case, ctx.tmp / "x")
    for k, n in res["counts"].items():
        ctx.count(k, n)
    for s in res["states"]:
        ctx.state(s)
    for f in res["fails"]:
        ctx.fail(f)
    ctx.sample(case)


def explore(case, root, rep):
    globals()[case["kind"]](case, root, rep)


# ------------------------------------------------------------------------ tracking
def track(case, root, rep):
    lat, lon = scen.grid("small")
    nt = case["steps"] + 1
    times = synth.hours(synth.T(2021, 2, 28, 22), nt)
    f = scen.make_fields("shear", "flicker", "both", nt, len(lat), len(lon), 0.3)
    synth.write_prep(root / "prep", times, lat, lon, f)
    out = root / "out"
    cfg = synth.base_config(
        root, tracking_direction=case["direction"], output_frequency="1h",
        output_folder=str(out), tracking_start_date=times[0], tracking_end_date=times[-1],
        tagging_start_date=times[0], tagging_end_date=times[-1],
        preprocess_start_date=times[0], preprocess_end_date=times[-1])
    back = case["direction"] == "backward"

    def go(**kw):
        out.mkdir(exist_ok=True)
        synth.run_tracking(dict(cfg, **kw), str(root / "config.yaml"))

    def clear():
        if out.exists():
            shutil.rmtree(out)
        if before is not None:
            shutil.copytree(before, out)

    before, old = None, {}
    if case["start"] == "over":
        # complete outputs of a run with other settings
        go(kvf=0, tagging_region=[-180, -80, 180, 80])
        old = synth.outputs(cfg)
    if case["start"] == "restart":
        # the first interval is complete; the run continues from there
        cut = dict(tracking_start_date=synth.iso(times[-2])) if back else dict(
            tracking_end_date=synth.iso(times[1]))
        go(**cut)
        old = synth.outputs(cfg)
        cfg["restart"] = True
        cfg["tracking_end_date" if back else "tracking_start_date"] = synth.iso(
            times[-2] if back else times[1])
    if old:
        before = root / "before"
        shutil.copytree(out, before)
    def ran(**kw):
        """A run in a process of its own, as the library may hold on to broken files."""
        def do():
            go(**kw)
            return synth.outputs(cfg)
        return prep.in_child(do)

    clear()
    n = crash.points(root / "out", go)
    want = synth.outputs(cfg)
    order = sorted(want, reverse=back)
    tried = set()
    for k in range(1 + case["part"], n + 1, case["parts"]):
        clear()
        st = crash.at(root / "out", k, case["how"], go)
        what = f"{case['direction']} run ({case['start']}), {case['how']} at change {k} of {n}"
        rep.count("evaluations")
        rep.count(f"exit_{st}")
        rep.state(what)
        if case["how"] in ("killed", "torn") and st not in (137, 0):
            rep.fail(f"{what}: exit status {st}")
            return
        complete, fault = prep.in_child(lambda: left(out, want, old))
        if fault:
            rep.fail(f"{what}: {fault}")
            return
        if st == 0 and complete != sorted(want):
            rep.fail(f"{what}: the run reported success, but of {sorted(want)} only "
                     f"{complete} hold its results")
            return
        key = tuple(complete)
        if key not in tried and complete and case["start"] == "fresh":
            tried.add(key)
            last = [x for x in order if x in complete][-1]
            t = dtm.datetime.strptime(last.split("_")[1][:-3], "%Y-%m-%dT%H-%M")
            if last != order[-1]:
                rest = order[order.index(last) + 1:]
                got = ran(restart=True, **{
                    "tracking_end_date" if back else "tracking_start_date":
                    t.strftime("%Y-%m-%dT%H:%M")})
                rep.count("restarts")
                for x in rest:
                    for v, a in want[x].items():
                        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and not \
                                np.allclose(got[x][v], a, rtol=2e-4,
                                            atol=2e-4 * max(1e-9, np.abs(a).max())):
                            rep.fail(f"{what}, restarted from {last}: {v} in {x} differs "
                                     "from the undisturbed run")
                            return
        if k % case["rerun"] == 0 or n - k < 2:
            got = ran()
            rep.count("reruns")
            for x in set(want) | set(got):
                if x not in got or x not in want or differs(got[x], want[x]):
                    rep.fail(f"{what}: running again gives another {x}")
                    return


def left(out, want, old):
    """(names of complete outputs, what is wrong with the others)"""
    complete = []
    for p in sorted(out.glob("*.nc")) if out.exists() else []:
        if p.name not in want:
            return complete, f"unexpected file {p.name}"
        try:
            o = synth.read_output(p)
        except Exception as e:
            return complete, f"{p.name} is left incomplete: {type(e).__name__}: {e}"
        bad = differs(o, want[p.name])
        if bad and (p.name not in old or differs(o, old[p.name])):
            return complete, f"{p.name} is left incomplete: {bad} is missing or wrong"
        if not bad:
            complete.append(p.name)
    return complete, None


def differs(o, w):
    """Names of the variables of w that o does not hold with the same values."""
    return [v for v, a in w.items() if isinstance(a, np.ndarray) and not (
        v in o and isinstance(o[v], np.ndarray) and o[v].shape == a.shape
        and np.array_equal(o[v], a, equal_nan=a.dtype.kind == "f"))]


# ------------------------------------------------------------------ preprocessing
def prepare(case, root, rep):
    import dask

    dask.config.set(scheduler="synchronous")
    days, per = case["days"], case["per"]
    step = 24 // max(per, 2)
    t0 = synth.T(2021, 2, 27)
    times = [t0 + dtm.timedelta(days=d, hours=step * k) for d in range(days)
             for k in range(per)] if per > 1 else [
        t0 + dtm.timedelta(hours=24 * d) for d in range(days)]
    tpl, f = c16.inputs(root, times)
    secs = 3600 * (step if per > 1 else 24)
    want = c16.expected(f, times, secs)
    cfg = prep.config(root, tpl, times[0], times[-1], levels=c16.LEVELS,
                      input_frequency=f"{step if per > 1 else 24}h")
    folder = Path(cfg["preprocessed_data_folder"])
    before, old = None, {}
    if case["start"] == "over":
        f2 = {v: (0.5 * a if v == "q" else a) for v, a in f.items()}
        c16_root = root / "older"
        import mc.prep as mp

        tpl2 = mp.write_era5(c16_root / "in", times, c16.LAT, c16.LON, "model_levels",
                             c16.LEVELS, f2)
        prep.run(dict(cfg, filename_template=tpl2))
        old = c16.expected(f2, times, secs)
        before = root / "before"
        shutil.copytree(folder, before)

    def clear():
        if folder.exists():
            shutil.rmtree(folder)
        if before is not None:
            shutil.copytree(before, folder)

    def go():
        prep.run(cfg)

    clear()
    n = crash.points(folder, go)
    for k in range(1 + case["part"], n + 1, case["parts"]):
        clear()
        st = crash.at(folder, k, case["how"], go)
        what = f"preprocessing ({case['start']}), {case['how']} at change {k} of {n}"
        rep.count("evaluations")
        rep.count(f"exit_{st}")
        rep.state(what, case["days"], case["per"])
        if case["how"] in ("killed", "torn") and st not in (137, 0):
            rep.fail(f"{what}: exit status {st}")
            return
        right = 0
        for t, values in zip(times, prep.in_child(lambda: [look(folder, t) for t in times])):
            rep.count("unreadable", values is None)
            for v, a in (values or {}).items():
                ok = [np.allclose(a, w[t][v], rtol=2e-5, atol=1e-9) for w in (want, old)
                      if w]
                if not any(ok):
                    rep.fail(f"{what}: {v} at {t} reads as {a.ravel()[:3]}, correct is "
                             f"{want[t][v].ravel()[:3]}")
                    return
                right += ok[0]
        if st == 0 and right != len(times) * len(VARS):
            rep.fail(f"{what}: preprocessing reported success, but not all values are there")
            return
        if k % case["rerun"] == 0 or n - k < 2:
            got = prep.in_child(lambda: (go(), prep.read(cfg))[1])
            rep.count("reruns")
            for t in times:
                g = got.get(t.strftime("%Y-%m-%d"))
                i = [j for j, x in enumerate(g["time"]) if x == t] if g else []
                if len(i) != 1 or not all(
                        np.allclose(g[v][i[0]], want[t][v], rtol=2e-5, atol=1e-9)
                        for v in VARS):
                    rep.fail(f"{what}: running again gives other data at {t}")
                    return


def look(folder, t):
    """What a tracking run would read for this time: {variable: values}, or None."""
    import xarray as xr

    path = folder / f"{t.strftime('%Y-%m-%d')}_fluxes_storages.nc"
    try:
        with xr.open_dataset(str(path), engine="netcdf4", cache=False,
                             use_cftime=True) as ds:
            ds = ds.sel(time=t.strftime("%Y-%m-%dT%H:%M:%S"))
            out = {}
            for v in VARS:
                a = ds[v].squeeze().values
                if a.shape != (len(c16.LAT), len(c16.LON)):
                    return None
                out[v] = a
            return out
    except Exception:  # reported to the user, whatever it is
        return None
