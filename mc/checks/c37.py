"""C37: runs at the same time leave what they leave one after the other."""
import json
import shutil
import datetime as dtm
from pathlib import Path

import netCDF4
import numpy as np

from mc import crash, prep, scen, synth, turns, wam

ID = "C37"
LEVEL = "exploration"
RULE = ("stateless exploration of two real commands in processes of their own, one running at "
        "a time and handing over before its file operations (shim/turns.c): every schedule "
        "with at most the stated number of unforced switches, started by either one. "
        "Operations on files that only one of them uses or that both only read commute and "
        "are no choice; the files that conflict are recomputed from the executed schedules. "
        "After each schedule both exit statuses are 0 and all files are those of the two "
        "commands alone. An evaluation is one executed schedule")
ASSUMPTIONS = ["the commands produce different outputs, as they differ in period, direction "
               "or folder", "log files are not compared; a debug file that both write is that of one",
               "one file operation is atomic"]
CASE_TIMEOUT = 850
LAT, LON = np.array([49.0, 48.0, 47.0, 46.0, 45.0]), np.arange(0.0, 6.0)
SCEN = ["directions", "directions netcdf", "directions shapefile", "directions storm",
        "periods", "members", "restart", "days", "track and days", "track and day", "visualize"]


def preload():
    wam.need("cli", "cli")
    wam.need("tracking.forwardtrack")
    wam.need("tracking.backtrack")


def cases(tier):
    q = tier == "quick"
    out = []
    for s in SCEN:
        parts = 2 if q else 8
        out.extend(dict(scenario=s, bound=2 if q else 4, part=p, parts=parts)
                   for p in range(parts))
    return out


def run_case(case, ctx):
    res = crash.run("mc.checks.c37", "explore", case, ctx.tmp / "x", shim="turns.c")
    for k, n in res["counts"].items():
        ctx.count(k, n)
    for s in res["states"]:
        ctx.state(s)
    for f in res["fails"]:
        ctx.fail(f)
    ctx.sample(case)


def command(*args):
    wam.need("cli", "cli").main(list(args), standalone_mode=False)


def weather(nt, name="shear", k=0.3):
    return scen.make_fields(name, "flicker", "both", nt, len(LAT), len(LON), k)


def shapefile(path):
    import geopandas
    from shapely.geometry import Polygon

    geopandas.GeoDataFrame(
        geometry=[Polygon([(0.4, 46.4), (3.4, 46.4), (3.4, 48.6), (0.4, 48.6)])],
        crs="EPSG:4326").to_file(path)


def mask(path):
    with netCDF4.Dataset(path, "w") as nc:
        for n, v in (("latitude", LAT), ("longitude", LON)):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        nc.createVariable("tagging_region", "i4", ("latitude", "longitude"))[:] = (
            np.arange(30).reshape(5, 6) % 4 == 0)


def jobs(name, w, conf):
    """Prepares folder w; the arguments of the two commands."""
    t0 = synth.T(2021, 2, 27, 22)
    nt = 5
    times = synth.hours(t0, nt)
    if name == "days":
        return preprocess(w, conf, 2)
    f = weather(nt, *(("gale", 1.0) if "storm" in name else ()))
    synth.write_prep(w / "prep", times, LAT, LON, f)
    region = [1, 46, 3, 48]
    if "shapefile" in name:
        region = str(w / "region.shp")
        shapefile(region)
    if "netcdf" in name:
        region = str(w / "region.nc")
        mask(region)
    base = synth.base_config(
        w, output_frequency="1h", tagging_region=region, timestep=1800,
        output_folder=str(w / "results" / "out"),
        tracking_start_date=times[0], tracking_end_date=times[-1],
        tagging_start_date=times[0], tagging_end_date=times[-1],
        preprocess_start_date=times[0], preprocess_end_date=times[-1])

    def job(k, **kw):
        c = {x: synth.iso(v) if x.endswith("_date") else v for x, v in dict(base, **kw).items()}
        p = conf / f"run{k}.yaml"
        p.write_text(json.dumps(c))
        return ("track", str(p))

    if name.startswith("directions"):
        return [job(1), job(2, tracking_direction="backward")]
    if name == "periods":
        return [job(1, tracking_end_date=times[2]), job(2, tracking_start_date=times[2])]
    if name == "members":
        return [job(1, output_folder=str(w / "results" / "a")),
                job(2, output_folder=str(w / "results" / "b"), tagging_region=[0, 45, 2, 47])]
    if name == "restart":
        first = job(0, tracking_end_date=times[2])
        prep.in_child(command, *first)
        return [job(1, tracking_start_date=times[2], restart=True),
                job(2, tracking_direction="backward")]
    if name.startswith("track and day"):
        other = preprocess(w, conf, 2 if name.endswith("s") else 1)
        return [job(3, tracking_end_date=times[1]), other[-1]]
    if name == "visualize":
        first = job(0)
        prep.in_child(command, *first)
        return [("visualize", "output", job(1)[1]), job(2, tracking_direction="backward")]
    raise KeyError(name)


def preprocess(w, conf, days):
    from mc.checks import c16

    t0 = synth.T(2021, 3, 1)
    times = [t0 + dtm.timedelta(hours=12 * k) for k in range(2 * days)]
    tpl, _ = c16.inputs(w / "raw", times)
    out = []
    for d in range(days):
        cfg = prep.config(w, tpl, times[2 * d], times[2 * d + 1], levels=c16.LEVELS,
                          input_frequency="12h",
                          preprocessed_data_folder=str(w / "prep"))
        p = conf / f"day{d}.yaml"
        p.write_text(json.dumps(cfg))
        out.append(("preprocess", "era5", str(p)))
    return out


def content(folder):
    """{relative name: comparable content} of all files but the logs."""
    out = {}
    for p in sorted(folder.rglob("*")):
        name = str(p.relative_to(folder))
        if p.is_dir() or p.suffix == ".log":
            continue
        if p.suffix != ".nc":
            out[name] = p.read_bytes() if p.suffix != ".png" else b"figure"
            continue
        try:
            with netCDF4.Dataset(p) as nc:
                nc.set_auto_mask(False)
                out[name] = {v: x[:].tobytes() for v, x in nc.variables.items()}
        except OSError as e:
            out[name] = f"unreadable: {e}"
    return out


def explore(case, root, rep):
    import dask

    dask.config.set(scheduler="synchronous")
    name = case["scenario"]
    w, conf, tpl = root / "w", root / "conf", root / "template"
    conf.mkdir()
    w.mkdir()
    args = jobs(name, w, conf)
    w.rename(tpl)

    def reset():
        if w.exists():
            shutil.rmtree(w)
        shutil.copytree(tpl, w)

    fns = [lambda a=a: command(*a) for a in args]

    def both():
        for fn in fns:
            fn()

    reset()
    prep.warm(both)
    alone, ops = [], []
    for k, fn in enumerate(fns):
        reset()
        o, status, error = turns.solo(w, fn)
        if status != 0:
            raise RuntimeError(f"{args[k]} alone: {status} {error}")
        alone.append(prep.in_child(content, w))
        ops.append(o)
    start = prep.in_child(content, tpl)
    want = {}
    for a in alone:
        for x, v in a.items():
            if start.get(x) != v:
                want.setdefault(x, []).append(v)
    for x in start:
        want.setdefault(x, [start[x]])

    def check(res, what):
        what = f"{name}: {what}"
        rep.count("evaluations")
        rep.count("transitions", res["ops"])
        rep.count("choices", len(res["points"]))
        rep.state(what)
        if any(res["status"]):
            rep.fail(f"{what}: exit statuses {res['status']}, errors {res['errors']}")
            return True
        got = prep.in_child(content, w)
        for x in sorted(set(want) | set(got)):
            if x not in want:
                rep.fail(f"{what}: unexpected file {x}")
            elif x not in got:
                rep.fail(f"{what}: {x} is missing")
            elif got[x] not in want[x]:
                rep.fail(f"{what}: {x} differs from that of the command alone"
                         + (f" ({got[x]})" if isinstance(got[x], str) else ""))
        return bool(rep.fails)

    paths = turns.explore(w, reset, fns, ops, case["bound"], case["part"], case["parts"], check)
    rep.count("operations_alone", sum(map(len, ops)))
    rep.count("conflicting_files", len(paths))
