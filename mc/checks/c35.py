"""C35: preprocessed data on a remote server gives the same results as local files."""
import datetime as dtm
import itertools
import os
import time
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from mc import dap, scen, synth, wam
from mc.checks import c29

ID = "C35"
LEVEL = "fault_enumeration"
RULE = ("runs: direction x kind of tagging region x subdomain x calendar (x form of the URL x "
        "step and boundary), each run twice, on local files and on the same files served by "
        "a real OPeNDAP server on the loopback network; restarts, figures and settings "
        "likewise; faults: every request of a run fails in each of three ways, once or from "
        "then on. An evaluation is one remote run compared with the local one; distinct = "
        "distinct settings, or fault and request")
ASSUMPTIONS = ["a server that transmits all values unchanged (int64 times as float64, as the "
               "protocol has no such type)", "cut-off answers can be recognised by their "
               "length"]
REGIONS = ["box", "mask", "varying", "shape"]
CALENDARS = ["standard", "noleap", "360_day", "julian", "all_leap", "proleptic_gregorian"]
FORMS = ["{u}", "{u}/", "{u}/data", "{u}/a/b.c/data/"]


def preload():
    wam.preload()
    wam.need("utils.shapefile_mask")
    wam.need("analysis.visualization")


def cases(tier):
    out = []
    full = tier != "quick"
    n = 0
    for cal in CALENDARS if full else CALENDARS[:3]:
        for d, reg, dom in itertools.product(("forward", "backward"), REGIONS,
                                             (None, [-1, 45.5, 5, 50.5])):
            forms = FORMS if full else [FORMS[n % 4]]
            for form in forms:
                for dt, periodic in [(3600, False), (1800, True)] if full else [
                        (3600, False) if n % 2 else (1800, False)]:
                    out.append(dict(kind="runs", calendar=cal, direction=d, region=reg,
                                    domain=dom, form=form, dt=dt, periodic=periodic))
            n += 1
    for d in ("forward", "backward"):
        for reg in REGIONS:
            out.append(dict(kind="restart", direction=d, region=reg))
            out.append(dict(kind="figures", direction=d, region=reg))
        for fault in dap.FAULTS:
            for reg in ("box", "shape"):
                for once in (True, False):
                    out.append(dict(kind="faults", direction=d, region=reg, fault=fault,
                                    once=once, every=1 if full else 5))
    return out


def run_case(case, ctx):
    here = os.getcwd()
    work = ctx.tmp / "work"
    work.mkdir()
    os.chdir(work)  # a URL taken for a path would be created below it
    real = time.sleep
    time.sleep = lambda s: None
    try:
        globals()[case["kind"]](case, ctx)
        if any(work.iterdir()) and not ctx.fails:
            ctx.fail(f"created {sorted(p.name for p in work.rglob('*'))} in the working "
                     "directory")
    finally:
        time.sleep = real
        os.chdir(here)


def setup(case, ctx, nt=6):
    cal = case.get("calendar", "standard")
    lat, lon = scen.grid("mid")
    times = synth.hours(synth.T(2021, 2, 28, 21, cal=cal), nt)
    f = scen.make_fields("shear", "flicker", "both", nt, len(lat), len(lon))
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f, calendar=cal)
    # files of other days, on another grid, that a run has no use for
    other = [synth.T(2021, 2, d, 12, cal=cal) for d in (3, 26)]
    synth.write_prep(ctx.tmp / "prep", other, lat[:3], lon[:4],
                     {k: v[:2, :3, :4] for k, v in f.items()}, calendar=cal)
    for p in (ctx.tmp / "prep").glob("*.nc"):
        with netCDF4.Dataset(p, "a") as nc:
            nc.source = "data of the remote archive"
    j, i = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
    base = np.round(((3 * i + 5 * j) % 8) / 7.0, 3)
    region = [1, 46, 3, 49]
    if case["region"] == "shape":
        region = str(ctx.tmp / "region.shp")
        c29.write_shape(region, [[(0.2, 46.3), (0.7, 49.1), (4.1, 48.2)]])
    elif case["region"] != "box":
        region = str(ctx.tmp / "mask.nc")
        with netCDF4.Dataset(region, "w") as nc:
            for n, v in (("latitude", lat), ("longitude", lon)):
                nc.createDimension(n, len(v))
                nc.createVariable(n, "f8", (n,))[:] = v
            if case["region"] == "mask":
                nc.createVariable("m", "f8", ("latitude", "longitude"))[:] = base
            else:
                nc.createDimension("time", 3)
                x = nc.createVariable("time", "i8", ("time",))
                x.units, x.calendar = synth.EPOCH, cal
                x[:] = cftime.date2num([times[0] + dtm.timedelta(minutes=m)
                                        for m in (10, 140, 265)], synth.EPOCH, cal)
                m = nc.createVariable("m", "f8", ("time", "latitude", "longitude"))
                m[:] = np.stack([base, 1 - base, 0.5 * base[::-1]])
    cfg = synth.base_config(
        ctx.tmp, calendar=cal, tracking_direction=case["direction"], tagging_region=region,
        tracking_domain=case.get("domain"), timestep=case.get("dt", 3600),
        periodic_boundary=case.get("periodic", False), output_frequency="1h",
        tracking_start_date=times[0], tracking_end_date=times[-1],
        tagging_start_date=times[0], tagging_end_date=times[-1],
        preprocess_start_date=times[0], preprocess_end_date=times[-1])
    days = {t.strftime("%Y-%m-%d") + "_fluxes_storages.nc" for t in times}
    return cfg, times, days


def at(cfg, ctx, where, name, **kw):
    c = dict(cfg, preprocessed_data_folder=where, output_folder=str(ctx.tmp / name), **kw)
    Path(c["output_folder"]).mkdir(exist_ok=True)
    return c, str(ctx.tmp / f"{name}.yaml")


def compare(ctx, what, want, got, partial=False):
    """Every field, coordinate and bound, exactly."""
    if set(got) - set(want) or (not partial and set(want) != set(got)):
        ctx.fail(f"{what}: output {sorted(got)}, with local files {sorted(want)}")
        return False
    for n, o in got.items():
        for v, a in want[n].items():
            if isinstance(a, np.ndarray) and not (
                    v in o and a.dtype == o[v].dtype and np.array_equal(
                        a, o[v], equal_nan=a.dtype.kind == "f")):
                ctx.fail(f"{what}: {v} in {n} differs from the run on local files")
                return False
        if o["attrs"].get("source") != want[n]["attrs"].get("source"):
            ctx.fail(f"{what}: source {o['attrs'].get('source')!r} in {n}, with local files "
                     f"{want[n]['attrs'].get('source')!r}")
            return False
    return True


def debug(cfg):
    p = Path(cfg["output_folder"]) / "debug" / "tagging_region.nc"
    if not p.exists():
        return None
    with netCDF4.Dataset(p) as nc:
        return np.asarray(nc["tagging_region"][:])


def runs(case, ctx):
    cfg, times, days = setup(case, ctx)
    local, path = at(cfg, ctx, str(ctx.tmp / "prep"), "local")
    synth.run_tracking(local, path)
    want = synth.outputs(local)
    with dap.Server(ctx.tmp / "prep", ctx.tmp / "log") as srv:
        url = case["form"].format(u=srv.url)
        remote, path = at(cfg, ctx, url, "remote")
        what = f"data at {case['form'].format(u='http://server')}"
        synth.run_tracking(remote, path)
        req = srv.requests()
        ctx.count("evaluations")
        ctx.count("requests", len(req))
        ctx.state(sorted(case.items(), key=str))
        if not compare(ctx, what, want, synth.outputs(remote)):
            return
        a, b = debug(local), debug(remote)
        if (a is None) != (b is None) or a is not None and not np.array_equal(a, b):
            ctx.fail(f"{what}: another tagging region in the debug folder")
        if not req:
            ctx.fail(f"{what}: the server was not asked for anything")
        for status, name in req:
            if name not in days or status != 200:
                ctx.fail(f"{what}: asked for {name}, needed are {sorted(days)}")
                return
        # the settings in the output lead to the same run again
        Config = wam.need("config", "Config")
        text = want and next(iter(synth.outputs(remote).values()))["attrs"][
            "WAM2Layers_config"]
        p = ctx.tmp / "again.yaml"
        p.write_text(text)
        first, again = Config.from_yaml(path), Config.from_yaml(p)
        if str(first.preprocessed_data_folder) != str(again.preprocessed_data_folder) \
                or first.to_string() != again.to_string():
            ctx.fail(f"{what}: the settings stored in the output name "
                     f"{again.preprocessed_data_folder}")
            return
        again = dict(remote, output_folder=str(ctx.tmp / "again"))
        again["preprocessed_data_folder"] = str(Config.from_yaml(
            p).preprocessed_data_folder)
        Path(again["output_folder"]).mkdir()
        synth.run_tracking(again, path)
        compare(ctx, what + ", settings from the output", want, synth.outputs(again))
        # files replaced on the server
        for q in (ctx.tmp / "prep").glob("*.nc"):
            with netCDF4.Dataset(q, "a") as nc:
                for v in ("precip", "evap"):
                    nc[v][:] = nc[v][:] * 0.5
        local, path = at(cfg, ctx, str(ctx.tmp / "prep"), "local2")
        synth.run_tracking(local, path)
        remote, path = at(cfg, ctx, url, "remote2")
        synth.run_tracking(remote, path)
        ctx.count("evaluations", 2)
        compare(ctx, what + ", replaced meanwhile", synth.outputs(local),
                synth.outputs(remote))
    ctx.sample(case)


def restart(case, ctx):
    cfg, times, days = setup(case, ctx)
    local, path = at(cfg, ctx, str(ctx.tmp / "prep"), "local")
    synth.run_tracking(local, path)
    want = synth.outputs(local)
    back = case["direction"] == "backward"
    with dap.Server(ctx.tmp / "prep", ctx.tmp / "log") as srv:
        for k in range(1, len(times) - 1):
            for second in (srv.url, str(ctx.tmp / "prep")):
                name = f"r{k}{second[:4].strip('/')}"
                lo = dict(tracking_end_date=synth.iso(times[k]))
                hi = dict(tracking_start_date=synth.iso(times[k]))
                one, two = (hi, lo) if back else (lo, hi)
                c, path = at(dict(cfg, **one), ctx, srv.url, name)
                synth.run_tracking(c, path)
                c, path = at(dict(cfg, **two), ctx, second, name, restart=True)
                synth.run_tracking(c, path)
                ctx.count("evaluations")
                ctx.state(case["direction"], case["region"], k, second[:4])
                got = synth.outputs(c)
                w = {n: {v: a for v, a in o.items() if v != "time_bnds"}
                     for n, o in want.items()}
                for o in w.values():
                    # the state is stored in single precision
                    for v in list(o):
                        if isinstance(o[v], np.ndarray) and o[v].dtype.kind == "f" and \
                                v not in ("latitude", "longitude"):
                            del o[v]
                if not compare(ctx, f"restart at {times[k]}", w, got):
                    return
                for n, o in want.items():
                    for v in ("s_track_upper_restart", "s_track_lower_restart", "losses"):
                        if not np.allclose(o[v], got[n][v], rtol=1e-4,
                                           atol=1e-4 * max(1e-9, np.abs(o[v]).max())):
                            ctx.fail(f"restart at {times[k]} on remote data: {v} in {n} "
                                     "differs from the local run in one go")
                            return
    ctx.sample(case)


def figures(case, ctx):
    if case["region"] == "varying":
        case = dict(case, region="mask")
    cfg, times, days = setup(case, ctx)
    local, path = at(cfg, ctx, str(ctx.tmp / "prep"), "local")
    synth.run_tracking(local, path)
    viz = "analysis.visualization"
    import matplotlib.pyplot as plt

    funcs = ["visualize_input_data", "visualize_output_data", "visualize_both"]
    with dap.Server(ctx.tmp / "prep", ctx.tmp / "log") as srv:
        pics = []
        for where in (str(ctx.tmp / "prep"), srv.url + "/x"):
            c, path = at(cfg, ctx, where, "local")
            synth.write_config(path, c)
            for fn in funcs:
                wam.need(viz, fn)(path)
                plt.close("all")
            fig = Path(c["output_folder"]) / "figures"
            pics.append({p.name: p.read_bytes() for p in fig.glob("*.png")})
            for p in fig.glob("*.png"):
                p.unlink()
        ctx.count("evaluations", len(funcs))
        ctx.state("figures", case["direction"], case["region"])
        if set(pics[0]) != set(pics[1]) or len(pics[0]) != 3:
            ctx.fail(f"figures {sorted(pics[1])}, with local files {sorted(pics[0])}")
            return
        for n in pics[0]:
            if pics[0][n] != pics[1][n]:
                ctx.fail(f"{n} differs from the figure made from local files")
                return
        for status, name in srv.requests():
            if name not in days:
                ctx.fail(f"figures: asked for {name}, needed are {sorted(days)}")
                return
    ctx.sample(case)


def faults(case, ctx):
    """The run fails, or its results are those of the run on local files."""
    cfg, times, days = setup(case, ctx, nt=4)
    local, path = at(cfg, ctx, str(ctx.tmp / "prep"), "local")
    synth.run_tracking(local, path)
    want = synth.outputs(local)
    with dap.Server(ctx.tmp / "prep", ctx.tmp / "log") as srv:
        remote, path = at(cfg, ctx, srv.url, "clean")
        synth.run_tracking(remote, path)
        total = len(srv.requests())
        for k in range(1, total + 1, case["every"]):
            c, path = at(cfg, ctx, srv.url, f"k{k}")
            what = (f"request {k} of {total}{'' if case['once'] else ' and all later ones'}: "
                    f"{case['fault']}")
            srv.plan(case["fault"], k, k if case["once"] else 10 ** 9)
            err = None
            try:
                synth.run_tracking(c, path)
            except Exception as e:
                err = e
            ctx.count("evaluations")
            ctx.count("failed", err is not None)
            ctx.state(sorted(case.items(), key=str), k)
            srv.plan()
            req = srv.requests()
            got = synth.outputs(c)
            if not compare(ctx, what, want, got, partial=err is not None):
                return
            if err is not None and any(name not in days for _, name in req):
                ctx.fail(f"{what}: asked for {sorted({n for _, n in req} - days)}")
                return
            # the next run in this process is undisturbed
            synth.run_tracking(c, path)
            srv.requests()
            if not compare(ctx, what + ", run again", want, synth.outputs(c)):
                return
    ctx.sample(case)
