"""C33: preprocessed files describe themselves correctly."""
import itertools
import shutil
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from mc import prep, synth, wam

ID = "C33"
LEVEL = "exploration"
RULE = ("all combinations of source and level type, calendar (where the source has several), "
        "number of days and times per day, sequential or parallel processing, direction of "
        "the latitudes, longitude convention and content of the output folder from the "
        "alphabets; every attribute, coordinate and bound of every file is compared with the "
        "one the input and configuration imply; an evaluation is one variable of one file; "
        "distinct = distinct combination and file")
ASSUMPTIONS = ["regularly spaced grids with at least two rows and columns",
               "no source or title is required for CMIP data, whose model is unknown"]
CASE_TIMEOUT = 600

UNITS = {"fx_upper": "kg m-1 s-1", "fy_upper": "kg m-1 s-1", "fx_lower": "kg m-1 s-1",
         "fy_lower": "kg m-1 s-1", "s_upper": "kg m-2", "s_lower": "kg m-2",
         "evap": "kg m-2 s-1", "precip": "kg m-2 s-1", "latitude": "degrees_north",
         "longitude": "degrees_east"}
WORDS = {"fx_upper": ["eastward", "upper"], "fx_lower": ["eastward", "lower"],
         "fy_upper": ["northward", "upper"], "fy_lower": ["northward", "lower"],
         "s_upper": ["upper"], "s_lower": ["lower"],
         "evap": ["from the surface"], "precip": ["to the surface"]}
SOURCES = ["ERA5 pressure_levels", "ERA5 model_levels", "CMIP pressure_levels",
           "ARCO pressure_levels"]
TITLES = {"ERA5": ["ERA5"], "ARCO": ["ARCO-ERA5"]}


def preload():
    wam.preload()
    wam.need("preprocessing.shared")
    import tempfile

    for s in SOURCES:
        root = Path(tempfile.mkdtemp())
        cfg, src, arco = make(s, root, "proleptic_gregorian", 1, 2, True, [1.0, 2.0])
        prep.warm(lambda: (prep.with_arco(arco, lambda: prep.run(cfg, src))
                           if arco is not None else prep.run(cfg, src)))
        shutil.rmtree(root)


LONS = {"west": [-10.0, -7.5, -5.0], "east": [350.0, 352.5, 355.0], "across": [355.0, 357.5,
        0.0, 2.5], "dateline": [175.0, 177.5, 180.0, 182.5], "global": list(np.arange(0, 360, 45.0))}


def cases(tier):
    out = []
    for s in SOURCES:
        cals = ["proleptic_gregorian"] if s.startswith("ARCO") else \
            ["standard", "noleap", "360_day"] if s.startswith("CMIP") else \
            ["standard", "proleptic_gregorian"]
        if not s.startswith("CMIP"):
            for k in (1, 3):
                out.append(dict(source=s, cal=cals[-1], days=(2, k), down=True,
                                lons=["west"], half_hours=2 * k + 1))
        if tier == "quick":
            combos = itertools.product(cals, [(1, 1), (2, 3), (3, 1)], [True, False])
        else:
            combos = itertools.product(cals, [(1, 1), (1, 4), (2, 3), (3, 1), (3, 4), (9, 2)],
                                       [True, False])
        for n, (cal, days, down) in enumerate(combos):
            names = list(LONS)
            lons = names if tier != "quick" else [names[(n + len(out)) % 5]]
            out.append(dict(source=s, cal=cal, days=days, down=down, lons=lons))
    return out


def make(source, root, cal, ndays, per_day, down, lon, half_hours=0, **kw):
    src, lt = source.split()
    step = 6
    lat = np.array([50.0, 48.5, 47.0])
    lat = lat if down else lat[::-1]
    lon = np.asarray(lon)
    times = []
    for d in range(ndays):
        t0 = synth.T(2021, 2, 27, 0, cal=cal)
        day = synth.hours(t0, ndays + 1, 24)[d]
        times += synth.hours(day, 4, step)
    times = times[4 - per_day if ndays > 1 else 0:]  # first day may start late
    if ndays == 1:
        times = times[:per_day]
    if half_hours:
        times = synth.hours(synth.T(2021, 2, 27, 22, 30, cal=cal), half_hours, 0.5)
    n, ny, nx = len(times), len(lat), len(lon)
    r = np.random.RandomState(5).rand(n, ny, nx)
    four = np.stack([r, 1 + r], axis=1)
    lev = [100, 120] if lt == "model_levels" else [500, 850]
    f = dict(q=0.004 * four, u=5 * four - 6, v=3 - 4 * four, sp=9.9e4 + 1e3 * r)
    c = dict(input_frequency="30min" if half_hours else "6h", level_type=lt, levels=lev, calendar=cal, **kw)
    arco, tpl = None, "unused"
    if src == "CMIP":
        t6 = synth.hours(synth.T(2021, 2, 27, 6, cal=cal), 4 * ndays + 1, 6)
        t3 = synth.hours(synth.T(2021, 2, 27, 1, 30, cal=cal), 8 * ndays + 2, 3)
        times = [t for t in t6 if t >= times[0] and t <= times[-1]] or t6[:1]
        m = len(t6)
        r = np.random.RandomState(6).rand(m, ny, nx)
        four = np.stack([r, 1 + r], axis=1)
        f = dict(q=0.004 * four, u=5 * four - 6, v=3 - 4 * four, sp=9.9e4 + 1e3 * r,
                 qs=0.01 + 0 * r, us=r, vs=-r)
        r3 = np.random.RandomState(7).rand(2 * m, ny, nx)
        f.update(pr=1e-4 * r3, hfls=100 * r3 - 20)
        tpl = prep.write_cmip(root / "in", t6, t3, lat, lon, [85000.0, 50000.0], f, cal=cal)
        c["levels"] = "all"
    else:
        f.update(tp=1e-3 * r, e=-5e-4 * r + 1e-4, tcw=15 + r)
        if lt == "pressure_levels":
            f.update(d2m=280 + r, u10=r, v10=-r)
        if src == "ERA5":
            tpl = prep.write_era5(root / "in", times, lat, lon, lt, lev, f, cal=cal)
        else:
            arco = prep.arco_dataset(times, lat, lon, lev, f)
    cfg = prep.config(root, tpl, times[0], times[-1], **c)
    cfg["_times"] = times
    return cfg, src, arco


def check_file(ctx, what, path, src, cal, times, lat, lon):
    bad = lambda m: ctx.fail(f"{what}, {path.name}: {m}")
    with netCDF4.Dataset(path) as nc:
        for v in UNITS:
            ctx.count("evaluations")
            if v not in nc.variables:
                return bad(f"{v} is missing")
            x = nc.variables[v]
            if getattr(x, "units", None) != UNITS[v]:
                return bad(f"{v} has units {getattr(x, 'units', None)!r}, not {UNITS[v]!r}")
            name = getattr(x, "long_name", "")
            for w in WORDS.get(v, []):
                if w not in name:
                    return bad(f"{v} is named {name!r}")
            if v in WORDS:
                if x.dimensions != ("time", "latitude", "longitude"):
                    return bad(f"{v} has dimensions {x.dimensions}")
                d = x[:]
                if np.ma.count_masked(d) or not np.all(np.isfinite(d)):
                    return bad(f"{v} has missing values")
        la, lo = np.array(nc["latitude"][:]), np.array(nc["longitude"][:])
        want = np.sort((np.asarray(lon) + 180) % 360 - 180)
        if not (np.allclose(la, lat) and np.allclose(lo, want)):
            return bad(f"coordinates {la} {lo}")
        for n, c, h in (("latitude", la, 0.75), ("longitude", lo, (lon[1] - lon[0]) % 360 / 2)):
            b = nc.variables.get(n + "_bnds")
            if b is None or b.shape != (len(c), 2):
                return bad(f"{n} bounds are missing")
            # half a cell on both sides, in either order
            s = np.sort(np.array(b[:]), axis=1)
            if not (np.allclose(s[:, 0], c - h) and np.allclose(s[:, 1], c + h)):
                return bad(f"{n} bounds {s.tolist()} of {c}")
            if getattr(b, "units", UNITS[n]) != UNITS[n]:
                return bad(f"{n} bounds have units {b.units!r}")
        t = nc.variables["time"]
        if getattr(t, "calendar", "standard") not in \
                ([cal] + (["gregorian"] if cal == "standard" else [])):
            return bad(f"calendar {getattr(t, 'calendar', None)}, the input has {cal}")
        got = [x.strftime("%Y-%m-%dT%H:%M:%S") for x in
               np.atleast_1d(cftime.num2date(t[:], t.units, getattr(t, "calendar",
                                                                    "standard")))]
        if got != [x.strftime("%Y-%m-%dT%H:%M:%S") for x in times]:
            return bad(f"times {got}")
        for a in ("title", "source", "history", "references", "Conventions"):
            if src in TITLES and not getattr(nc, a, ""):
                return bad(f"no {a}")
        if src in TITLES:
            for w in TITLES[src]:
                if w not in nc.title or w not in nc.source:
                    return bad(f"title {nc.title!r}, source {nc.source!r}")
            if src == "ERA5" and "ARCO" in nc.title + nc.source:
                return bad("claims to be ARCO-ERA5")
            import wam2layers

            if wam2layers.__version__ not in nc.history:
                return bad(f"history {nc.history!r} lacks the version")
    return True


def run_case(case, ctx):
    src = case["source"].split()[0]
    ndays, per_day = case["days"]
    for lname in case["lons"]:
        lon = LONS[lname]
        for par, again in [(False, False), (True, False), (False, True)]:
            root = ctx.tmp / f"{lname}{par}{again}"
            kw = dict(parallel_preprocess=True, parallel_processes=2) if par else {}
            cfg, _, arco = make(case["source"], root, case["cal"], ndays, per_day,
                                case["down"], lon, case.get("half_hours", 0), **kw)
            times = cfg.pop("_times")
            if par and arco is not None:
                continue  # the stand-in of the store lives in one process
            what = (f"{case['source']}, {case['cal']}, {ndays} days, {lname}"
                    + ", half-hourly" * ("half_hours" in case)
                    + ", parallel" * par + ", repeated" * again)
            try:
                for _ in range(1 + again):
                    if arco is not None:
                        prep.in_child(prep.with_arco, arco, lambda: prep.run(cfg, src))
                    else:
                        prep.in_child(prep.run, cfg, src)
            except RuntimeError as e:
                ctx.fail(f"{what}: preprocessing failed", error=str(e)[-500:])
                return
            days = {}
            for t in times:
                days.setdefault(t.strftime("%Y-%m-%d"), []).append(t)
            files = sorted(Path(cfg["preprocessed_data_folder"]).glob("*.nc"))
            if [p.name for p in files] != [f"{d}_fluxes_storages.nc" for d in days]:
                ctx.fail(f"{what}: files {[p.name for p in files]}")
                return
            lat = np.array([50.0, 48.5, 47.0])
            for p, (d, tt) in zip(files, days.items()):
                ctx.state(what, d)
                if not check_file(ctx, what, p, src, case["cal"], tt,
                                  lat if case["down"] else lat[::-1], lon):
                    return
            shutil.rmtree(root)
    ctx.sample({"what": what, "files": [p.name for p in files]})
