"""C10: water is tagged exactly in the tagging region and period."""
import datetime as dtm
import itertools

import cftime
import netCDF4
import numpy as np

from mc import ref, scen, synth, wam
from mc.checks import c28

ID = "C10"
LEVEL = "exploration"
RULE = ("(a) every bounding box over bounds on, between and outside the grid lines, also "
        "crossing the antimeridian, for one real step per box; (b) every pair of tagging "
        "dates over the step times and their neighbours, for a complete run; (c) fixed and "
        "time-varying mask files with every offset of the mask times; (d) every layout of a "
        "mask file (order of dimensions, rows and columns, missing rows, wider extent, other "
        "precision) gives the same result or an error. An evaluation is one "
        "run with every tagged field compared; distinct = distinct boxes, windows, masks")
ASSUMPTIONS = ["a step starts where tracking reaches it first: the later end when backward",
               "mask times are compared where the nearest one is unique",
               "bounding boxes with west = east are not used"]
preload = wam.preload
LON = [-180.0, -140.0, -150.0, -141.0, 20.0, 45.0, 60.0, 140.0, 139.5, 180.0]
LAT = [-80.0, -40.0, -39.0, 0.0, 20.0, 25.0, 60.0, 80.0]


def cases(tier):
    out = []
    lats = [(-40.0, 20.0), (-39.0, 25.0), (0.0, 80.0)]
    if tier != "quick":
        lats = [(s, n) for s, n in itertools.combinations(sorted(LAT), 2)]
    for d in ("forward", "backward"):
        for k, w in enumerate(LON):
            out.append(dict(kind="boxes", direction=d, west=w,
                            lats=lats[k % 3:][:1] if tier == "quick" else lats))
        starts = range(-1, 8) if tier == "quick" else range(-2, 10)
        for a in starts:
            out.append(dict(kind="windows", direction=d, start=a, dt=3600,
                            ends=[e for e in starts if e >= a]))
            if tier != "quick":
                out.append(dict(kind="windows", direction=d, start=a, dt=1800,
                                ends=[e for e in starts if e >= a]))
        for cal in ["standard", "360_day"] if tier == "quick" else [
                "standard", "noleap", "360_day", "julian", "all_leap",
                "proleptic_gregorian"]:
            for off in (-50, 0, 20, 40):
                for domain in (None, [-1, 45.5, 5, 50.5]):
                    out.append(dict(kind="masks", direction=d, calendar=cal, offset=off,
                                    domain=domain))
        for g in ("square", "mid"):
            for domain in (None, [-1, 45.5, 5, 50.5]):
                for v in (False, True):
                    out.append(dict(kind="layouts", direction=d, grid=g, domain=domain,
                                    varying=v))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def boxes(case, ctx):
    lat, lon = scen.grid("ring")
    shape = (len(lat), len(lon))
    j, i = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    f = scen.make_fields("calm", "steady", "none", 2, *shape)
    rate = 1e-5 * (1 + i + 10 * j)
    f["precip"] = np.stack([rate, 3 * rate])
    f["evap"] = np.stack([2 * rate, 4 * rate])
    z = np.zeros(shape)
    back = case["direction"] == "backward"
    for n, (e, (s, nn)) in enumerate(itertools.product(LON, case["lats"])):
        if e == case["west"]:
            continue
        box = [case["west"], s, e, nn]
        o, cfg = synth.one_step(ctx.tmp / str(n), lat, lon, f, (z, z), case["direction"],
                                tag=box)
        mask = ref.bbox_mask(box, lat, lon)
        want = 3600 * mask * (2 * rate if back else 3 * rate)
        got = o["tagged_precip" if back else "tagged_evap"]
        ctx.count("evaluations")
        ctx.state(case["direction"], tuple(box))
        if not np.all(np.abs(got - want) < 1e-6 * np.max(want + 1e-9)):
            bad = np.argwhere(~(np.abs(got - want) < 1e-6 * np.max(want + 1e-9)))
            jj, ii = bad[0]
            ctx.fail(f"box {box}: cell at {lat[jj]}N {lon[ii]}E has {got[jj, ii]:.6g} tagged, "
                     f"expected {want[jj, ii]:.6g}")
            return
        inside = mask * ~ref.edge_mask(shape, False)
        st = o["s_track_upper_restart"] + o["s_track_lower_restart"]
        if not np.array_equal(st > 0, inside > 0):
            ctx.fail(f"box {box}: tracked water where none was tagged, or none where it was")
    ctx.sample({"box": box, **case})


def windows(case, ctx):
    """Window bounds are half-hours counted from the start of tracking."""
    c = dict(direction=case["direction"], periodic=False, wind="shear", store="flicker",
             rain="both", grid="small", dt=case["dt"])
    cfg, data, kw = c28.setup(c, ctx, nt=4, output_frequency="1h")
    kw["out_seconds"] = 3600
    back = case["direction"] == "backward"
    kw["mask"] = m = ref.bbox_mask([1, 47, 3, 49], data.lat, data.lon)
    cfg["tagging_region"] = [1, 47, 3, 49]
    t0 = data.times[0]
    for e in case["ends"]:
        a, b = (t0 + dtm.timedelta(minutes=30 * x) for x in (case["start"], e))
        cfg["tagging_start_date"], cfg["tagging_end_date"] = synth.iso(a), synth.iso(b)
        (ctx.tmp / f"out{e}").mkdir()
        cfg["output_folder"] = str(ctx.tmp / f"out{e}")
        synth.run_tracking(cfg, str(ctx.tmp / "config.yaml"))
        kw["tag_start"], kw["tag_end"] = a, b
        want, _ = ref.run(data, **kw)
        check(ctx, case, f"window {synth.iso(a)} to {synth.iso(b)}", want,
              synth.ordered(cfg), back)
        ctx.state(case["direction"], case["dt"], case["start"], e)
    ctx.sample(case)


def check(ctx, case, what, want, got, back):
    ctx.count("evaluations")
    tag = "tagged_precip" if back else "tagged_evap"
    if len(want) != len(got):
        ctx.fail(f"{what}: {len(got)} outputs instead of {len(want)}")
        return
    tagged = False
    for (t, w), (n, o) in zip(want, got):
        if not np.all(np.abs(o[tag] - w[tag]) <= 1e-5 * max(np.max(w[tag]), 1e-3)):
            bad = np.unravel_index(np.nanargmax(np.abs(o[tag] - w[tag])), w[tag].shape)
            ctx.fail(f"{what}: {tag} in {n} is {o[tag][bad]:.6g} in cell {bad}, the sum over "
                     f"the steps in the tagging period is {w[tag][bad]:.6g}")
            return
        tagged = tagged or np.any(w[tag] > 0)
        st = o["s_track_upper_restart"] + o["s_track_lower_restart"]
        if not tagged and (np.any(st != 0) or np.any(o["losses"] != 0)
                           or np.any(o["gains"] != 0)):
            ctx.fail(f"{what}: tracked water in {n} before any was tagged")
            return


def masks(case, ctx):
    cal = case["calendar"]
    lat, lon = scen.grid("mid")
    nt = 6
    times = synth.hours(synth.T(2021, 2, 28, 21, cal=cal), nt)
    f = scen.make_fields("shear", "flicker", "both", nt, len(lat), len(lon))
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f, calendar=cal)
    jj, ii = slice(None), slice(None)
    if case["domain"]:
        w, s, e, n = case["domain"]
        jj = np.flatnonzero((lat >= s) & (lat <= n))
        ii = np.flatnonzero((lon >= w) & (lon <= e))
    data = ref.Data(times, lat, lon, f)
    if case["domain"]:
        data = data.select(ii, jj)
    j, i = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
    base = np.round(((3 * i + 5 * j) % 8) / 7.0, 3)
    back = case["direction"] == "backward"
    mtimes = [times[0] + dtm.timedelta(minutes=case["offset"] + m) for m in (0, 130, 255)]
    stack = np.stack([base, 1 - base, 0.5 * base[::-1]])
    for k, kind in enumerate(("fixed", "varying")):
        path = ctx.tmp / f"mask_{kind}.nc"
        with netCDF4.Dataset(path, "w") as nc:
            for n, v in (("latitude", lat), ("longitude", lon)):
                nc.createDimension(n, len(v))
                nc.createVariable(n, "f8", (n,))[:] = v
            if kind == "fixed":
                nc.createVariable("m", "f8", ("latitude", "longitude"))[:] = base
            else:
                nc.createDimension("time", 3)
                x = nc.createVariable("time", "i8", ("time",))
                x.units, x.calendar = synth.EPOCH, cal
                x[:] = cftime.date2num(mtimes, synth.EPOCH, cal)
                nc.createVariable("m", "f8", ("time", "latitude", "longitude"))[:] = stack

        def at(t):
            if kind == "fixed":
                return base[jj][:, ii]
            d = [abs((t - q).total_seconds()) for q in mtimes]
            assert sorted(d)[0] != sorted(d)[1]
            return stack[int(np.argmin(d))][jj][:, ii]

        (ctx.tmp / f"out{k}").mkdir()
        cfg = synth.base_config(
            ctx.tmp, calendar=cal, tracking_direction=case["direction"],
            tagging_region=str(path), tracking_domain=case["domain"],
            output_folder=ctx.tmp / f"out{k}", output_frequency="1h",
            tracking_start_date=times[0], tracking_end_date=times[-1],
            tagging_start_date=times[0], tagging_end_date=times[-1],
            preprocess_start_date=times[0], preprocess_end_date=times[-1])
        synth.run_tracking(cfg, str(ctx.tmp / "config.yaml"))
        want, _ = ref.run(data, direction=case["direction"], start=times[0],
                          end=times[-1], tag_start=times[0], tag_end=times[-1], dt=3600,
                          out_seconds=3600, kvf=3, periodic=False, mask=at)
        check(ctx, case, f"{kind} mask", want, synth.ordered(cfg), back)
        ctx.state(case["direction"], cal, case["offset"], str(case["domain"]), kind)
    ctx.sample(case)


def layouts(case, ctx):
    """The same mask written in other ways; whatever runs must give the same result."""
    import xarray as xr

    lat, lon = scen.grid("mid")
    if case["grid"] == "square":
        lat, lon = lat[:7], lon[:7]
    nt = 4
    times = synth.hours(synth.T(2021, 2, 28, 22), nt)
    f = scen.make_fields("shear", "flicker", "both", nt, len(lat), len(lon))
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f)
    j, i = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
    base = np.round(((3 * i + 5 * j) % 8) / 7.0, 3)
    dims = ("latitude", "longitude")
    m = xr.DataArray(base, dims=dims, coords=dict(latitude=lat, longitude=lon), name="m")
    if case["varying"]:
        m = xr.concat([m, 1 - m, 0.5 * m], "time").assign_coords(
            time=[np.datetime64(synth.iso(t)) for t in times[:3]])
    wide = m.pad(latitude=1, longitude=1, constant_values=0).assign_coords(
        latitude=lat[0] - (lat[1] - lat[0]) * np.arange(1.0, -len(lat) - 1, -1),
        longitude=lon[0] + (lon[1] - lon[0]) * np.arange(-1.0, len(lon) + 1))
    how = {
        "canonical": m,
        "other name": m.rename("region"),
        "single precision": m.astype("f4"),
        "single precision coordinates": m.assign_coords(
            latitude=lat.astype("f4"), longitude=lon.astype("f4")),
        "south to north": m.isel(latitude=slice(None, None, -1)),
        "east to west": m.isel(longitude=slice(None, None, -1)),
        "longitude first": m.transpose(..., "longitude", "latitude"),
        "reversed dimensions": m.transpose(),
        "space first": m.transpose("latitude", "longitude", ...),
        "longitudes from 0": m.assign_coords(longitude=lon % 360).sortby("longitude"),
        "rolled": m.roll(longitude=2, roll_coords=True),
        "wider": wide,
        "without first row": m.isel(latitude=slice(1, None)),
        "without last column": m.isel(longitude=slice(None, -1)),
        "longitude first, south to north": m.isel(
            latitude=slice(None, None, -1)).transpose(..., "longitude", "latitude"),
        "shifted": m.assign_coords(latitude=lat + 0.3),
    }
    if case["varying"]:
        how["one time"] = m.isel(time=[0])
        how["times reversed"] = m.isel(time=[2, 1, 0])
    want, ran = None, []
    for n, (name, a) in enumerate(how.items()):
        a.to_netcdf(ctx.tmp / f"{n}.nc")
        (ctx.tmp / f"out{n}").mkdir()
        cfg = synth.base_config(
            ctx.tmp, tracking_direction=case["direction"], tracking_domain=case["domain"],
            tagging_region=str(ctx.tmp / f"{n}.nc"), output_folder=ctx.tmp / f"out{n}",
            output_frequency="1h", tracking_start_date=times[0],
            tracking_end_date=times[-1], tagging_start_date=times[0],
            tagging_end_date=times[-1], preprocess_start_date=times[0],
            preprocess_end_date=times[-1])
        ctx.count("evaluations")
        ctx.state(case["direction"], case["grid"], str(case["domain"]), case["varying"], name)
        try:
            synth.run_tracking(cfg, str(ctx.tmp / "config.yaml"))
        except Exception as e:
            if name == "canonical":
                raise
            ctx.count("rejected")
            continue
        got = synth.ordered(cfg)
        if want is None:
            want = got
        ran.append(name)
        if name == "one time":
            continue
        w = want
        if name in ("without first row", "without last column", "shifted"):
            # no value for some of the cells: an error, or nothing tagged in them
            continue
        if len(w) != len(got):
            ctx.fail(f"mask layout '{name}': {len(got)} outputs instead of {len(w)}")
            return
        for (n1, x), (n2, y) in zip(w, got):
            for v in x:
                if isinstance(x[v], np.ndarray) and x[v].dtype.kind == "f" and not (
                        x[v].shape == y[v].shape
                        and np.allclose(x[v], y[v], rtol=1e-5, atol=1e-6)):
                    ctx.fail(f"mask layout '{name}': {v} in {n2} differs from the run with "
                             "the same mask in the layout of the data")
                    return
    ctx.sample({"ran": ran, **case})
