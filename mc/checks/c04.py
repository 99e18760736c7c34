"""C04: periodic runs do not depend on where the grid starts; edges remove water."""
import cftime
import netCDF4
import numpy as np

from mc import ref, scen, synth, wam
from mc.checks import c28

ID = "C04"
LEVEL = "exploration"
RULE = ("(a) for every direction, weather combination and grid: the run on the input rotated "
        "by every possible number of columns (with the coordinates kept and the mask rotated, "
        "and with the coordinates rotated and the box kept) against the unrotated run, at "
        "every output; (b) one real step from tracked water in one single cell, for every "
        "cell, wind, direction and boundary type: edges empty afterwards and the removed "
        "water reported there. An evaluation is one compared output or stepped cell, "
        "distinct = distinct rotated states or cell/wind combinations")
ASSUMPTIONS = ["a periodic domain covers all longitudes with at least three columns"]
preload = wam.preload


def cases(tier):
    if tier == "quick":
        a = scen.product(kind=["rotate"], direction=["forward", "backward"],
                         wind=["patchy", "gale", "wave"], store=["gradient", "thin_upper"],
                         rain=["both"], grid=["ring"], nx=[9], how=["mask", "coords"])
        b = scen.product(kind=["edge"], direction=["forward", "backward"],
                         periodic=[False, True],
                         wind=["calm", "east", "west", "north", "southwest"], row=[0, 1, 2])
    else:
        a = scen.product(kind=["rotate"], direction=["forward", "backward"],
                         wind=scen.WINDS, store=scen.STORES, rain=["both", "cloudburst"],
                         grid=["ring"], nx=[9], how=["mask", "coords"])
        a += scen.product(kind=["rotate"], direction=["forward", "backward"],
                          wind=["patchy", "vortex"], store=["flicker"], rain=["both"],
                          grid=["ring"], nx=[3, 4, 5, 18], how=["mask", "coords"])
        b = scen.product(kind=["edge"], direction=["forward", "backward"],
                         periodic=[False, True], wind=scen.WINDS, row=range(5))
    return a + b


def run_case(case, ctx):
    (rotate if case["kind"] == "rotate" else edge)(case, ctx)


def rotate(case, ctx):
    nx, nt = case["nx"], 5
    lat = scen.grid("ring")[0]
    lon = -180.0 + 360.0 / nx * np.arange(nx)
    scale = scen.flux_scale(lat, lon)
    fields = scen.make_fields(case["wind"], case["store"], case["rain"], nt, len(lat), nx,
                              scale)
    mask = np.zeros((len(lat), nx))
    mask[1:-1, : max(2, nx // 3)] = 1.0
    if case["how"] == "mask":
        mask[2, 0] = 0.25
    times = synth.hours(synth.T(2021, 7, 1, 21), nt)
    base = None
    for k in range(nx):
        root = ctx.tmp / f"r{k}"
        roll = lambda a: np.roll(a, k, axis=-1)
        f = {n: roll(v) for n, v in fields.items()}
        x = lon if case["how"] == "mask" else np.roll(lon, k)
        synth.write_prep(root / "prep", times, lat, x, f)
        (root / "out").mkdir()
        if case["how"] == "mask":
            region = root / "mask.nc"
            write_mask(region, lat, x, roll(mask))
            region = str(region)
        else:
            region = [float(lon[0]), float(lat[-2]), float(lon[max(2, nx // 3) - 1]),
                      float(lat[1])]
        cfg = synth.base_config(
            root, tracking_direction=case["direction"], periodic_boundary=True,
            tagging_region=region, tracking_start_date=times[0],
            tracking_end_date=times[-1], tagging_start_date=times[0],
            tagging_end_date=times[-1], output_frequency="2h")
        synth.run_tracking(cfg)
        outs = synth.ordered(cfg)
        if base is None:
            base = outs
            if not any(np.any(o["s_track_lower_restart"] > 0) for _, o in outs):
                ctx.fail("no water was tracked at all")
            continue
        if [n for n, _ in outs] != [n for n, _ in base]:
            ctx.fail(f"rotation by {k} changes the output files")
            continue
        for (n, b), (_, o) in zip(base, outs):
            ctx.count("evaluations")
            for v, want in b.items():
                if not (isinstance(want, np.ndarray) and want.shape == (len(lat), nx)):
                    continue
                want = roll(want)
                tol = 2e-5 * max(np.max(np.abs(want)), 1e-6)
                if v in ("losses", "gains"):
                    tol = 2e-5 * max(np.max(b["s_track_upper_restart"]), np.max(
                        b["s_track_lower_restart"]), np.max(want), 1e-6)
                if not np.all(np.abs(o[v] - want) <= tol):
                    ctx.fail(f"{n}: rotating the input by {k} of {nx} columns changes {v} by "
                             f"{np.nanmax(np.abs(o[v] - want)):.4g} (largest value "
                             f"{np.max(np.abs(want)):.4g})")
                    return
            ctx.state_arrays(o["s_track_upper_restart"].astype("f4"),
                             o["s_track_lower_restart"].astype("f4"))
    ctx.sample({**case, "rotations": nx - 1, "outputs": [n for n, _ in base]})


def write_mask(path, lat, lon, mask, times=None):
    with netCDF4.Dataset(path, "w") as nc:
        for n, v in (("latitude", lat), ("longitude", lon)):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        dims = ("latitude", "longitude")
        if times is not None:
            nc.createDimension("time", len(times))
            x = nc.createVariable("time", "i8", ("time",))
            x.units, x.calendar = synth.EPOCH, "standard"
            x[:] = cftime.date2num(times, synth.EPOCH, "standard")
            dims = ("time",) + dims
        nc.createVariable("tagging_region", "f8", dims)[:] = mask


def edge(case, ctx):
    """Every cell of one row holds the only tracked water, for one step."""
    per, j = case["periodic"], case["row"]
    lat = np.arange(50.0, 45.0, -1.0)
    lon = -180 + 60.0 * np.arange(6) if per else np.arange(0.0, 6.0)
    shape = (len(lat), len(lon))
    scale = scen.flux_scale(lat, lon)
    f = scen.make_fields(case["wind"], "steady", "none", 2, *shape, scale * 0.5)
    em = ref.edge_mask(shape, per)
    area = ref.geometry(lat, lon)[0][:, None]
    for i in range(len(lon)):
        u, l = np.zeros(shape), np.zeros(shape)
        u[j, i], l[j, i] = 4.0, 3.0
        o, cfg = synth.one_step(ctx.tmp / str(i), lat, lon, f, (u, l), case["direction"],
                                periodic=per)
        su, sl = o["s_track_upper_restart"], o["s_track_lower_restart"]
        ctx.count("evaluations")
        ctx.state(case["direction"], per, case["wind"], j, i)
        what = f"water in cell {(j, i)} of {shape}, {'periodic' if per else 'open'}"
        if np.any(su[em]) or np.any(sl[em]):
            ctx.fail(f"{what}: tracked water is left in edge cells")
        if np.any(np.abs(o["losses"][~em]) > 1e-6):
            ctx.fail(f"{what}: losses inside the domain")
        tot = float(np.sum((su + sl + o["losses"]) * area))
        want = float(np.sum((u + l) * area))
        if not abs(tot - want) < 1e-5 * want:
            ctx.fail(f"{what}: {want:.6g} kg before the step, {tot:.6g} kg tracked or lost "
                     "after it")
        # exact content of every cell
        m = ref.Model(lat, lon, case["direction"], 3600, 3, per, "balance",
                      {"upper": u, "lower": l})
        F = {n: np.asarray(f[n][0], float) for n in ("fx_upper", "fy_upper", "fx_lower",
                                                     "fy_lower", "precip", "evap")}
        S = {"upper": f["s_upper"][0], "lower": f["s_lower"][0]}
        m.step(F, S, S, 0.0)
        s = m.snapshot()
        for k in ("s_track_upper_restart", "s_track_lower_restart", "losses"):
            if not np.all(np.abs(o[k] - s[k]) < 2e-5 * 7):
                ctx.fail(f"{what}: {k} is {np.round(o[k], 4).tolist()}, expected "
                         f"{np.round(s[k], 4).tolist()}")
    ctx.sample(case)
