"""C11: a subdomain holds exactly the cells inside its bounds, in order."""
import itertools

import numpy as np

from mc import ref, scen, synth, wam

ID = "C11"
LEVEL = "exploration"
RULE = ("(a) every box over the listed bounds on every listed grid through the selection "
        "routine; (b) complete runs with a subdomain against runs on input cut beforehand; "
        "an evaluation is one box or run; distinct = distinct non-empty selections")
ASSUMPTIONS = ["latitudes decrease and longitudes increase in preprocessed data",
               "boxes with west = east are not used",
               "a box across the antimeridian on a grid that does not go round the globe "
               "selects cells on one side only"]
preload = wam.preload

GRIDS = {  # lat, lon
    "global30": (np.arange(90.0, -91.0, -30.0), np.arange(-180.0, 180.0, 30.0)),
    "centred": (np.arange(75.0, -76.0, -30.0), np.arange(-165.0, 180.0, 30.0)),
    "dateline": (np.arange(60.0, -61.0, -20.0), np.arange(-140.0, 181.0, 40.0)),
    "fine": (np.arange(10.0, -10.1, -2.5), np.arange(-180.0, 180.0, 22.5)),
    "east": (np.arange(50.0, 29.0, -5.0), np.arange(100.0, 181.0, 10.0)),
    "west": (np.arange(50.0, 29.0, -5.0), np.arange(-180.0, -99.0, 10.0)),
    "middle": (np.arange(50.0, 29.0, -5.0), np.arange(-20.0, 31.0, 10.0)),
}


def bounds(lon, lat, tier):
    """On, next to and between grid lines, and the extremes."""
    d = abs(lon[1] - lon[0])
    ks = range(len(lon)) if tier != "quick" else sorted(
        {0, 1, len(lon) // 2, len(lon) - 2, len(lon) - 1})
    w = {-180.0, 180.0, 0.0}
    for k in ks:
        w |= {lon[k], lon[k] + d / 2, lon[k] - 0.001, lon[k] + 0.001}
    w = sorted(x for x in w if -180 <= x <= 180)
    dl = abs(lat[1] - lat[0])
    s = sorted({-80.0, lat[-2], lat[len(lat) // 2], lat[len(lat) // 2] + dl / 2, lat[1],
                80.0, lat[0] + 0.1, lat[-1] - 0.1})
    s = [x for x in s if -80 <= x <= 80]
    return w, (s if tier != "quick" else sorted({s[0], s[-1], lat[1], lat[-2], s[3]}))


def cases(tier):
    out = [dict(kind="select", grid=g, part=p, parts=4) for g in GRIDS for p in range(4)]
    for c in out:
        c["tier"] = tier
    boxes = [[-60.0, -40.0, 60.0, 40.0], [100.0, -40.0, -60.0, 40.0],
             [60.0, -60.0, -100.0, 20.0], [-140.0, -20.0, 140.0, 60.0],
             [100.0, -40.0, 20.0, 60.0], [-179.0, -60.0, 60.0, 60.0]]
    for d in ("forward", "backward"):
        for b in boxes if tier == "quick" else boxes + [
                [w, -40.0, e, 60.0] for w in (-180, -100, -21, 60, 101, 140)
                for e in (-140, -60, 20, 99, 180) if (e - w) % 360 >= 80]:
            for m in ("box", "fixed", "varying"):
                out.append(dict(kind="run", direction=d, box=b, mask=m))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def expected(box, lat, lon):
    """Row and column indices of the cells inside; columns west to east."""
    w, s, e, n = box
    jj = np.flatnonzero((lat >= s) & (lat <= n))
    if w < e:
        ii = np.flatnonzero((lon >= w) & (lon <= e))
    else:
        ii = np.concatenate([np.flatnonzero(lon >= w), np.flatnonzero(lon <= e)])
        ii = np.array(list(dict.fromkeys(ii.tolist())), int)
    return jj, ii


def is_ring(lon):
    d = abs(lon[1] - lon[0])
    return abs(d * len(lon) - 360) < 1e-9


def select(case, ctx):
    import xarray as xr

    fn = wam.need("tracking.io", "select_subdomain")
    lat, lon = GRIDS[case["grid"]]
    shape = (2, len(lat), len(lon))
    vals = np.arange(np.prod(shape), dtype=float).reshape(shape)
    ds = xr.Dataset({"p": (("time", "latitude", "longitude"), vals),
                     "e": (("latitude", "longitude"), -vals[0])},
                    coords={"time": [0, 1], "latitude": lat, "longitude": lon})
    ws, ss = bounds(lon, lat, case["tier"])
    pairs = [(w, e) for w, e in itertools.product(ws, ws) if w != e]
    for w, e in pairs[case["part"]:: case["parts"]]:
        for s, n in itertools.combinations(ss, 2):
            box = (w, s, e, n)
            jj, ii = expected(box, lat, lon)
            if w > e and not is_ring(lon):
                both = np.any(lon >= w) and np.any(lon <= e)
                if both:
                    continue
            ctx.count("evaluations")
            for x in (ds, ds["p"]):
                got = fn(x, ", ".join(str(q) for q in box))
                p = got["p"] if x is ds else got
                glon, glat = got["longitude"].values, got["latitude"].values
                if len(jj) == 0 or len(ii) == 0:
                    if p.size:
                        ctx.fail(f"{case['grid']}, box {box}: selects {p.shape} cells, "
                                 "none is inside")
                        return
                    continue
                want = ii
                if len(ii) == len(lon) and is_ring(lon):  # any start will do
                    k = np.flatnonzero(lon == glon[0]) if len(glon) else []
                    if len(k) == 1:
                        want = np.roll(np.arange(len(lon)), -k[0])
                ok = (np.array_equal(glon, lon[want]) and np.array_equal(glat, lat[jj]))
                if not ok:
                    ctx.fail(f"{case['grid']}, box {box}: selects longitudes "
                             f"{glon.tolist()}, latitudes {glat.tolist()}; expected "
                             f"{lon[want].tolist()}, {lat[jj].tolist()}")
                    return
                if not np.array_equal(
                        p.transpose("time", "latitude", "longitude").values,
                        vals[:, jj][:, :, want]):
                    ctx.fail(f"{case['grid']}, box {box}: values are not at their "
                             "coordinates")
                    return
            if len(jj) and len(ii):
                ctx.state(case["grid"], tuple(jj), tuple(ii), w < e)
    ctx.sample({"box": box, **case})


def run(case, ctx):
    """A subdomain of global input against input that holds only the subdomain."""
    from mc.checks.c04 import write_mask

    lat, lon = scen.grid("ring")
    nt = 4
    f = scen.make_fields("wave", "flicker", "both", nt, len(lat), len(lon),
                         scen.flux_scale(lat, lon))
    times = synth.hours(synth.T(2021, 7, 1, 22), nt)
    jj, ii = expected(case["box"], lat, lon)
    cut = {n: v[:, jj][:, :, ii] for n, v in f.items()}
    j, i = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
    mask = ((3 * i + 5 * j) % 8) / 8.0
    w, s, e, n = case["box"]
    res = []
    for name, la, lo, ff, mm, dom in (
            ("full", lat, lon, f, mask, case["box"]),
            ("cut", lat[jj], lon[ii], cut, mask[jj][:, ii], None)):
        root = ctx.tmp / name
        synth.write_prep(root / "prep", times, la, lo, ff)
        (root / "out").mkdir()
        region = [w, s, e, n]
        if case["mask"] != "box":
            region = str(root / "mask.nc")
            if case["mask"] == "varying":
                write_mask(region, la, lo, np.stack([mm, 1 - mm]), [times[0], times[-1]])
            else:
                write_mask(region, la, lo, mm)
        cfg = synth.base_config(
            root, tracking_direction=case["direction"], tracking_domain=dom,
            tagging_region=region, tracking_start_date=times[0],
            tracking_end_date=times[-1], tagging_start_date=times[0],
            tagging_end_date=times[-1], output_frequency="1h")
        synth.run_tracking(cfg)
        res.append(synth.ordered(cfg))
    a, b = res
    ctx.count("evaluations")
    if [x for x, _ in a] != [x for x, _ in b]:
        ctx.fail(f"box {case['box']}: different output files")
        return
    for (name, x), (_, y) in zip(a, b):
        for v, want in y.items():
            if not isinstance(want, np.ndarray) or want.dtype.kind != "f":
                continue
            if x[v].shape != want.shape or not np.allclose(x[v], want, rtol=1e-5,
                                                            atol=1e-6):
                ctx.fail(f"box {case['box']}: {v} in {name} differs from the run on input "
                         "that only holds the subdomain")
                return
    ctx.state(case["direction"], str(case["box"]), case["mask"])
