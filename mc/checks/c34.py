"""C34: designed tagging regions mark exactly the intended cells."""
import importlib
import itertools
import sys
import types

import netCDF4
import numpy as np

from mc import scen, synth, wam

ID = "C34"
LEVEL = "exploration"
RULE = ("points: every centre over coordinates on, between and off the grid lines, next to "
        "the antimeridian and in both longitude conventions x every radius, on every grid; "
        "tracks: every sequence of centres up to the length; named: every region of the "
        "offline sources and of a synthetic one numbered from 0, and every pair of a source's "
        "regions, on grids that they do and do not overlap; shapes: every ordered selection "
        "of the regions of a shapefile; mistakes: every wrong argument of an alphabet; runs: "
        "designed files as region of tracking runs. An evaluation is one designed file "
        "compared cell by cell, distinct = distinct files")
ASSUMPTIONS = ["plots are not looked at (cartopy is replaced where it is not installed)",
               "no cell centre within 1e-6 degrees of the border of a polygon",
               "the remote region sources of regionmask are replaced by a synthetic one"]

GRIDS = {
    "global": (np.arange(90.0, -91.0, -30.0), np.arange(-180.0, 180.0, 30.0)),
    "global east": (np.arange(75.0, -76.0, -30.0), np.arange(0.0, 360.0, 45.0)),
    "europe": (np.arange(70.0, 34.0, -5.0), np.arange(-10.0, 41.0, 5.0)),
    "ascending": (np.arange(-20.0, 21.0, 8.0), np.arange(-75.0, -29.0, 7.5)),
    "dateline": (np.arange(10.0, -11.0, -5.0), np.arange(160.0, 201.0, 5.0)),
    "fine": (np.arange(52.0, 50.0, -0.25), np.arange(3.0, 5.0, 0.25)),
}
RADII = [0.0, 0.25, 2.5, 5, 7.0, 30.0, 100.0, 180.0]
SOURCES = {"giorgi": (21, 1), "srex": (26, 1), "prudence": (8, 1), "ar6.all": (4, 0)}


def preload():
    wam.preload()
    tool()
    import regionmask

    for s in ("giorgi", "srex", "prudence"):
        regions_of(s)


def tool():
    """The designer; its plotting library only matters for plots."""
    try:
        import cartopy  # noqa: F401
    except ImportError:
        for n in ("cartopy", "cartopy.crs", "cartopy.feature"):
            sys.modules.setdefault(n, types.ModuleType(n))
        sys.modules["cartopy"].crs = sys.modules["cartopy.crs"]
        sys.modules["cartopy"].feature = sys.modules["cartopy.feature"]
    return importlib.import_module("wam2layers.utils.tagging_region")


POLYS = [  # of the synthetic source and of the shapefile
    [(-8.1, 41.3), (13.2, 43.4), (11.3, 62.1), (-7.7, 57.9)],
    [(101.3, -13.1), (141.2, -13.1), (141.2, 44.2), (101.3, 44.2)],
    [(2.1, 46.2), (31.3, 46.2), (31.3, 66.3)],
    [(-71.2, -18.9), (-41.3, -18.9), (-41.3, 18.8), (-58.7, 1.3), (-71.2, 18.8)],
]


def regions_of(source):
    """The regions of a source, in the order of their numbers: (rings of each, object)"""
    import regionmask

    if source == "ar6.all":
        r = regionmask.Regions(POLYS, numbers=range(len(POLYS)), name="synthetic")
        regionmask.defined_regions.ar6 = types.SimpleNamespace(
            all=r, land=r, ocean=r)
    else:
        r = getattr(regionmask.defined_regions, source)
    out = []
    for n in sorted(r.numbers):
        poly = r[n].polygon
        parts = getattr(poly, "geoms", [poly])
        out.append([[p.exterior.coords[:]] + [i.coords[:] for i in p.interiors]
                    for p in parts])
    return out


def inside(ring, x, y):
    """Even-odd rule; raises if a point lies on the border."""
    odd = np.zeros(x.shape, bool)
    for (x0, y0), (x1, y1) in zip(ring, ring[1:] + ring[:1]):
        if (x0, y0) == (x1, y1):
            continue
        length = np.hypot(x1 - x0, y1 - y0)
        t = ((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / length**2
        d = np.hypot(x - x0 - np.clip(t, 0, 1) * (x1 - x0),
                     y - y0 - np.clip(t, 0, 1) * (y1 - y0))
        if np.any(d < 1e-6):
            odd = odd.astype(float)
        with np.errstate(all="ignore"):
            cross = ((y0 > y) != (y1 > y)) & (x < (x1 - x0) * (y - y0) / (y1 - y0) + x0)
        odd = np.where(d < 1e-6, np.nan, np.where(cross, 1 - odd, odd))
    return odd.astype(float)


def covered(parts, lat, lon):
    """1 inside, 0 outside, missing on a border"""
    x, y = np.meshgrid(lon, lat)
    res = np.zeros(x.shape)
    for rings in parts:
        for turn in (-360, 0, 360):
            inn = sum(inside([tuple(p[:2]) for p in r], x + turn, y) for r in rings) % 2
            res = np.where(np.isnan(inn) | np.isnan(res), np.nan, np.maximum(res, inn))
    return res


def box(center, radius, lat, lon):
    d = np.abs((lon - center[1] + 180) % 360 - 180)
    return (np.abs(lat - center[0]) <= radius)[:, None] * (d <= radius)[None] * 1.0


def reference_file(path, lat, lon):
    with netCDF4.Dataset(path, "w") as nc:
        for n, v in (("latitude", lat), ("longitude", lon)):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        nc.createVariable("z", "f4", ("latitude", "longitude"))[:] = 7
    return str(path)


def read(path, dims):
    """The only gridded variable of a designed file."""
    with netCDF4.Dataset(path) as nc:
        v = [x for n, x in nc.variables.items() if n not in dims]
        if len(v) != 1 or v[0].dimensions != dims:
            return None, {n: x.dimensions for n, x in nc.variables.items()}
        return (np.ma.filled(v[0][:].astype(float), np.nan),
                {n: np.asarray(nc.variables[n][:]) for n in dims if n != "time"})


def compare(ctx, what, path, want, lat, lon, dims=("latitude", "longitude")):
    ctx.count("evaluations")
    got, coords = read(path, dims)
    if got is None:
        ctx.fail(f"{what}: the file holds {coords}")
        return False
    if not (np.array_equal(coords["latitude"], lat) and np.array_equal(
            coords["longitude"], lon)):
        ctx.fail(f"{what}: the grid is not that of the reference file")
        return False
    sure = ~np.isnan(want)
    if got.shape != want.shape or not np.array_equal(got[sure], want[sure]):
        bad = np.argwhere(sure & (got != want)) if got.shape == want.shape else []
        where = [(float(lat[b[-2]]), float(lon[b[-1]]), float(got[tuple(b)]))
                 for b in bad[:3]]
        ctx.fail(f"{what}: {len(bad)} of {want.size} cells are wrong, e.g. (latitude, "
                 f"longitude, value) {where}")
        return False
    if not np.all(np.isin(got, (0.0, 1.0))):
        ctx.fail(f"{what}: holds values other than 0 and 1")
        return False
    ctx.state(dims, got.shape, got.tobytes(), lat.tobytes(), lon.tobytes())
    ctx.count("cells_marked", np.sum(got == 1))
    return True


def cases(tier):
    deep = tier != "quick"
    out = []
    for g in GRIDS:
        for k in range(len(lats(g, deep))):
            out.append(dict(kind="points", grid=g, lat=k, deep=deep))
        out.append(dict(kind="tracks", grid=g, length=3 if deep else 2))
        for s in SOURCES:
            out.append(dict(kind="named", grid=g, source=s, most=3 if deep else 2))
        out.append(dict(kind="shapes", grid=g, most=4 if deep else 3))
    out.append(dict(kind="mistakes"))
    for d in ("forward", "backward"):
        for how in ("point", "track", "named", "shape"):
            out.append(dict(kind="runs", direction=d, how=how))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def lats(g, deep):
    lat = GRIDS[g][0]
    d = abs(lat[1] - lat[0])
    out = [lat[1], lat[2] + d / 2, 0.0, 90.0]
    return out + [lat[-1], lat[0] - d / 4, -90.0] if deep else out


def lons(g):
    lon = GRIDS[g][1]
    d = lon[1] - lon[0]
    return [lon[0], lon[-1], lon[2] + d / 2, lon[1] + d / 4, 0.0, 179.5, -179.5, 180.0,
            -180.0, 355.0, -60.0, 300.0]


def points(case, ctx):
    fn = tool().mask_around_point
    lat, lon = GRIDS[case["grid"]]
    src = reference_file(ctx.tmp / "ref.nc", lat, lon)
    la = lats(case["grid"], case["deep"])[case["lat"]]
    for lo, r in itertools.product(lons(case["grid"]), RADII):
        path = ctx.tmp / "mask.nc"
        path.unlink(missing_ok=True)
        fn((la, lo), r, src, str(path), False)
        if not compare(ctx, f"{case['grid']}: point {(la, lo)}, radius {r}", path,
                       box((la, lo), r, lat, lon), lat, lon):
            return
    ctx.sample({"point": [la, lo], "radius": r, **case})


def tracks(case, ctx):
    import pandas as pd

    fn = tool().mask_around_track
    lat, lon = GRIDS[case["grid"]]
    src = reference_file(ctx.tmp / "ref.nc", lat, lon)
    centres = [(lat[1], lon[1]), (lat[-2], 179.5), (lat[2], lon[-1] + 1.0),
               (80.0, -170.0), (lat[3] + 0.5, -57.5)]
    r, tried = 12.0, 0
    for n in range(1, case["length"] + 1):
        for seq in itertools.product(centres, repeat=n):
            path = ctx.tmp / "mask.nc"
            path.unlink(missing_ok=True)
            # forward, backward or neither, in turn
            after = [[0, 7, 11, 30], [30, 11, 7, 0], [11, 0, 30, 7]][tried % 3]
            tried += 1
            times = pd.to_datetime("2021-07-01T21:30") + pd.to_timedelta(after[:n], "h")
            fn(list(seq), times, r, src, str(path), False)
            want = np.stack([box(c, r, lat, lon) for c in seq])
            if not compare(ctx, f"{case['grid']}: track {seq}", path, want, lat, lon,
                           ("time", "latitude", "longitude")):
                return
            with netCDF4.Dataset(path) as nc:
                t = nc["time"]
                have = netCDF4.num2date(t[:], t.units, t.calendar)
            if [x.isoformat() for x in have] != [x.isoformat() for x in times]:
                ctx.fail(f"track {seq}: times {have}, given {list(times)}")
                return
    ctx.sample({"track": seq, **case})


def selections(n, most):
    for k in range(1, most + 1):
        yield from itertools.combinations(range(n), k)


def named(case, ctx):
    fn = tool().mask_with_regionmask
    lat, lon = GRIDS[case["grid"]]
    src = reference_file(ctx.tmp / "ref.nc", lat, lon)
    parts = regions_of(case["source"])
    n, first = SOURCES[case["source"]]
    assert len(parts) == n
    cov = [covered(p, lat, lon) for p in parts]
    few = range(n) if n < 10 else sorted({0, 1, n // 2, n - 2, n - 1})
    todo = [(k,) for k in range(n)] + [s for s in selections(n, case["most"])
                                       if len(s) > 1 and set(s) <= set(few)]
    todo += [s[::-1] for s in todo if len(s) == 2]
    for s in todo:
        path = ctx.tmp / "mask.nc"
        path.unlink(missing_ok=True)
        ids = [first + k for k in s]
        fn(case["source"], ids, src, str(path), False)
        want = np.max([cov[k] for k in s], axis=0)
        if not compare(ctx, f"{case['grid']}: regions {ids} of {case['source']}", path, want,
                       lat, lon):
            return
    ctx.sample({"regions": ids, **case})


def shapes(case, ctx):
    fn = tool().mask_with_shapefile
    lat, lon = GRIDS[case["grid"]]
    src = reference_file(ctx.tmp / "ref.nc", lat, lon)
    write_shapes(ctx.tmp / "regions.shp")
    cov = [covered([[p + p[:1]]], lat, lon) for p in POLYS]
    todo = [False] + [list(p) for k in range(1, case["most"] + 1)
                      for p in itertools.permutations(range(len(POLYS)), k)]
    for s in todo:
        path = ctx.tmp / "mask.nc"
        path.unlink(missing_ok=True)
        fn(str(ctx.tmp / "regions.shp"), s, src, str(path), False)
        want = np.max([cov[k] for k in (s or [0])], axis=0)
        if not compare(ctx, f"{case['grid']}: regions {s} of a shapefile", path, want, lat,
                       lon):
            return
    ctx.sample({"regions": s, **case})


def write_shapes(path):
    import shapefile

    with shapefile.Writer(str(path)) as w:
        w.field("name", "C")
        for k, p in enumerate(POLYS):
            ring = p + p[:1]
            area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(ring, ring[1:]))
            w.poly([ring[::-1] if area > 0 else ring])
            w.record(f"region {k}")
    path.with_suffix(".prj").write_text(
        'GEOGCS["GCS_WGS_1984",DATUM["D_WGS_1984",SPHEROID["WGS_1984",6378137.0,'
        '298.257223563]],PRIMEM["Greenwich",0.0],UNIT["Degree",0.0174532925199433]]')


def mistakes(case, ctx):
    t = tool()
    lat, lon = GRIDS["europe"]
    src = reference_file(ctx.tmp / "ref.nc", lat, lon)
    write_shapes(ctx.tmp / "regions.shp")
    regions_of("ar6.all")
    shp = str(ctx.tmp / "regions.shp")
    path = ctx.tmp / "mask.nc"
    name, shape = t.mask_with_regionmask, t.mask_with_shapefile
    for fn, args in [(name, ("nowhere", [1])), (name, ("ar6.nowhere", [1])),
                     (name, ("ar6.land", [1])), (name, ("ar6.ocean", [1])),
                     (name, ("srex", 3)), (name, ("ar6.all", 3)), (name, ("srex", [27])),
                     (name, ("prudence", [3, 9])), (name, ("ar6.all", [4])),
                     (shape, (shp, 2)), (shape, (shp, [4])), (shape, (shp, [0, 7])),
                     (shape, (str(ctx.tmp / "none.shp"), [0]))]:
        for bad in (False, True):
            ref = str(ctx.tmp / "no such file.nc") if bad else src
            ctx.count("evaluations")
            ctx.state(fn.__name__, repr(args), bad)
            try:
                fn(*args, ref, str(path), False)
            except Exception:
                if path.exists():
                    ctx.fail(f"{fn.__name__}{args} failed, but left a file")
                    return
                continue
            ctx.fail(f"{fn.__name__}{args} was accepted")
            return
    ctx.sample({"last": repr(args)})


def runs(case, ctx):
    """A designed file as region of a run tags exactly its cells."""
    import pandas as pd

    from mc.checks import c10, c28
    from mc import ref

    t = tool()
    case28 = dict(direction=case["direction"], periodic=False, wind="shear",
                  store="flicker", rain="both", grid="mid", dt=3600)
    cfg, data, kw = c28.setup(case28, ctx, nt=6, output_frequency="1h")
    kw["out_seconds"] = 3600
    lat, lon = np.asarray(data.lat), np.asarray(data.lon)
    src = next((ctx.tmp / "prep").glob("*.nc"))
    path = ctx.tmp / "region.nc"
    if case["how"] == "point":
        t.mask_around_point((47.5, 2), 1.5, str(src), str(path), False)
        mask = box((47.5, 2), 1.5, lat, lon)
    elif case["how"] == "named":
        parts = regions_of("ar6.all")
        t.mask_with_regionmask("ar6.all", [3, 2], str(src), str(path), False)
        mask = covered(parts[2], lat, lon)
    elif case["how"] == "shape":
        write_shapes(ctx.tmp / "regions.shp")
        t.mask_with_shapefile(str(ctx.tmp / "regions.shp"), [1, 2], str(src), str(path),
                              False)
        mask = covered([[POLYS[2] + POLYS[2][:1]]], lat, lon)
    else:
        centres = [(46.0, 0.0), (48.0, 2.0), (49.0, 4.0)]
        first = data.times[0]
        mt = pd.to_datetime([synth.iso(first)] * 3) + pd.to_timedelta([0, 130, 250], "min")
        t.mask_around_track(centres, mt, 1.0, str(src), str(path), False)
        stack = [box(c, 1.0, lat, lon) for c in centres]

        def mask(when):
            s = (when - first).total_seconds() / 60
            d = [abs(s - m) for m in (0, 130, 250)]
            assert sorted(d)[0] != sorted(d)[1]
            return stack[int(np.argmin(d))]

    if not callable(mask) and (np.any(np.isnan(mask)) or not 0 < mask.sum() < mask.size):
        ctx.fail("the region of this case is not a useful one")
        return
    cfg["tagging_region"] = str(path)
    kw["mask"] = mask
    synth.run_tracking(cfg)
    want, _ = ref.run(data, **kw)
    c10.check(ctx, case, f"region designed by {case['how']}", want, synth.ordered(cfg),
              case["direction"] == "backward")
    ctx.state("run", case["direction"], case["how"])
