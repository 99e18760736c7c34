"""C29: a shapefile region weighs every cell with its covered fraction."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import scen, synth, wam

ID = "C29"
LEVEL = "exploration"
RULE = ("masks: every rectangle over a lattice of corner coordinates on, between and outside "
        "the cell edges, every triangle over a lattice of points, every rectangle with every "
        "lattice hole, and every pair of parts, on grids with both orders of latitudes and "
        "dimensions, unequal spacing and a global extent; each weight is compared with the "
        "area of the polygon clipped to the cell, in exact rational arithmetic; runs: both "
        "directions, with and without subdomain, compared with the mask of those weights. An "
        "evaluation is one mask or run, distinct = distinct polygon-grid pairs")
ASSUMPTIONS = ["the region is the first shape of the file",
               "longitudes within -180 and 180, increasing and evenly spaced, as in "
               "preprocessed data; polygons do not cross the antimeridian",
               "the polygon overlaps at least one cell of the grid",
               "grids of at least two rows and columns"]
GRIDS = {  # lat centres, lon centres
    "descending": (np.arange(50.0, 44.0, -1.0), np.arange(-3.0, 3.0)),
    "ascending": (np.arange(45.0, 51.0), np.arange(-3.0, 3.0)),
    "fine rows": (np.arange(50.0, 47.0, -0.5), np.arange(-3.0, 3.0)),
    "fine columns": (np.arange(-3.0, 3.0), np.arange(10.0, 11.5, 0.25)),
    "global": (np.arange(80.0, -81.0, -40.0), np.arange(-180.0, 180.0, 60.0)),
    "poles": (np.arange(-90.0, 91.0, 45.0), np.arange(-180.0, 180.0, 60.0)),
    "halves": (np.arange(10.25, 7.25, -0.5), np.arange(-1.75, 1.25, 0.5)),
}
# in cells from the centre of the westernmost column / southernmost row
EDGES = [Fr(-1), Fr(-1, 2), Fr(0), Fr(1, 4), Fr(1), Fr(3, 2), Fr(7, 4), Fr(3), Fr(9, 2),
         Fr(5), Fr(11, 2), Fr(6)]
QUICK = [Fr(-1), Fr(1, 4), Fr(1), Fr(3, 2), Fr(3), Fr(11, 2), Fr(6)]
POINTS = [(Fr(x, 4), Fr(y, 4)) for x in (-2, 1, 6, 15) for y in (-3, 2, 7, 18)]


def preload():
    wam.preload()
    wam.need("utils.shapefile_mask")
    wam.need("tracking.io")


def cases(tier):
    out = []
    for g in GRIDS:
        for order in ("yx", "xy", "tyx"):
            if tier == "quick" and order != "yx" and g not in ("descending", "fine rows"):
                continue
            # a share of the rectangles each, by their western edge
            short = tier == "quick" or order != "yx"
            for w in range(len(QUICK if short else EDGES) - 1):
                out.append(dict(kind="rectangles", grid=g, order=order, west=w, short=short))
            if order == "yx":
                for p in range(len(POINTS) - 2):
                    if tier != "quick" or g in ("descending", "fine columns"):
                        out.append(dict(kind="triangles", grid=g, order=order, first=p))
                out.append(dict(kind="holes", grid=g, order=order))
                out.append(dict(kind="parts", grid=g, order=order))
    for d in ("forward", "backward"):
        for g in ("descending", "halves"):
            for domain in (None, "inner"):
                for shape in ("triangle", "hole", "parts"):
                    out.append(dict(kind="runs", direction=d, grid=g, domain=domain,
                                    shape=shape))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def clip_area(ring, box):
    """Signed area of a ring clipped to a box, exactly."""
    def half(pts, axis, bound, keep_less):
        out = []
        for p, q in zip(pts, pts[1:] + pts[:1]):
            pin = p[axis] <= bound if keep_less else p[axis] >= bound
            qin = q[axis] <= bound if keep_less else q[axis] >= bound
            if pin:
                out.append(p)
            if pin != qin:
                t = (bound - p[axis]) / (q[axis] - p[axis])
                r = [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]
                r[axis] = bound
                out.append(tuple(r))
        return out

    x0, x1, y0, y1 = box
    xs, ys = [p[0] for p in ring], [p[1] for p in ring]
    if max(xs) <= x0 or min(xs) >= x1 or max(ys) <= y0 or min(ys) >= y1:
        return Fr(0)
    for axis, b, less in ((0, x0, False), (0, x1, True), (1, y0, False), (1, y1, True)):
        ring = half(ring, axis, b, less)
        if not ring:
            return Fr(0)
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(ring, ring[1:] + ring[:1])) / 2


def weights(rings, n, world=None):
    """Covered fractions of n x 6 cells (south to north, west to east), exactly.

    world: the latitudes of both poles if the grid covers the whole sphere.
    """
    h = Fr(1, 2)
    out = np.zeros((n, 6))
    for j in range(n):
        s, e = j - h, j + h
        if world:
            s, e = max(s, world[0]), min(e, world[1])
        for i in range(6):
            for turn in (-6, 0, 6) if world else (0,):
                box = (i + turn - h, i + turn + h, s, e)
                # outer rings are clockwise, holes anticlockwise
                out[j, i] -= float(sum(clip_area(r, box) for r in rings) / (e - s))
    return out


def rect(x0, x1, y0, y1, hole=False):
    r = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
    return r[::-1] if hole else r


class Grid:
    def __init__(self, name):
        self.lat, self.lon = GRIDS[name]
        self.dx, self.dy = self.lon[1] - self.lon[0], abs(self.lat[1] - self.lat[0])
        self.south = self.lat.min()
        self.n = len(self.lat)
        self.world = {"global": (Fr(-1, 4), Fr(17, 4)), "poles": (Fr(0), Fr(4))}.get(name)

    def place(self, rings):
        return [[(float(self.lon[0] + float(x) * self.dx), float(self.south + float(y) * self.dy))
                 for x, y in r] for r in rings]

    def expected(self, rings):
        w = weights(rings, self.n, self.world)
        return w if self.lat[0] < self.lat[-1] else w[::-1]


def write_shape(path, rings):
    import shapefile

    with shapefile.Writer(str(path)) as w:
        w.field("name", "C")
        w.poly([r + r[:1] for r in rings])
        w.record("region")
        w.poly([[(0.0, 0.0), (0.0, 90.0), (90.0, 90.0), (90.0, 0.0), (0.0, 0.0)]])
        w.record("another, unused region")


def dataset(g, order):
    import xarray as xr

    dims = {"yx": ("latitude", "longitude"), "xy": ("longitude", "latitude"),
            "tyx": ("time", "latitude", "longitude")}[order]
    c = {"latitude": g.lat, "longitude": g.lon}
    shape = [len(c[d]) if d in c else 2 for d in dims]
    return xr.Dataset({"precip": (dims, np.zeros(shape))}, coords=c), [
        d for d in dims if d != "time"]


def check_mask(case, ctx, g, ds, dims, rings):
    f = ctx.tmp / "region.shp"
    write_shape(f, g.place(rings))
    m = wam.need("utils.shapefile_mask", "create_mask")(ds, f)
    ctx.count("evaluations")
    ctx.state(case["grid"], case["order"], rings)
    want = g.expected(rings)
    what = f"polygon {g.place(rings)} on grid {case['grid']}"
    if tuple(m.dims) != tuple(dims):
        ctx.fail(f"{what}: mask has dimensions {m.dims} for data with {dims}")
        return False
    if not (np.array_equal(m["latitude"].values, g.lat)
            and np.array_equal(m["longitude"].values, g.lon)):
        ctx.fail(f"{what}: mask has other coordinates than the data")
        return False
    got = np.asarray(m.transpose("latitude", "longitude").values, float)
    if got.shape != want.shape or not np.all(np.abs(got - want) < 1e-6):
        ctx.fail(f"{what}: weights\n{np.round(got, 4)}\ninstead of\n{np.round(want, 4)}")
        return False
    return True


def overlaps(g, rings):
    """Within the range of valid coordinates, and touching the grid."""
    if g.world and any(not (0 <= x <= 6 and g.world[0] <= y <= g.world[1])
                       for r in rings for x, y in r):
        return False
    return g.expected(rings).max() > 0


def rectangles(case, ctx):
    g = Grid(case["grid"])
    ds, dims = dataset(g, case["order"])
    ex = QUICK if case["short"] else EDGES
    for e in range(case["west"] + 1, len(ex)):
        for s, n in itertools.combinations(ex, 2):
            rings = [rect(ex[case["west"]], ex[e], s, n)]
            if overlaps(g, rings) and not check_mask(case, ctx, g, ds, dims, rings):
                return
    ctx.sample(case)


def triangles(case, ctx):
    g = Grid(case["grid"])
    ds, dims = dataset(g, case["order"])
    p = POINTS[case["first"]]
    for q, r in itertools.combinations(POINTS[case["first"] + 1:], 2):
        a = (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])
        if a == 0:
            continue
        ring = [p, r, q] if a > 0 else [p, q, r]
        if overlaps(g, [ring]) and not check_mask(case, ctx, g, ds, dims, [ring]):
            return
    ctx.sample(case)


def holes(case, ctx):
    g = Grid(case["grid"])
    ds, dims = dataset(g, case["order"])
    ex = [Fr(1, 4), Fr(1, 2), Fr(2), Fr(7, 2)]
    for w, e in itertools.combinations(ex, 2):
        for s, n in itertools.combinations(ex, 2):
            rings = [rect(Fr(0), Fr(4), Fr(0), Fr(4)), rect(w, e, s, n, hole=True)]
            if overlaps(g, rings) and not check_mask(case, ctx, g, ds, dims, rings):
                return
    ctx.sample(case)


def parts(case, ctx):
    g = Grid(case["grid"])
    ds, dims = dataset(g, case["order"])
    west = [(Fr(-1), Fr(1, 4)), (Fr(0), Fr(3, 2)), (Fr(1, 2), Fr(1))]
    east = [(Fr(7, 4), Fr(5)), (Fr(5, 2), Fr(11, 2)), (Fr(4), Fr(17, 4))]
    ys = [(Fr(0), Fr(1, 2)), (Fr(1), Fr(11, 4)), (Fr(3, 2), Fr(6))]
    for (a, b), y1, (c, d), y2 in itertools.product(west, ys, east, ys):
        rings = [rect(a, b, *y1), rect(c, d, *y2)]
        if overlaps(g, rings) and not check_mask(case, ctx, g, ds, dims, rings):
            return
    ctx.sample(case)


SHAPES = {
    "triangle": [[(Fr(1, 4), Fr(3, 4)), (Fr(2), Fr(19, 4)), (Fr(9, 2), Fr(3, 2))]],
    "hole": [rect(Fr(1, 4), Fr(17, 4), Fr(3, 4), Fr(9, 2)),
             rect(Fr(1), Fr(5, 2), Fr(2), Fr(7, 2), hole=True)],
    "parts": [rect(Fr(1, 4), Fr(1), Fr(3, 4), Fr(9, 2)),
              rect(Fr(3), Fr(17, 4), Fr(2), Fr(5, 2))],
}


def runs(case, ctx):
    from mc.checks import c04

    g = Grid(case["grid"])
    shape = (len(g.lat), len(g.lon))
    t = synth.hours(synth.T(2021, 7, 1, 21), 5)
    f = scen.make_fields("shear", "gradient", "both", 5, *shape,
                         0.5 * scen.flux_scale(g.lat, g.lon))
    synth.write_prep(ctx.tmp / "prep", t, g.lat, g.lon, f)
    write_shape(ctx.tmp / "region.shp", g.place(SHAPES[case["shape"]]))
    w = g.expected(SHAPES[case["shape"]])
    c04.write_mask(ctx.tmp / "mask.nc", g.lat, g.lon, w)
    got = []
    for region in ("region.shp", "mask.nc"):
        kw = {}
        if case["domain"]:
            kw["tracking_domain"] = [float(g.lon[1] - g.dx / 4),
                                     float(np.sort(g.lat)[1] - g.dy / 4),
                                     float(g.lon[5]), float(g.lat.max())]
        out = ctx.tmp / ("out_" + region)
        out.mkdir()
        cfg = synth.base_config(
            ctx.tmp, tracking_direction=case["direction"], output_folder=out,
            tagging_region=ctx.tmp / region, preprocessed_data_folder=ctx.tmp / "prep",
            tracking_start_date=t[0], tracking_end_date=t[-1], tagging_start_date=t[0],
            tagging_end_date=t[-1], output_frequency="1h", timestep=1800, **kw)
        synth.run_tracking(cfg, str(ctx.tmp / "config.yaml"))
        got.append(synth.ordered(cfg))
    ctx.count("evaluations")
    ctx.state(*[case[k] for k in ("direction", "grid", "domain", "shape")])
    a, b = got
    if len(a) != len(b) or not a:
        ctx.fail(f"{len(a)} outputs with the shapefile, {len(b)} with its mask")
        return
    tag = "tagged_precip" if case["direction"] == "backward" else "tagged_evap"
    for (ta, x), (tb, y) in zip(a, b):
        for n in y:
            if getattr(y[n], "shape", None) != (len(y["latitude"]), len(y["longitude"])):
                continue
            tol = 1e-5 * max(np.max(np.abs(y[n])), 1e-6)
            if ta != tb or not np.all(np.abs(x[n] - y[n]) <= tol):
                ctx.fail(f"{n} at {ta} differs between the shapefile and its mask")
                return
    if not max(y[tag].max() for _, y in b) > 0:
        ctx.fail("nothing was tagged")
    ctx.sample(case)
