"""C12: cell areas and sizes are those of the grid on the sphere."""
import itertools
from types import SimpleNamespace

import numpy as np

from mc import ref, scen, synth, wam

ID = "C12"
LEVEL = "exploration"
RULE = ("(a) every grid over the alphabets of spacings in both directions, extents, offsets, "
        "latitude orders and antimeridian positions through the grid routine; (b) real runs "
        "of one step on such grids, from whose outcome the areas and side lengths are "
        "recovered; an evaluation is one grid or run; distinct = distinct grids")
ASSUMPTIONS = ["regular spacing in each direction", "Earth radius 6371 km, 111089.56 m per "
               "degree latitude"]
preload = wam.preload


def grids(tier):
    dlat = [0.25, 1.0, 2.5, 30.0] if tier == "quick" else [0.1, 0.25, 0.5, 1.0, 1.25, 2.0,
                                                          2.5, 5.0, 10.0, 30.0]
    dlon = [0.25, 1.5, 20.0] if tier == "quick" else [0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 2.5,
                                                      3.75, 20.0, 60.0]
    out = []
    for a, b in itertools.product(dlat, dlon):
        rows = {"poles": np.linspace(90, -90, round(180 / a) + 1),
                "centres": np.linspace(90 - a / 2, -90 + a / 2, round(180 / a)),
                "north": 85 - a * np.arange(3), "south": -20 - a * np.arange(3),
                "equator": a * (1 - np.arange(3))}
        n = min(round(360 / b), 12)
        cols = {"globe": -180 + b * np.arange(round(360 / b)),
                "centre": b * np.arange(-2, 3)}
        for k in range(1, n):  # every position of the antimeridian
            c = 180.0 + b * np.arange(n) - k * b
            cols[f"across{k}"] = np.where(c >= 180, c - 360, c)
        for (r, lat), (c, lon), rev in itertools.product(rows.items(), cols.items(),
                                                        (False, True)):
            if tier == "quick" and c.startswith("across") and r != "north":
                continue
            if np.any(np.abs(lat) > 90):
                continue
            out.append((f"{r}, {c}, {a} x {b}{', ascending' if rev else ''}",
                        lat[::-1] if rev else lat, lon, a, b))
    return out


def cases(tier):
    k = 8
    out = [dict(kind="routine", part=p, parts=k, tier=tier) for p in range(k)]
    for g in ("small", "flat", "south"):
        for d in ("forward", "backward"):
            out.append(dict(kind="run", grid=g, direction=d, across=False))
    for d in ("forward", "backward"):
        for k in range(1, 4 if tier == "quick" else 8):
            out.append(dict(kind="run", grid="flat", direction=d, across=k))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def routine(case, ctx):
    import xarray as xr

    fn = wam.same_signature("utils.grid", "get_grid_info", ["ds"])
    if fn is None:
        ctx.count("routine_probes_skipped")
        return
    R, dg = 6.371e6, 111089.56
    for name, lat, lon, a, b in grids(case["tier"])[case["part"]:: case["parts"]]:
        ds = xr.Dataset(coords={"latitude": lat, "longitude": lon})
        area, dy, dx = fn(ds)
        ctx.count("evaluations")
        ctx.state(name)
        area = np.asarray(area, float).ravel()
        dx = np.broadcast_to(np.asarray(dx, float).ravel(), lat.shape)
        lim = np.sort(np.stack([lat - a / 2, lat + a / 2]), axis=0).clip(-90, 90)
        # integral of cos(lat) by Gauss-Legendre quadrature, not by the closed formula
        x, w = np.polynomial.legendre.leggauss(12)
        lo, hi = np.deg2rad(lim)
        q = (hi - lo)[:, None] / 2 * w * np.cos(
            (hi + lo)[:, None] / 2 + (hi - lo)[:, None] / 2 * x)
        want = R**2 * np.deg2rad(b) * q.sum(axis=1)
        if area.shape != want.shape or not np.allclose(area, want, rtol=1e-9,
                                                       atol=1e-6 * want.max()):
            ctx.fail(f"{name}: areas {area[:4]}, on the sphere {want[:4]}")
        total = 2 * np.pi * R**2 * abs(np.sin(np.deg2rad(lim[1].max()))
                                       - np.sin(np.deg2rad(lim[0].min())))
        got = area.sum() * 360 / b
        if not abs(got - total) < 1e-9 * total:
            ctx.fail(f"{name}: areas of the covered rows add up to {got:.8g} of "
                     f"{total:.8g} m2")
        wdx = dg * b * 0.5 * (np.cos(np.deg2rad(lat + a / 2))
                              + np.cos(np.deg2rad(lat - a / 2)))
        if not (np.allclose(dx, wdx, rtol=1e-9, atol=1e-6) and np.allclose(
                dy, dg * a, rtol=1e-9)):
            ctx.fail(f"{name}: sides dy {np.ravel(dy)[:2]} dx {dx[:3]}, expected {dg * a}, "
                     f"{wdx[:3]}")
    ctx.sample({"grid": name})


def run(case, ctx):
    """Areas and sides as a complete model step uses them, recovered from its output.

    With one filled cell and wind in one direction, the fraction that leaves to each
    neighbour is flux x side x dt / (area x storage).
    """
    lat, lon = scen.grid(case["grid"])
    if case["across"]:  # the same grid shifted across the antimeridian
        d = lon[1] - lon[0]
        c = 180.0 + d * np.arange(len(lon)) - case["across"] * d
        lon = np.where(c >= 180, c - 360, c)
    shape = (len(lat), len(lon))
    area, dy, dx = ref.geometry(lat, lon)
    j, i = shape[0] // 2, shape[1] // 2
    sgn = 1 if case["direction"] == "forward" else -1
    q = 0.05 * 10 * np.min(area) / dy / 3600
    for axis in ("x", "y"):
        z = np.zeros((2,) + shape)
        f = {n: z for n in synth.VARS}
        f = dict(f, s_upper=z + 10, s_lower=z + 10)
        for k in ("upper", "lower"):
            f[f"f{axis}_{k}"] = z + q * sgn
        A = np.zeros(shape)
        A[j, i] = 8.0
        o, _ = synth.one_step(ctx.tmp / axis, lat, lon, f, (A, A), case["direction"],
                              kvf=0)
        tj, ti = (j, i + 1) if axis == "x" else (j - 1, i)
        side = dy if axis == "x" else (dx[j] + dx[j - 1]) / 2
        want = 8.0 / 10 * q * side * 3600 / area[tj]
        got = o["s_track_upper_restart"][tj, ti] + o["s_track_lower_restart"][tj, ti]
        ctx.count("evaluations")
        ctx.state(case["grid"], case["direction"], case["across"], axis)
        if not abs(got - 2 * want) < 2e-4 * want:
            ctx.fail(f"grid {case['grid']} {lon.tolist()}: {got / 2:.6g} kg/m2 arrives in the "
                     f"neighbour in direction {axis}, {want:.6g} expected")
    ctx.sample(case)
