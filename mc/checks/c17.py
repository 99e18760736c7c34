"""C17: preprocessed longitudes run from -180 to 180 with values in place."""
import itertools

import numpy as np

from mc import prep, synth, wam

ID = "C17"
LEVEL = "exploration"
RULE = ("every grid of the alphabet (convention, resolution, origin, extent) preprocessed by "
        "the real ERA5 and CMIP chains; every value encodes its own meridian and parallel; an "
        "evaluation is one stored column; distinct = distinct stored longitude axes")
ASSUMPTIONS = ["input longitudes increase within one convention (-180..180 or 0..360)",
               "regional grids that cross the antimeridian have at least four columns",
               "180 and -180 are the same meridian"]
preload = wam.preload


def axes(tier):
    """Longitude axes by name."""
    out = {}
    res = [30.0, 22.5, 40.0] if tier == "quick" else [10.0, 15.0, 22.5, 30.0, 36.0, 40.0,
                                                      60.0]
    for d in res:
        n = round(360 / d)
        for off in (0.0, d / 2, d / 4):
            out[f"global 0..360 {d} from {off}"] = off + d * np.arange(n)
            out[f"global -180..180 {d} from {-180 + off}"] = -180 + off + d * np.arange(n)
    reg = [1.0, 0.25] if tier == "quick" else [2.0, 1.0, 0.75, 0.25, 0.1]
    n = 6
    for d in reg:
        for c, w in itertools.product(
                ("east", "west"),
                (-180.0, -90.0, -n * d, -n * d / 2, -d, 0.0, d, 90.0, 180 - n * d)):
            x = w + d * np.arange(n)
            name = f"region {c} {d} from {w}"
            if c == "east":  # 0..360
                y = x % 360
                if np.all(np.diff(y) > 0):
                    out[name] = y
            else:
                out[name] = x
        # across the antimeridian in 0..360
        for k in range(1, n):
            out[f"region across 180 {d} {k}"] = 180 - k * d + d * np.arange(n)
    return out


def cases(tier):
    names = list(axes(tier))
    out = [dict(tier=tier, source="ERA5", names=names[i:i + 6])
           for i in range(0, len(names), 6)]
    some = names[::3] if tier == "quick" else names
    out += [dict(tier=tier, source="CMIP", names=some[i:i + 3])
            for i in range(0, len(some), 3)]
    return out


def run_case(case, ctx):
    ax = axes(case["tier"])
    for n, name in enumerate(case["names"]):
        one(ctx, ctx.tmp / str(n), case["source"], name, ax[name])


def one(ctx, root, source, name, lon):
    ny, nx = 4, len(lon)
    lat = 60.0 - 7.5 * np.arange(ny)
    mer = lon % 360  # the meridian, whatever the convention
    code = 1 + mer[None, :] / 360 + 2 * np.arange(ny)[:, None]
    t = synth.T(2021, 7, 1, 6)
    times = [t]
    if source == "ERA5":
        nlev, levels = 2, [100, 130]
        w = 0.001 * code[None, None] * np.array([1, 2]).reshape(1, 2, 1, 1)
        f = dict(q=w, u=np.full_like(w, 3.0), v=-1000 * w, sp=1e5 + 10 * code[None],
                 e=-1e-4 * code[None], tp=2e-4 * code[None])
        tpl = prep.write_era5(root / "in", times, lat, lon, "model_levels", levels, f)
        cfg = prep.config(root, tpl, t, t, levels=levels)
        prep.run(cfg)
        want = prep.model_levels(levels, 111, f["q"][0], f["u"][0], f["v"][0], f["sp"][0])
        want["precip"], want["evap"] = prep.net_fluxes(f["tp"][0] * 1000 / 3600,
                                                       -f["e"][0] * 1000 / 3600)
    else:
        p = np.array([100000.0, 85000.0, 50000.0, 20000.0])
        w = 0.001 * code[None, None] * np.array([4, 3, 2, 1]).reshape(1, 4, 1, 1)
        t3 = [synth.T(2021, 7, 1, 1, 30), synth.T(2021, 7, 1, 4, 30),
              synth.T(2021, 7, 1, 7, 30), synth.T(2021, 7, 1, 10, 30)]
        f = dict(q=w, u=np.full_like(w, 3.0), v=-1000 * w, sp=101000 + 10 * code[None],
                 qs=0.005 * code[None], us=np.full((1, ny, nx), 2.0),
                 vs=-1.0 * code[None],
                 hfls=np.ones((4, 1, 1)) * 50 * code, pr=np.ones((4, 1, 1)) * 1e-4 * code)
        tpl = prep.write_cmip(root / "in", times, t3, lat, lon, p, f)
        cfg = prep.config(root, tpl, t, t, levels="all", level_type="pressure_levels",
                          input_frequency="6h")
        prep.run(cfg, "CMIP")
        want = {"precip": 1e-4 * code, "evap": 50 * code / prep.LATENT}
        want.update({k: np.zeros((ny, nx)) for k in prep.OUT if k not in want})
        for j, i in itertools.product(range(ny), range(nx)):
            c = prep.pressure_column(p, w[0, :, j, i], f["u"][0, :, j, i],
                                     f["v"][0, :, j, i], f["sp"][0, j, i],
                                     f["qs"][0, j, i], 2.0, f["vs"][0, j, i],
                                     0.72878581, 7438.803223)
            for k, x in c.items():
                want[k][j, i] = x
    got = prep.read(cfg).get("2021-07-01")
    what = f"{source}, {name}"
    if got is None:
        ctx.fail(f"{what}: nothing stored")
        return
    glon, glat = got["longitude"].astype("f8"), got["latitude"].astype("f8")
    ctx.count("evaluations", len(glon))
    ctx.state(source, np.round(glon, 6).tolist())
    if glon.shape != lon.shape or not np.all(np.diff(glon) > 0):
        ctx.fail(f"{what}: stored longitudes are {glon[:6]}..., not increasing")
        return
    if glon.min() < -180 or glon.max() > 180:
        ctx.fail(f"{what}: stored longitudes {glon.min()} to {glon.max()}")
    if not np.allclose(glat, lat):
        ctx.fail(f"{what}: latitudes {lat} became {glat}")
        return
    if np.all((lon >= -180) & (lon < 180)) and not np.allclose(glon, lon, atol=1e-6):
        ctx.fail(f"{what}: longitudes within range were changed to {glon[:6]}")
        return
    # each stored column must be that of its meridian
    idx = []
    for x in glon:
        d = np.abs((mer - x + 180) % 360 - 180)
        k = int(np.argmin(d))
        if d[k] > 1e-6:
            ctx.fail(f"{what}: there is no input at the stored longitude {x}")
            return
        idx.append(k)
    if sorted(idx) != list(range(nx)):
        ctx.fail(f"{what}: some meridians are missing: {glon}")
        return
    for k, a in want.items():
        g = got[k][0]
        b = a[:, idx]
        # 1 Pa of surface pressure is lost for CMIP (integer coordinates)
        tol = (2e-5 if source == "ERA5" else 2e-4) * np.abs(a).max() * 0.3
        bad = np.abs(g - b) > tol
        if bad.any():
            j, i = np.argwhere(bad)[0]
            ctx.fail(f"{what}: {k} at {glat[j]}N {glon[i]}E is {g[j, i]:.6g}, input gives "
                     f"{b[j, i]:.6g}")
            return
    for c, axis, half in (("longitude", glon, (lon[1] - lon[0]) / 2),
                          ("latitude", glat, 7.5 / 2)):
        b = got.get(c + "_bnds")
        if b is None:
            ctx.fail(f"{what}: no {c} bounds")
            continue
        b = np.sort(b.astype("f8"), axis=1)
        if not (np.allclose(b[:, 0], axis - half, atol=1e-5)
                and np.allclose(b[:, 1], axis + half, atol=1e-5)):
            ctx.fail(f"{what}: {c} bounds {b[:2].tolist()} of {axis[:2]}, spacing {2 * half}")
    ctx.sample({"source": source, "grid": name, "stored": glon[:4].tolist()})
