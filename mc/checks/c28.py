"""C28: a tracking run equals the documented two-layer scheme (reference transition system)."""
import datetime as dtm

import numpy as np

from mc import ref, scen, synth, wam

ID = "C28"
LEVEL = "model_checking"
RULE = ("every combination of the listed direction, periodicity, grid, step length, kvf, "
        "wind, storage and rain/evaporation symbols; a state is a distinct pair of "
        "tracked storages of the reference transition system, a transition one time "
        "step, a validated trace one complete run whose every output file equals the model")
ASSUMPTIONS = [
    "preprocessed input has positive storages and no missing values",
    "float32 round-off: agreement within 1e-4 of the field's scale",
    "the vertical flux may follow either the balance or the recorded finding of C06",
]
preload = wam.preload


def cases(tier):
    if tier == "quick":
        a = scen.product(direction=["forward", "backward"], periodic=[False, True],
                         grid=["mid"], kvf=[3], dt=[1800],
                         wind=["east", "southwest", "shear", "vortex", "patchy", "gale"],
                         store=["gradient", "drying", "thin_upper", "flicker"],
                         rain=["both", "cloudburst"])
        b = scen.product(direction=["forward", "backward"], periodic=[False, True],
                         grid=["ring", "flat", "south"], kvf=[0, 1.5], dt=[3600, 900],
                         wind=["wave"], store=["gradient"], rain=["both"])
        return a + b
    a = scen.product(direction=["forward", "backward"], periodic=[False, True],
                     grid=["mid"], kvf=[0, 3], dt=[1800], wind=scen.WINDS,
                     store=scen.STORES, rain=scen.RAINS)
    b = scen.product(direction=["forward", "backward"], periodic=[False, True],
                     grid=["ring", "flat", "south", "small"], kvf=[0, 1.5, 10],
                     dt=[3600, 1800, 900, 1200], wind=["wave", "patchy"],
                     store=["gradient", "flicker"], rain=["both"])
    return a + b


def setup(case, ctx, nt=6, t0=None, **cfgkw):
    """Input files, configuration and the same data for the model."""
    lat, lon = scen.grid(case.get("grid", "mid"))
    ny, nx = len(lat), len(lon)
    scale = scen.flux_scale(lat, lon)
    fields = scen.make_fields(case["wind"], case["store"], case["rain"], nt, ny, nx, scale)
    t0 = t0 or synth.T(2021, 7, 1, 21)
    times = synth.hours(t0, nt)
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, fields)
    (ctx.tmp / "out").mkdir(exist_ok=True)
    region = [float(lon[2]), float(lat[-2]), float(lon[-3]), float(lat[1])]
    cfg = synth.base_config(
        ctx.tmp, tracking_direction=case["direction"], periodic_boundary=case["periodic"],
        kvf=case.get("kvf", 3), timestep=case.get("dt", 3600), tagging_region=region,
        tracking_start_date=times[0], tracking_end_date=times[-1],
        tagging_start_date=times[1], tagging_end_date=times[-2],
        output_frequency="2h")
    cfg.update({k: synth.iso(v) if k.endswith("_date") else v for k, v in cfgkw.items()})
    data = ref.Data(times, lat, lon, fields)
    kw = dict(direction=case["direction"], start=times[0], end=times[-1],
              tag_start=times[1], tag_end=times[-2], dt=cfg["timestep"],
              out_seconds=7200, kvf=cfg["kvf"], periodic=case["periodic"],
              mask=ref.bbox_mask(region, lat, lon))
    return cfg, data, kw


def compare(model_out, impl, tol=1e-4):
    """None when every output of the run equals the model, else a description."""
    if len(model_out) != len(impl):
        return (f"{len(impl)} output files, expected {len(model_out)}: "
                f"{[n for n, _ in impl]}", 0)
    scale = {}
    for _, want in model_out:
        for k, v in want.items():
            scale[k] = max(scale.get(k, 0), float(np.max(np.abs(v))))
    s = max(scale["s_track_upper_restart"], scale["s_track_lower_restart"],
            scale["losses"], scale["gains"], 1e-6)
    worst = 0
    for (t, want), (name, got) in zip(model_out, impl):
        if got["time"][0] != t:
            return f"{name}: time label {got['time'][0]}, expected {t}", 0
        for k, v in want.items():
            g = got[k]
            if g.shape != v.shape or not np.all(np.isfinite(g)):
                return f"{name}: {k} has missing values or a wrong shape", 0
            lim = tol * (s if k in ("losses", "gains") or k.startswith("s_track")
                         else max(scale[k], 1e-6))
            d = np.max(np.abs(g - v))
            worst = max(worst, d / lim)
            if d > lim:
                ij = np.unravel_index(np.argmax(np.abs(g - v)), v.shape)
                return (f"{name}: {k} at cell {tuple(int(q) for q in ij)} is "
                        f"{g[ij]:.6g}, the model gives {v[ij]:.6g}", worst)
    return None, worst


def against_model(ctx, data, kw, impl, tol=1e-4):
    errs = []
    for mode in ("listed", "balance"):
        n = [0]

        def visit(m):
            n[0] += 1
            ctx.state_arrays(m.A["upper"].astype("f4"), m.A["lower"].astype("f4"))

        out, m = ref.run(data, mode=mode, visit=visit, **kw)
        ctx.count("transitions", n[0])
        err, worst = compare(out, impl, tol)
        if err is None:
            ctx.count("traces_validated_against_impl")
            ctx.count("outputs_compared", len(out))
            return m
        errs.append(err)
    ctx.fail(errs[0])
    return None


def run_case(case, ctx):
    cfg, data, kw = setup(case, ctx)
    synth.run_tracking(cfg)
    impl = synth.ordered(cfg)
    m = against_model(ctx, data, kw, impl)
    if m is not None:
        ctx.count("runs_with_flux_limitation", m.limited)
    ctx.sample({**case, "outputs": [n for n, _ in impl]})
