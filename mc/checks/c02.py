"""C02: tracked water stays within its physical bounds."""
import datetime as dtm

import numpy as np

from mc import ref, scen, synth, wam
from mc.checks import c01, c28

ID = "C02"
LEVEL = "exploration"
RULE = ("every combination of direction, periodicity, wind, storage and rain symbols; an "
        "evaluation is one output file in which every field of every cell is checked "
        "against its bounds; distinct non-trivial = distinct stored states with tracked "
        "water")
ASSUMPTIONS = ["positive storages, non-negative precipitation and evaporation, no missing "
               "input", "bounds hold within single precision (1e-5 of the field's scale)"]
preload = wam.preload


def cases(tier):
    if tier == "quick":
        return (scen.product(direction=["forward", "backward"], periodic=[False, True],
                             wind=["calm", "east", "vortex", "patchy", "gale"],
                             store=["steady", "drying", "thin_upper", "thin_lower",
                                    "flicker"],
                             rain=["both", "cloudburst"], kvf=[3], dt=[3600])
                + scen.product(direction=["forward", "backward"], periodic=[False],
                               wind=["shear"], store=["moistening"],
                               rain=["none", "rain", "dew"], kvf=[0, 3], dt=[1800]))
    return scen.product(direction=["forward", "backward"], periodic=[False, True],
                        wind=scen.WINDS, store=scen.STORES, rain=scen.RAINS,
                        kvf=[0, 3], dt=[3600, 1800])


def run_case(case, ctx):
    cfg, data, kw = c28.setup(case, ctx, nt=5)
    synth.run_tracking(cfg)
    impl = synth.ordered(cfg)
    if not impl:
        ctx.fail("the run wrote no output")
    check_bounds(case, cfg, data, kw, impl, ctx)
    ctx.sample({**case, "outputs": [n for n, _ in impl]})


def check_bounds(case, cfg, data, kw, impl, ctx):
    back = case["direction"] == "backward"
    step = dtm.timedelta(seconds=cfg["timestep"])
    t = kw["end"] if back else kw["start"]
    tags, outs = c01.names(case["direction"])
    for name, o in impl:
        ctx.count("evaluations")
        end = o["time"][0]
        rain = evap = tagged = 0.0
        while (t > end) if back else (t < end):
            f = data.fluxes(t - step / 2 if back else t + step / 2)
            rain = rain + f["precip"] * cfg["timestep"]
            evap = evap + f["evap"] * cfg["timestep"]
            if kw["tag_start"] <= t <= kw["tag_end"]:
                tagged = tagged + kw["mask"] * cfg["timestep"] * (
                    f["precip"] if back else f["evap"])
            t = t - step if back else t + step
        s = data.states(end)
        fields = tags + outs + ["losses", "gains", "s_track_upper_restart",
                                "s_track_lower_restart"]
        for k in fields:
            if not np.all(np.isfinite(o[k])):
                ctx.fail(f"{name}: {k} has {int(np.sum(~np.isfinite(o[k])))} missing values")
                return
            if np.min(o[k]) < -1e-7 * max(1e-3, np.max(np.abs(o[k]))):
                ctx.fail(f"{name}: {k} is negative: {np.min(o[k]):.6g}")
        for k in ("upper", "lower"):
            over = np.max(o[f"s_track_{k}_restart"] - s[k] * (1 + 1e-5))
            if over > 1e-6:
                ctx.fail(f"{name}: tracked water in the {k} layer exceeds the layer's water "
                         f"by {over:.6g}")
        cap = evap if back else rain
        trk = sum(o[k] for k in outs)
        over = np.max(trk - cap * (1 + 1e-5))
        if over > 1e-6:
            ctx.fail(f"{name}: tracked {'evaporation' if back else 'precipitation'} exceeds "
                     f"what there was by {over:.6g}")
        over = np.max(o[tags[0]] - tagged * (1 + 1e-5))
        if over > 1e-6:
            ctx.fail(f"{name}: tagged more than available in the tagging region and period, "
                     f"by {over:.6g}")
        if np.any(o["s_track_lower_restart"] > 0):
            ctx.state_arrays(o["s_track_lower_restart"].astype("f4"),
                             o["s_track_upper_restart"].astype("f4"))
            ctx.count("outputs_with_full_layers", np.any(
                o["s_track_lower_restart"] >= s["lower"] * (1 - 1e-6)))
