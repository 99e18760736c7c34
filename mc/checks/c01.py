"""C01: the tracked-water budget closes in every output interval."""
import numpy as np

from mc import ref, scen, synth, wam
from mc.checks import c28

ID = "C01"
LEVEL = "exploration"
RULE = ("every combination of direction, periodicity, wind, storage and rain symbols (and "
        "grids, steps, mixing factors); an evaluation is one output interval whose area "
        "weighted budget is checked; distinct non-trivial = distinct stored states with "
        "tracked water in the atmosphere")
ASSUMPTIONS = ["positive storages, no missing input", "closure within single precision: "
               "3e-5 of the water moved in the interval"]
preload = wam.preload


def cases(tier):
    if tier == "quick":
        return (scen.product(direction=["forward", "backward"], periodic=[False, True],
                             wind=["calm", "north", "shear", "converge", "patchy",
                                   "gale"],
                             store=["gradient", "drying", "thin_lower", "flicker"],
                             rain=["both", "cloudburst"], kvf=[3], dt=[3600])
                + scen.product(direction=["forward", "backward"], periodic=[False, True],
                               grid=["ring", "flat", "south"], wind=["wave"],
                               store=["moistening"], rain=["both", "dew"], kvf=[0],
                               dt=[1800]))
    return (scen.product(direction=["forward", "backward"], periodic=[False, True],
                         wind=scen.WINDS, store=scen.STORES, rain=scen.RAINS,
                         kvf=[0, 3], dt=[3600, 1200])
            + scen.product(direction=["forward", "backward"], periodic=[False, True],
                           grid=["ring", "flat", "south", "small"],
                           wind=["wave", "patchy"], store=scen.STORES,
                           rain=["both", "dew"], kvf=[0, 3, 20], dt=[1800, 900]))


def names(direction):
    if direction == "backward":
        return ["tagged_precip"], ["e_track"]
    return ["tagged_evap"], ["p_track_upper", "p_track_lower"]


def budget(case, data, impl, ctx, init=None):
    area = ref.geometry(data.lat, data.lon)[0][:, None]
    tags, outs = names(case["direction"])
    shape = (len(data.lat), len(data.lon))
    prev = np.zeros(shape) if init is None else init
    for name, o in impl:
        tot = lambda k: float(np.sum(o[k] * area))
        now = o["s_track_upper_restart"] + o["s_track_lower_restart"]
        d = float(np.sum((now - prev) * area))
        tag, trk = sum(map(tot, tags)), sum(map(tot, outs))
        loss, gain = tot("losses"), tot("gains")
        size = (tag + trk + loss + gain + float(np.sum(now * area))
                + float(np.sum(prev * area)))
        err = d - (tag - trk - loss + gain)
        ctx.count("evaluations")
        if not np.isfinite(err) or abs(err) > 3e-5 * size + 1e-3:
            ctx.fail(f"{name}: storage changed by {d:.6g} kg, but tagged {tag:.6g} - tracked "
                     f"{trk:.6g} - losses {loss:.6g} + gains {gain:.6g} = {d - err:.6g}")
        if np.any(now > 0):
            ctx.state_arrays(now.astype("f4"))
            ctx.count("intervals_with_gains", gain > 0)
            ctx.count("intervals_with_interior_losses", float(np.sum(
                o["losses"][~ref.edge_mask(shape, case["periodic"])])) > 0)
        prev = now


def run_case(case, ctx):
    cfg, data, kw = c28.setup(case, ctx, nt=5)
    synth.run_tracking(cfg)
    impl = synth.ordered(cfg)
    if not impl:
        ctx.fail("the run wrote no output")
    budget(case, data, impl, ctx)
    ctx.sample({**case, "outputs": [n for n, _ in impl]})
