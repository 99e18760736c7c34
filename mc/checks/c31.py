"""C31: attribution is additive over regions and periods."""
import datetime as dtm
import itertools

import numpy as np

from mc import scen, synth, wam
from mc.checks import c04

ID = "C31"
LEVEL = "exploration"
RULE = ("for every combination of direction, boundary type, weather, storage and mixing "
        "symbols: runs for every non-empty union of four parts of a region and every "
        "sub-period of a tagging period, every set partition and every composition of which "
        "is then summed field by field and output by output, and runs with scaled weights; "
        "an evaluation is one partition, composition or scaling compared, distinct = distinct "
        "ones per weather")
ASSUMPTIONS = ["tracked water stays well below the water present and there are no gains, "
               "which is checked on the undivided run",
               "single precision: agreement within 2e-5 of the largest value of the field"]
preload = wam.preload
NT = 6


def cases(tier):
    if tier == "quick":
        return scen.product(direction=["forward", "backward"], periodic=[False, True],
                            wind=["shear", "wave"],
                            store=["gradient"], kvf=[3], dt=[3600]) + scen.product(
            direction=["forward", "backward"], periodic=[False, True], wind=["patchy"],
            store=["drying"], kvf=[0], dt=[1800])
    return scen.product(direction=["forward", "backward"], periodic=[False, True],
                        wind=[w for w in scen.WINDS], store=["gradient", "steady", "drying"],
                        kvf=[0, 3], dt=[3600, 1800])


def set_partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in set_partitions(rest):
        yield [[first]] + p
        for k in range(len(p)):
            yield p[:k] + [[first] + p[k]] + p[k + 1:]


def run_case(case, ctx):
    lat, lon = scen.grid("ring" if case["periodic"] else "mid")
    shape = (len(lat), len(lon))
    back = case["direction"] == "backward"
    times = synth.hours(synth.T(2021, 7, 1, 21), NT)
    f = scen.make_fields(case["wind"], case["store"], "both", NT, *shape,
                         0.3 * scen.flux_scale(lat, lon))
    for n in ("precip", "evap"):  # far from any overshoot
        f[n] = f[n] * (2e-5 / max(f[n].max(), 1e-12))
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f)
    parts = []
    for rows, cols in itertools.product((slice(1, 3), slice(3, 6)), (slice(1, 4),
                                                                     slice(4, 8))):
        m = np.zeros(shape)
        m[rows, cols] = 1
        parts.append(m)
    parts[0][1, 1] = 0.25  # weights need not be 0 or 1
    parts[3] *= 0.5
    parts[3][2, 3] = 0.5  # nor parts be boxes
    n = [0]

    def go(mask, a, b):
        n[0] += 1
        c04.write_mask(ctx.tmp / f"mask{n[0]}.nc", lat, lon, mask)
        out = ctx.tmp / f"out{n[0]}"
        out.mkdir()
        cfg = synth.base_config(
            ctx.tmp, tracking_direction=case["direction"], output_folder=out,
            periodic_boundary=case["periodic"], kvf=case["kvf"], timestep=case["dt"],
            tagging_region=str(ctx.tmp / f"mask{n[0]}.nc"), output_frequency="1h",
            tracking_start_date=times[0], tracking_end_date=times[-1],
            tagging_start_date=a, tagging_end_date=b)
        synth.run_tracking(cfg, str(ctx.tmp / "config.yaml"))
        return [{k: v for k, v in o.items() if getattr(v, "shape", None) == shape}
                | {"time": o["time"][0]} for _, o in synth.ordered(cfg)]

    # by region
    key = tuple(case[k] for k in ("direction", "periodic", "wind", "store", "kvf", "dt"))
    idx = range(4)
    runs = {}
    for size in idx:
        for sub in itertools.combinations(idx, size + 1):
            runs[sub] = go(sum(parts[i] for i in sub), times[0], times[-1])
    whole = runs[0, 1, 2, 3]
    for o in whole:
        w = times.index(o["time"])
        for layer in ("upper", "lower"):
            if np.any(o[f"s_track_{layer}_restart"] > 0.9 * f["s_" + layer][w]):
                raise RuntimeError("the scenario tracks too much water")
        if np.any(o["gains"] != 0):
            ctx.fail("gains although there is plenty of water everywhere")
            return
    for p in set_partitions(list(idx)):
        if len(p) > 1 and not same(ctx, f"region divided into {p}", whole,
                                   [runs[tuple(sorted(q))] for q in p], 1):
            return
        ctx.state(key, "region", tuple(map(tuple, p)))
    # by period: windows of whole steps
    cuts = [times[0] + k * dtm.timedelta(minutes=75) for k in range(5)]
    sec = dtm.timedelta(minutes=1)
    win = {(a, b): go(sum(parts), cuts[a] + sec, cuts[b])
           for a, b in itertools.combinations(range(5), 2)}
    for inner in range(4):
        for c in itertools.combinations((1, 2, 3), inner):
            q = [0, *c, 4]
            if not same(ctx, f"tagging period divided at {[str(cuts[x]) for x in c]}",
                        win[0, 4], [win[a, b] for a, b in zip(q, q[1:])], 1):
                return
            ctx.state(key, "period", c)
    for w in (0.5, 0.2):
        if not same(ctx, f"weights scaled by {w}", whole,
                    [go(w * sum(parts), times[0], times[-1])], 1 / w):
            return
        ctx.state(key, "scale", w)
    ctx.sample(case)


def same(ctx, what, whole, parts, factor):
    ctx.count("evaluations")
    for k, o in enumerate(whole):
        for n, v in o.items():
            if n == "time":
                if any(p[k]["time"] != v for p in parts):
                    ctx.fail(f"{what}: output times differ")
                    return False
                continue
            s = factor * sum(p[k][n] for p in parts)
            scale = max(np.max(np.abs(v)), np.max(np.abs(o["s_track_lower_restart"])) / 100,
                        1e-6)
            if not np.all(np.abs(s - v) <= 2e-5 * scale):
                ctx.fail(f"{what}: {n} at {o['time']} is {np.max(np.abs(s - v)):.3g} off the "
                         f"sum of its parts (largest value {np.max(np.abs(v)):.3g})")
                return False
    return True
