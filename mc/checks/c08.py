"""C08: restarting from any output continues the same run."""
import datetime as dtm
import itertools
import os
import shutil
from pathlib import Path

import numpy as np

from mc import ref, scen, synth, wam
from mc.checks import c28

ID = "C08"
LEVEL = "fault_enumeration"
RULE = ("for every configuration of the alphabets: every set of interruption points among the "
        "outputs of a run (all chains of restarts), and every single interruption with each "
        "remainder of the next output file (none, empty, truncated, complete, complete "
        "but of another run); every single and every pair of interruptions at any time "
        "step, also between outputs; an evaluation is one restarted run whose outputs are all "
        "compared with the uninterrupted run; distinct = distinct interruption histories")
ASSUMPTIONS = ["the interrupted run got as far as a complete output file at the restart time",
               "agreement up to the single precision of the stored state: 2e-4 of the "
               "field's scale"]
preload = wam.preload

STYLES = ["hourly", "two_hourly", "half_hour_steps", "domain", "rolled", "late_tag"]


def cases(tier):
    if tier == "quick":
        a = scen.product(kind=["chains"], direction=["forward", "backward"],
                         style=STYLES, periodic=[False], wind=["patchy"], store=["flicker"],
                         rain=["both"])
        a += scen.product(kind=["torn"], direction=["forward", "backward"],
                          style=["hourly"], periodic=[True], wind=["vortex"],
                          store=["gradient"], rain=["both"])
        a += scen.product(kind=["cut"], direction=["forward", "backward"],
                          style=["two_hourly", "half_hour_steps", "late_tag"],
                          periodic=[False], wind=["patchy"], store=["flicker"],
                          rain=["both"], most=[2], part=[0, 1, 2, 3], parts=[4])
        return a
    a = scen.product(kind=["chains"], direction=["forward", "backward"], style=STYLES,
                     periodic=[False, True], wind=["patchy", "gale", "shear"],
                     store=["flicker", "drying"], rain=["both", "cloudburst"])
    a += scen.product(kind=["cut"], direction=["forward", "backward"], style=STYLES,
                      periodic=[False, True], wind=["patchy", "shear"],
                      store=["flicker"], rain=["both"], most=[3], part=range(8), parts=[8])
    return a + scen.product(kind=["torn"], direction=["forward", "backward"],
                            style=STYLES, periodic=[False, True], wind=["vortex"],
                            store=["gradient", "thin_upper"], rain=["both"])


def build(case, ctx):
    style = case["style"]
    grid = "ring" if style == "rolled" or case["periodic"] else "mid"
    if style in ("domain", "rolled") and case["periodic"]:
        style = "hourly"
    c = dict(case, grid=grid, dt=1800 if style == "half_hour_steps" else 3600)
    kw = {"output_frequency": {"two_hourly": "2h", "half_hour_steps": "1h",
                               "late_tag": "2h"}.get(style, "1h")}
    if style == "domain":
        kw["tracking_domain"] = [-1, 45.5, 5, 50.5]
    if style == "rolled":
        kw["tracking_domain"] = [60, -60, -60, 60]
        kw["tagging_region"] = [100, -30, -100, 30]
    cfg, data, _ = c28.setup(c, ctx, nt=7, **kw)
    if style == "late_tag":  # tagging stops in the middle
        cfg["tagging_end_date"] = cfg["tagging_start_date"] = "2021-07-01T23:00"
    return cfg


def run_case(case, ctx):
    cfg = build(case, ctx)
    back = case["direction"] == "backward"
    synth.run_tracking(cfg)
    base = synth.ordered(cfg)
    folder = Path(cfg["output_folder"])
    full = ctx.tmp / "full"
    shutil.copytree(folder, full)
    n = len(base)
    if n < 3:
        ctx.fail(f"only {n} outputs")
        return
    if not any(np.any(o["s_track_lower_restart"] > 0) for _, o in base):
        ctx.fail("no water was tracked at all")
    if case["kind"] == "cut":
        cut(case, ctx, cfg, base)
    elif case["kind"] == "torn":
        for k in range(n - 1):
            for torn in ("none", "empty", "truncated", "complete", "other"):
                chain(case, ctx, cfg, base, full, [k], torn)
    else:
        for r in range(1, n):
            for pts in itertools.combinations(range(n - 1), r):
                chain(case, ctx, cfg, base, full, pts, "none")


def tolerances(base):
    scale = {}
    for _, b in base:
        for v, x in b.items():
            if isinstance(x, np.ndarray) and x.ndim == 2 and v not in (
                    "time_bnds", "latitude_bnds", "longitude_bnds"):
                scale[v] = max(scale.get(v, 0), np.max(np.abs(x)))
    st = max(scale["s_track_upper_restart"], scale["s_track_lower_restart"], 1e-6)
    return {v: 2e-4 * (st if v in ("losses", "gains") or v.startswith("s_track")
                       else max(x, 1e-6)) for v, x in scale.items()}


def cut(case, ctx, cfg, base):
    """Runs that end at any time step, each continued by a restart from there."""
    back = case["direction"] == "backward"
    t0, t1 = (synth_time(cfg[f"tracking_{e}_date"]) for e in ("start", "end"))
    dt = dtm.timedelta(seconds=cfg["timestep"])
    steps = []
    t = t0 + dt
    while t < t1:
        steps.append(t)
        t += dt
    if back:
        steps = steps[::-1]
    first, last = (t1, t0) if back else (t0, t1)
    tols = tolerances(base)
    names = {n for n, _ in base}
    for r in range(1, case["most"] + 1):
        for pts in list(itertools.combinations(steps, r))[case["part"]:: case["parts"]]:
            root = ctx.tmp / "-".join(["x"] + [p.strftime("%H%M") for p in pts])
            (root / "out").mkdir(parents=True)
            what = f"interrupted at {[synth.iso(p) for p in pts]}"
            for a, b in zip((first,) + pts, pts + (last,)):
                c = dict(cfg, output_folder=str(root / "out"), restart=a != first)
                lo, hi = (b, a) if back else (a, b)
                c["tracking_start_date"], c["tracking_end_date"] = map(
                    synth.iso, (lo, hi))
                synth.run_tracking(c, str(root / "config.yaml"))
            got = synth.ordered(dict(cfg, output_folder=str(root / "out")))
            ctx.count("evaluations")
            ctx.state(case, pts)
            cuts = {synth.out_name(case["direction"], p) for p in pts}
            if {n for n, _ in got} != names | cuts:
                ctx.fail(f"{what}: outputs {[n for n, _ in got]}, uninterrupted "
                         f"{sorted(names)}")
                return
            ctx.count("interruptions_between_outputs", len(cuts - names))
            got = dict(got)
            order = sorted(got, reverse=back)
            since = 0
            for name, b in base:
                at = order.index(name)
                legs = [got[n] for n in order[since: at + 1]]
                since = at + 1
                for v, tol in tols.items():
                    x = (legs[-1][v] if v.startswith("s_track")
                         else sum(leg[v] for leg in legs))
                    d = np.abs(x - b[v])
                    if not np.all(d <= tol):
                        ctx.fail(f"{what}: {v} in {name} differs by {np.nanmax(d):.4g} "
                                 "from the uninterrupted run (largest value "
                                 f"{np.max(np.abs(b[v])):.4g})")
                        return
    ctx.sample({"history": what, **case})


def synth_time(text):
    d = dtm.datetime.fromisoformat(text)
    return synth.T(d.year, d.month, d.day, d.hour, d.minute)


def chain(case, ctx, cfg, base, full, points, torn):
    """Restart at each of the given outputs in turn, in a folder of its own."""
    back = case["direction"] == "backward"
    root = ctx.tmp / ("c" + "-".join(map(str, points)) + torn)
    out = root / "out"
    out.mkdir(parents=True)
    names = [n for n, _ in base]
    what = f"restart at {[names[p] for p in points]}, next file {torn}"
    for k in range(points[0] + 1):
        shutil.copy(full / names[k], out / names[k])
    if torn != "none":
        nxt = points[0] + 1
        raw = (full / names[nxt]).read_bytes()
        if torn == "other":
            raw = (full / names[0]).read_bytes()
        (out / names[nxt]).write_bytes(
            {"empty": b"", "truncated": raw[: len(raw) // 2]}.get(torn, raw))
    ends = list(points[1:]) + [len(names) - 1]
    for p, q in zip(points, ends):
        before = {f.name: f.read_bytes() for f in out.glob("*.nc")
                  if f.name in names[: p + 1]}
        c = dict(cfg, output_folder=str(out), restart=True)
        c["tracking_end_date" if back else "tracking_start_date"] = synth.iso(
            base[p][1]["time"][0])
        c["tracking_start_date" if back else "tracking_end_date"] = synth.iso(
            base[q][1]["time"][0])
        synth.run_tracking(c, str(root / "config.yaml"))
        for f, b in before.items():
            if (out / f).read_bytes() != b:
                ctx.fail(f"{what}: the earlier output {f} was changed")
    ctx.count("evaluations")
    ctx.state(case, tuple(points), torn)
    got = synth.outputs(dict(cfg, output_folder=str(out)))
    if sorted(got) != sorted(names):
        ctx.fail(f"{what}: outputs {sorted(got)} instead of {sorted(names)}")
        return
    tols = tolerances(base)
    for name, b in base:
        for v, tol in tols.items():
            d = np.abs(got[name][v] - b[v])
            if not np.all(d <= tol):
                ctx.fail(f"{what}: {v} in {name} differs by {np.nanmax(d):.4g} from the "
                         f"uninterrupted run (largest value {np.max(np.abs(b[v])):.4g})")
                return
        for v in ("time", "time_bnds"):
            if not np.array_equal(got[name][v], b[v]):
                ctx.fail(f"{what}: {v} of {name} is {got[name][v]}, uninterrupted "
                         f"{b[v]}")
                return
    ctx.sample({"history": what, **case})
