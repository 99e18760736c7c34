"""C09: output appears exactly on schedule and loses nothing in between."""
import datetime as dtm

import numpy as np

from mc import ref, scen, synth, wam

ID = "C09"
LEVEL = "exploration"
RULE = ("every combination of direction, tracking start, tracking length, time step and "
        "output frequency of the alphabets; an evaluation is one run: its files, labels, "
        "accumulated sums and storages against the schedule and against the run that "
        "writes output after every step; distinct = distinct schedules with output")
ASSUMPTIONS = ["output frequencies up to one day (multiples are counted from midnight)",
               "time steps divide into the input data's range"]
preload = wam.preload
FREQ = {"30min": 1800, "1h": 3600, "2h": 7200, "3h": 10800, "6h": 21600, "1D": 86400,
        "90min": 5400, "24h": 86400}


def cases(tier):
    if tier == "quick":
        return scen.product(direction=["forward", "backward"],
                            start=["2021-06-30T21:00", "2021-06-30T22:30"],
                            minutes=[60, 180, 330], dt=[1800, 3600, 5400],
                            freqs=[["1h", "2h", "3h", "1D"]])
    return scen.product(direction=["forward", "backward"],
                        start=["2021-06-30T21:00", "2021-06-30T22:30", "2021-07-01T00:00",
                               "2021-06-30T23:20"],
                        minutes=[30, 60, 120, 180, 300, 330, 400],
                        dt=[600, 1200, 1800, 2400, 3600, 5400, 7200],
                        freqs=[["30min", "90min", "1h"], ["2h", "3h", "6h"],
                               ["1D", "24h"]])


def schedule(direction, start, end, dt, out):
    """Times at which a run writes output."""
    step = dtm.timedelta(seconds=dt)
    t, sgn = (start, 1) if direction == "forward" else (end, -1)
    res = []
    while start <= t + sgn * step <= end:
        t = t + sgn * step
        last = not (start <= t + sgn * step <= end)
        if last or ref.is_multiple(t, out):
            res.append(t)
    return res


def run_case(case, ctx):
    lat, lon = scen.grid("small")
    t0 = synth.T(2021, 6, 30, 20)
    nt = 11
    times = synth.hours(t0, nt)
    f = scen.make_fields("patchy", "flicker", "both", nt, len(lat), len(lon))
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f)
    y, mo, d, h, mi = (int(x) for x in case["start"].replace("T", "-").replace(
        ":", "-").split("-"))
    start = synth.T(y, mo, d, h, mi)
    end = start + dtm.timedelta(minutes=case["minutes"])
    back = case["direction"] == "backward"
    accum = (["e_track", "tagged_precip"] if back else
             ["p_track_upper", "p_track_lower", "tagged_evap"]) + ["losses", "gains"]

    def go(freq, k):
        (ctx.tmp / f"out{k}").mkdir()
        cfg = synth.base_config(
            ctx.tmp, tracking_direction=case["direction"], timestep=case["dt"],
            output_folder=ctx.tmp / f"out{k}", output_frequency=freq,
            tagging_region=[1, 47, 3, 49], tracking_start_date=start,
            tracking_end_date=end, tagging_start_date=start, tagging_end_date=end)
        synth.run_tracking(cfg)
        return synth.ordered(cfg)

    fine = go("1min", "fine")
    want = schedule(case["direction"], start, end, case["dt"], 60)
    check_files(ctx, case, "1min", fine, want)
    if ctx.fails:
        return
    for k, freq in enumerate(case["freqs"]):
        outs = go(freq, k)
        want = schedule(case["direction"], start, end, case["dt"], FREQ[freq])
        ctx.count("evaluations")
        check_files(ctx, case, freq, outs, want)
        if ctx.fails:
            return
        if want:
            ctx.state(case["direction"], case["start"], case["minutes"], case["dt"], freq)
        acc = {v: np.zeros((len(lat), len(lon))) for v in accum}
        it = iter(fine)
        for name, o in outs:
            for n, b in it:
                for v in accum:
                    acc[v] += b[v]
                if n == name:
                    break
            else:
                ctx.fail(f"{freq}: no step ends at {name}")
                return
            for v in accum:
                compare(ctx, f"{freq}: {v} in {name}", o[v], acc[v],
                        3e-5 * max(1e-3, np.max(acc[v]), np.max(b["s_track_lower_restart"])))
                acc[v][:] = 0
            for v in ("s_track_upper_restart", "s_track_lower_restart"):
                compare(ctx, f"{freq}: {v} in {name}", o[v], b[v],
                        3e-5 * max(1e-3, np.max(b[v])))
    ctx.sample({**case, "files": [n for n, _ in outs]})


def check_files(ctx, case, freq, outs, want):
    names = [synth.out_name(case["direction"], t) for t in want]
    if [n for n, _ in outs] != names:
        ctx.fail(f"output every {freq}, step {case['dt']} s: files {[n for n, _ in outs]} "
                 f"instead of {names}")
        return
    for (n, o), t in zip(outs, want):
        if len(o["time"]) != 1 or o["time"][0] != t:
            ctx.fail(f"{n} is labelled {o['time']}")


def compare(ctx, what, got, want, tol):
    if not np.all(np.abs(got - want) <= tol):
        ctx.fail(f"{what}: differs by {np.nanmax(np.abs(got - want)):.4g} from what the run "
                 f"with output at every step gives (largest value {np.max(want):.4g})")
