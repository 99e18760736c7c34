"""C22: frequency spellings are equivalent and work everywhere."""
import datetime as dtm
import itertools
import json

import numpy as np

from mc import prep, scen, synth, wam

ID = "C22"
LEVEL = "exploration"
RULE = ("every spelling (case, deprecated or current unit, with or without number) of every "
        "interval of the alphabet as input frequency and as output frequency: the configured "
        "interval, and complete tracking runs (both directions) and preprocessing runs (ERA5 "
        "accumulations) with it, compared with those of the first spelling and with "
        "the interval itself; an evaluation is one spelling in one place; distinct = "
        "distinct (spelling, place)")
ASSUMPTIONS = ["units spelled D, H/h, T/min, S/s; other spellings are left to pandas"]
preload = wam.preload

SPELL = {
    3600: ["1h", "h", "H", "1H", "60min", "60T", "60t", "3600s", "3600S"],
    10800: ["3h", "3H", "180min", "180T", "10800S"],
    21600: ["6h", "6H", "360T", "360min", "360t", "21600s"],
    43200: ["12h", "12H", "720min"],
    86400: ["1D", "D", "d", "1d", "24h", "24H", "1440T", "1440min"],
    1800: ["30min", "30T", "30t", "1800s", "1800S"],
    60: ["1min", "min", "T", "t", "1T", "60S", "60s"],
}


def cases(tier):
    out = [dict(kind="config")]
    for s in SPELL:
        if s >= 1800:
            out.append(dict(kind="pre", secs=s))
    ins = [1800, 3600, 10800, 21600]
    outs = [3600, 10800, 21600, 86400]
    for d in ("forward", "backward"):
        for s in ins:
            out.append(dict(kind="track", direction=d, what="input", secs=s))
        for s in outs:
            out.append(dict(kind="track", direction=d, what="output", secs=s))
        if tier != "quick":
            for a, b in itertools.product(ins, outs):
                out.append(dict(kind="both", direction=d, ins=a, outs=b))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def config(case, ctx):
    """The configured value denotes the interval, also after writing and reading."""
    import pandas as pd

    Config = wam.need("config", "Config")
    base = synth.base_config(ctx.tmp)
    path = ctx.tmp / "c.yaml"
    for s, names in SPELL.items():
        for key, n in itertools.product(("input_frequency", "output_frequency"), names):
            path.write_text(json.dumps(dict(base, **{key: n})))
            cfg = Config.from_yaml(path)
            for k in range(2):
                v = getattr(cfg, key)
                have = pd.Timedelta(pd.tseries.frequencies.to_offset(v)).total_seconds()
                ctx.count("evaluations")
                ctx.state(key, n)
                if have != s:
                    ctx.fail(f"{key} {n!r} is configured as {v!r}, {have} s, not {s}")
                    return
                cfg.to_file(path)
                cfg = Config.from_yaml(path)
    # frequencies that are valid already keep their meaning
    for n, s in (("2D", 172800), ("90min", 5400), ("15min", 900), ("10s", 10),
                 ("500ms", 0.5), ("2h", 7200)):
        path.write_text(json.dumps(dict(base, output_frequency=n)))
        v = Config.from_yaml(path).output_frequency
        ctx.count("evaluations")
        if pd.Timedelta(pd.tseries.frequencies.to_offset(v)).total_seconds() != s:
            ctx.fail(f"output_frequency {n!r} is configured as {v!r}")
    for n in ("MS", "ME", "YS"):  # not fixed intervals, left alone
        path.write_text(json.dumps(dict(base, output_frequency=n)))
        v = Config.from_yaml(path).output_frequency
        ctx.count("evaluations")
        if v != n:
            ctx.fail(f"output_frequency {n!r} is configured as {v!r}")
    ctx.sample({"spellings": sum(len(v) for v in SPELL.values())})


def pre(case, ctx):
    secs = case["secs"]
    n = 4
    times = [synth.T(2021, 7, 1) + k * dtm.timedelta(seconds=secs)
             for k in range(n)]
    lat, lon = np.array([50.0, 49.0]), np.array([3.0, 4.0, 5.0])
    val = 1 + 0.1 * np.arange(n)[:, None, None] + 0.2 * np.arange(6).reshape(1, 2, 3)
    f = dict(q=0.001 * np.stack([val, 2 * val], 1), u=np.stack([val, -val], 1),
             v=np.stack([-val, val], 1), sp=1e5 * np.ones((n, 2, 3)), e=-1e-4 * val,
             tp=2e-4 * val)
    tpl = prep.write_era5(ctx.tmp / "in", times, lat, lon, "model_levels", [100, 130], f)
    p, e = prep.net_fluxes(f["tp"] * 1000 / secs, -f["e"] * 1000 / secs)
    first = None
    for k, name in enumerate(SPELL[secs]):
        root = ctx.tmp / str(k)
        cfg = prep.config(root, tpl, times[0], times[-1], levels=[100, 130],
                          input_frequency=name)
        try:
            prep.run(cfg)
        except Exception as err:
            ctx.fail(f"preprocessing with input_frequency {name!r}: {type(err).__name__}: "
                     f"{err}")
            return
        got = prep.read(cfg)
        ctx.count("evaluations")
        ctx.state("pre", name)
        have = [t for d in sorted(got) for t in got[d]["time"]]
        if [synth.iso(t) for t in have] != [synth.iso(t) for t in times]:
            ctx.fail(f"input_frequency {name!r}: stored times {[str(t) for t in have]}")
            return
        for v, want in (("precip", p), ("evap", e)):
            a = np.concatenate([got[d][v] for d in sorted(got)])
            if not np.allclose(a, want, rtol=1e-5):
                ctx.fail(f"input_frequency {name!r}: {v} is {a.ravel()[:2]}, accumulation "
                         f"over {secs} s gives {want.ravel()[:2]}")
                return
        flat = {v: np.concatenate([got[d][v] for d in sorted(got)]) for v in prep.OUT}
        if first is None:
            first = flat
        for v in flat:
            if not np.array_equal(flat[v], first[v]):
                ctx.fail(f"{v} differs between input_frequency {SPELL[secs][0]!r} and "
                         f"{name!r}")
                return
    ctx.sample({"preprocessing": SPELL[secs]})


def runs(ctx, direction, ins, outs, spellings):
    """Runs for all (input, output) spellings; all must agree with the first."""
    lat, lon = scen.grid("small")
    total = 36 if outs == 86400 else 15
    n = total * 3600 // ins + 1

    t0 = synth.T(2021, 7, 1, 18)
    times = [t0 + dtm.timedelta(seconds=ins * k) for k in range(n)]
    f = scen.make_fields("wave", "flicker", "both", n, len(lat), len(lon), 0.2)
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f)
    first = None
    for k, (a, b) in enumerate(spellings):
        cfg = synth.base_config(
            ctx.tmp, tracking_direction=direction, tracking_start_date=times[0],
            tracking_end_date=times[-1], tagging_start_date=times[0],
            tagging_end_date=times[-1], timestep=5400, input_frequency=a,
            output_frequency=b, output_folder=str(ctx.tmp / f"out{k}"))
        what = f"{direction} run with input {a!r} and output {b!r}"
        ctx.count("evaluations")
        ctx.state(direction, a, b)
        try:
            synth.run_tracking(cfg, str(ctx.tmp / "config.yaml"))
        except Exception as err:
            ctx.fail(f"{what}: {type(err).__name__}: {err}")
            return
        o = synth.outputs(cfg)
        if first is None:
            first = o
            if len(o) < 1:
                ctx.fail(f"{what}: no output")
                return
            # the outputs lie at multiples of the interval
            for name in o:
                h = name.split("T")[1][:5].split("-")
                last = name == synth.out_name(
                    direction, times[-1] if direction == "forward" else times[0])
                if (int(h[0]) * 3600 + int(h[1]) * 60) % outs and not last:
                    ctx.fail(f"{what}: unexpected output {name}")
                    return
            continue
        if set(o) != set(first):
            ctx.fail(f"{what}: outputs {sorted(o)}, with the first spelling "
                     f"{sorted(first)}")
            return
        for name in o:
            for v, x in first[name].items():
                y = o[name][v]
                if isinstance(x, np.ndarray) and not np.array_equal(x, y):
                    ctx.fail(f"{what}: {v} in {name} differs from the first spelling")
                    return


def track(case, ctx):
    s = case["secs"]
    if case["what"] == "input":
        runs(ctx, case["direction"], s, 10800, [(a, "3h") for a in SPELL[s]])
    else:
        runs(ctx, case["direction"], 10800, s, [("3h", b) for b in SPELL[s]])
    ctx.sample(dict(case, spellings=SPELL[s]))


def both(case, ctx):
    runs(ctx, case["direction"], case["ins"], case["outs"],
         list(itertools.product(SPELL[case["ins"]], SPELL[case["outs"]])))
