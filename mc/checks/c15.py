"""C15: precipitation and evaporation keep sign, units and net water flux."""
import datetime as dtm
import itertools

import numpy as np

from mc import prep, synth, wam

ID = "C15"
LEVEL = "exploration"
RULE = ("every input frequency (in several spellings), level type and data source, each on "
        "a grid whose cells enumerate all combinations of precipitation and evaporation "
        "values of both signs (CMIP: of two 3-hourly values each); an evaluation is one cell "
        "at one time; distinct = distinct source, frequency and value combination")
ASSUMPTIONS = ["ERA5 and ARCO accumulate in metres over one input interval, evaporation "
               "negative upward", "CMIP: latent heat positive upward, 2.45e6 J/kg, 3-hourly "
               "data start at 01:30"]
preload = wam.preload
FREQ = {"1h": 3600, "3h": 10800, "6h": 21600, "12h": 43200, "24h": 86400, "1d": 86400,
        "1D": 86400, "30min": 1800, "h": 3600, "H": 3600, "6H": 21600, "15min": 900,
        "90min": 5400, "D": 86400, "60min": 3600, "180T": 10800, "3600s": 3600}


def cases(tier):
    out = []
    for f in FREQ:
        for lt in ("model_levels", "pressure_levels"):
            for src in ("ERA5", "ARCO"):
                if src == "ARCO" and lt == "model_levels":
                    continue
                out.append(dict(source=src, freq=f, level_type=lt))
    for short, pieces, days, cal in itertools.product(
            (False, True), (1, 2), (1, 2), ["standard", "noleap", "360_day"]):
        out.append(dict(source="CMIP", short=short, pieces=pieces, days=days, calendar=cal))
    return out


def run_case(case, ctx):
    (cmip if case["source"] == "CMIP" else era5)(case, ctx)


def check(ctx, what, got, p, e):
    """p, e: expected fields [lat, lon] in kg m-2 s-1."""
    for name, want in (("precip", p), ("evap", e)):
        g = got[name].astype("f8")
        if not np.all(g >= 0):
            ctx.fail(f"{what}: negative {name}")
        tol = 1e-5 * np.abs(want) + 1e-12
        if g.shape != want.shape or not np.all(np.abs(g - want) <= tol):
            bad = np.unravel_index(np.nanargmax(np.abs(g - want) - tol), want.shape)
            ctx.fail(f"{what}: {name} is {g[bad]:.6g} kg m-2 s-1, expected "
                     f"{want[bad]:.6g}", precip=float(p[bad]), evap=float(e[bad]))
            return
    ctx.count("evaluations", p.size)


def era5(case, ctx):
    secs = FREQ[case["freq"]]
    tp = np.array([-1e-7, 0.0, 1e-6, 4e-3])  # m
    ev = np.array([-3e-3, -1e-6, 0.0, 2e-6, 5e-4])  # m, negative upward
    nt = 3
    P = np.stack([np.roll(tp, k)[:, None] * np.ones(len(ev)) for k in range(nt)])
    E = np.stack([np.roll(ev, -k)[None, :] * np.ones((len(tp), 1)) for k in range(nt)])
    lat, lon = 50.0 - np.arange(len(tp)), np.arange(len(ev)) * 1.0
    cal = "proleptic_gregorian" if case["source"] == "ARCO" else "standard"
    t0 = synth.T(2021, 6, 30, 0, cal=cal)
    times = synth.hours(t0, nt, secs / 3600)
    one = np.ones_like(P)
    lev = [500, 850] if case["level_type"] == "pressure_levels" else [100, 120]
    four = np.ones((nt, 2) + P.shape[1:])
    f = dict(q=four * 0.01, u=four, v=four, sp=one * 1e5, tp=P, e=E)
    if case["level_type"] == "pressure_levels":
        f.update(d2m=one * 280, u10=one, v10=one)
    kw = dict(input_frequency=case["freq"], level_type=case["level_type"], levels=lev,
              calendar=cal)
    if case["source"] == "ERA5":
        tpl = prep.write_era5(ctx.tmp / "in", times, lat, lon, case["level_type"], lev, f)
        cfg = prep.config(ctx.tmp, tpl, times[0], times[-1], **kw)
        prep.run(cfg)
    else:
        f["tcw"] = one * 20
        cfg = prep.config(ctx.tmp, "unused", times[0], times[-1], **kw)
        prep.in_child(prep.with_arco, prep.arco_dataset(times, lat, lon, lev, f),
                      lambda: prep.run(cfg, "ARCO"))
    got = collect(cfg)
    if sorted(got) != sorted(times):
        ctx.fail(f"{case['freq']}: preprocessed times {sorted(map(str, got))}, expected "
                 f"{[str(t) for t in times]}")
        return
    for k, t in enumerate(times):
        p, e = prep.net_fluxes(P[k] * 1000 / secs, -E[k] * 1000 / secs)
        check(ctx, f"{case}, {t}", got[t], p, e)
        for i, j in itertools.product(range(len(tp)), range(len(ev))):
            ctx.state(str(case), k, i, j)
    ctx.sample(case)


def collect(cfg):
    out = {}
    for d in prep.read(cfg).values():
        for k, t in enumerate(d["time"]):
            out[t] = {v: d[v][k] for v in prep.OUT}
    return out


def cmip(case, ctx):
    cal = case["calendar"]
    pr = [0.0, 2e-5, 3e-4]
    lh = [-40.0, 0.0, 55.0]  # W/m2, positive upward
    rows = list(itertools.product(pr, pr))
    cols = list(itertools.product(lh, lh))
    n6 = 4 * case["days"]
    t0 = synth.T(2021, 2, 28, 6, cal=cal)
    times = synth.hours(t0, n6, 6)
    t3 = synth.hours(synth.T(2021, 2, 28, 1, 30, cal=cal), 2 * n6, 3)
    shape = (len(rows), len(cols))
    P = np.zeros((2 * n6,) + shape)
    H = np.zeros_like(P)
    for k in range(n6):
        for s in range(2):
            P[2 * k + s] = np.roll([r[s] for r in rows], k)[:, None]
            H[2 * k + s] = np.roll([c[s] for c in cols], -k)[None, :]
    one = np.ones((n6,) + shape)
    four = np.ones((n6, 2) + shape)
    f = dict(q=four * 0.01, u=four, v=four, sp=one * 1e5, qs=one * 0.01, us=one, vs=one,
             pr=P, hfls=H)
    lat, lon = 50.0 - np.arange(shape[0]), np.arange(shape[1]) * 1.0
    tpl = prep.write_cmip(ctx.tmp / "in", times, t3, lat, lon, [85000.0, 50000.0], f,
                          cal=cal, pieces=case["pieces"], short=case["short"])
    cfg = prep.config(ctx.tmp, tpl, times[0], times[-1], input_frequency="6h",
                      level_type="pressure_levels", levels="all", calendar=cal)
    prep.run(cfg, "CMIP")
    got = collect(cfg)
    if sorted(got) != sorted(times):
        ctx.fail(f"preprocessed times {sorted(map(str, got))}, expected "
                 f"{[str(t) for t in times]}")
        return
    for k, t in enumerate(times):
        # the two 3-hourly means before t
        p, e = prep.net_fluxes((P[2 * k] + P[2 * k + 1]) / 2,
                               (H[2 * k] + H[2 * k + 1]) / 2 / prep.LATENT)
        check(ctx, f"CMIP {cal}, {t}", got[t], p, e)
        for i, j in itertools.product(*map(range, shape)):
            ctx.state(str(case), k, i, j)
    ctx.sample(case)
