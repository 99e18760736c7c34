"""C07: input at any time is the interpolation of the stored fields."""
import datetime as dtm
import itertools
from types import SimpleNamespace

import numpy as np

from mc import ref, scen, synth, wam
from mc.checks import c28

ID = "C07"
LEVEL = "model_checking"
RULE = ("(a) histories: de Bruijn sequences over the alphabet of requests (times on, between "
        "and across files x states/fluxes x with/without two subdomains), so that every "
        "window of requests of the given length occurs, each answer being overwritten in "
        "place afterwards; (b) every time of a grid around midnight and month end for every "
        "calendar and input frequency; (c) complete runs with interpolated input against the "
        "reference model. A state is a distinct recent request window, time or model state; "
        "a transition one request or step; a validated trace one history or run")
ASSUMPTIONS = ["input files are not rewritten during a run", "float32 input, so agreement to "
               "2e-6 of the field's scale"]
preload = wam.preload
CALS = ["standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day",
        "julian", "all_leap", "366_day"]


def debruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def cases(tier):
    out = []
    # full alphabet in windows of 2, reduced alphabet in windows of 3 (4)
    parts = 4
    out += [dict(kind="history", alphabet="full", n=2, part=p, parts=parts)
            for p in range(parts)]
    n, parts = (3, 4) if tier == "quick" else (4, 32)
    out += [dict(kind="history", alphabet="core", n=n, part=p, parts=parts)
            for p in range(parts)]
    freqs = ["1h", "3h", "24h"] if tier == "quick" else ["30min", "1h", "3h", "6h", "12h",
                                                        "24h"]
    for cal, f in itertools.product(CALS, freqs):
        out.append(dict(kind="times", calendar=cal, freq=f,
                        minutes=40 if tier == "quick" else 10))
    for d in ("forward", "backward"):
        for dt, hrs in ((600, 3), (1800, 1), (3600, 6), (2400, 2)):
            out.append(dict(kind="run", direction=d, periodic=False, dt=dt, hours=hrs,
                            wind="patchy", store="flicker", rain="both"))
    return out


def run_case(case, ctx):
    dict(history=history, times=times, run=run_)[case["kind"]](case, ctx)


LAT = np.array([30.0, 20.0, 10.0, 0.0])
LON = np.arange(-180.0, 180.0, 60.0)


def fields(nt):
    k, j, i = np.meshgrid(np.arange(nt), np.arange(len(LAT)), np.arange(len(LON)),
                          indexing="ij")
    out = {}
    for n, v in enumerate(synth.VARS):
        out[v] = (1 + n) * (10.0 + np.sin(1.7 * k + n) * 5 + j + 0.1 * i) + 3.0 * k * k
    return out


def check_answer(ctx, ds, data, t, subset, bbox, what):
    names = (["fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip"]
             if subset == "fluxes" else ["s_upper", "s_lower"])
    want = data.at(t, names)
    jj = np.arange(len(LAT))
    ii = np.arange(len(LON))
    if bbox is not None:
        w, s, e, n = bbox
        jj = jj[(LAT >= s) & (LAT <= n)]
        if w < e:
            ii = ii[(LON >= w) & (LON <= e)]
        else:
            ii = np.concatenate([ii[LON >= w], ii[LON <= e]])
    for v in names:
        if v not in ds:
            ctx.fail(f"{what}: {v} missing")
            return False
        got = np.asarray(ds[v].transpose("latitude", "longitude").values, float)
        exp = want[v][np.ix_(jj, ii)]
        if got.shape != exp.shape or not np.all(np.abs(got - exp) <= 2e-6 * np.abs(exp).max()):
            ctx.fail(f"{what}: {v} is {got.ravel()[:3]}, expected {exp.ravel()[:3]}")
            return False
    if not (np.array_equal(ds["latitude"], LAT[jj])
            and np.array_equal(ds["longitude"], LON[ii])):
        ctx.fail(f"{what}: coordinates are not those requested")
        return False
    return True


def history(case, ctx):
    load = wam.same_signature("tracking.io", "load_data", ["t", "config", "subset"])
    if load is None:
        ctx.count("routine_probes_skipped")
        return
    t0 = synth.T(2021, 2, 28, 21)
    times = synth.hours(t0, 7)  # 21:00 .. 03:00 next day, hourly
    data = ref.Data(times, LAT, LON, fields(7))
    synth.write_prep(ctx.tmp / "prep", times, LAT, LON, fields(7))
    m = dtm.timedelta(minutes=1)
    req = [t0, t0 + 60 * m, t0 + 90 * m, t0 + 170 * m, t0 + 180 * m, t0 + 195 * m]
    boxes = [None, (-70.0, 5.0, 70.0, 30.0), (100.0, -10.0, -50.0, 25.0)]
    alpha = [(t, s, b) for t in req for s in ("states", "fluxes") for b in boxes]
    if case["alphabet"] == "core":
        alpha = [alpha[q] for q in (0, 3, 6, 14, 18, 19, 24, 28, 31)]
    cfgs = {}
    for b in boxes:
        cfg = synth.base_config(ctx.tmp, tracking_domain=list(b) if b else None)
        cfgs[b] = wam.need("config", "Config")(**cfg)
    seq = debruijn(len(alpha), case["n"])
    size = -(-len(seq) // case["parts"])
    seq = seq[max(0, case["part"] * size - case["n"] + 1): (case["part"] + 1) * size]
    for pos, q in enumerate(seq):
        t, s, b = alpha[q]
        ds = load(t, cfgs[b], s)
        ctx.count("transitions")
        ctx.state(case["alphabet"], tuple(seq[max(0, pos - case["n"] + 1): pos + 1]))
        recent = [(synth.iso(alpha[x][0]),) + alpha[x][1:] for x in
                  seq[max(0, pos - 7): pos + 1]]
        if not check_answer(ctx, ds, data, t, s, b,
                            f"request {recent[-1]} after {recent[:-1]}"):
            return
        for v in list(ds.data_vars):  # the caller may do what it wants with the answer
            ds[v] *= 0
            ds[v].values[:] = -999
    ctx.count("traces_validated_against_impl")
    ctx.sample({"history": [(synth.iso(alpha[x][0]),) + alpha[x][1:] for x in seq[:4]]})


def times(case, ctx):
    load = wam.same_signature("tracking.io", "load_data", ["t", "config", "subset"])
    if load is None:
        ctx.count("routine_probes_skipped")
        return
    cal = case["calendar"]
    secs = {"30min": 1800, "1h": 3600, "3h": 10800, "6h": 21600, "12h": 43200,
            "24h": 86400}[case["freq"]]
    t0 = synth.T(2020, 2, 28, cal=cal)
    n = 2 * 86400 // secs + 1
    ts = synth.hours(t0, n, secs / 3600)
    f = fields(n)
    data = ref.Data(ts, LAT, LON, f)
    synth.write_prep(ctx.tmp / "prep", ts, LAT, LON, f, calendar=cal)
    cfg = wam.need("config", "Config")(**synth.base_config(
        ctx.tmp, calendar=cal, input_frequency=case["freq"],
        **{k: "2020-02-28T00:00" for k in (
            "preprocess_start_date", "preprocess_end_date", "tracking_start_date",
            "tracking_end_date", "tagging_start_date", "tagging_end_date")}))
    cls = type(cfg.tracking_start_date)
    step = case["minutes"] * 60
    for q in range(0, 2 * 86400 + 1, step):
        t = ts[0] + dtm.timedelta(seconds=q)
        tt = cls(t.year, t.month, t.day, t.hour, t.minute, t.second)
        for s in ("states", "fluxes"):
            ds = load(tt, cfg, s)
            ctx.count("transitions")
            if not check_answer(ctx, ds, data, t, s, None, f"{cal}, {case['freq']}, {t}"):
                return
        ctx.state(cal, case["freq"], q)
    ctx.count("traces_validated_against_impl")


def run_(case, ctx):
    lat, lon = scen.grid("small")
    h = case["hours"]
    nt = 3
    t0 = synth.T(2021, 2, 28, 24 - h if h < 24 else 0)
    times_ = synth.hours(t0, nt, h)
    f = scen.make_fields(case["wind"], case["store"], case["rain"], nt, len(lat), len(lon))
    synth.write_prep(ctx.tmp / "prep", times_, lat, lon, f)
    (ctx.tmp / "out").mkdir()
    cfg = synth.base_config(
        ctx.tmp, tracking_direction=case["direction"], timestep=case["dt"],
        input_frequency=f"{h}h", output_frequency="2h", tagging_region=[0, 45, 5, 50],
        tracking_start_date=times_[0], tracking_end_date=times_[-1],
        tagging_start_date=times_[0], tagging_end_date=times_[-1])
    synth.run_tracking(cfg)
    c28.against_model(ctx, ref.Data(times_, lat, lon, f), dict(
        direction=case["direction"], start=times_[0], end=times_[-1], tag_start=times_[0],
        tag_end=times_[-1], dt=case["dt"], out_seconds=7200, kvf=3, periodic=False,
        mask=1.0), synth.ordered(cfg))
