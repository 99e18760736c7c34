"""C30: output files describe themselves correctly."""
import datetime as dtm
import itertools
import json

import cftime
import netCDF4
import numpy as np

from mc import scen, synth, wam
from mc.checks import c04
from mc.checks.c18 import CALS

ID = "C30"
LEVEL = "exploration"
RULE = ("every combination of direction, calendar, period (aligned with the output frequency "
        "or not, with complete and incomplete last step), time step, output frequency, domain "
        "(all, box, box across the antimeridian) and region kind from alphabets is run on "
        "steady rain and evaporation, so that the length of the time bounds also follows from "
        "the amounts tagged; every label of every output file is compared. An evaluation is "
        "one output file, distinct = distinct configurations with their output time")
ASSUMPTIONS = ["the configuration holds no seconds, which its export does not keep",
               "units and names are judged by the words they contain"]
WORDS = {  # words in the name, words in the units
    "e_track": ("tracked evaporation", "kg m-2 accumulated"),
    "tagged_precip": ("tagged precipitation", "kg m-2 accumulated"),
    "tagged_evap": ("tagged evaporation", "kg m-2 accumulated"),
    "p_track_upper": ("precipitation upper", "kg m-2 accumulated"),
    "p_track_lower": ("precipitation lower", "kg m-2 accumulated"),
    "losses": ("lost", "kg m-2 accumulated"), "gains": ("gained", "kg m-2 accumulated"),
    "s_track_upper_restart": ("storage upper", "kg m-2"),
    "s_track_lower_restart": ("storage lower", "kg m-2"),
    "latitude": ("latitude", "degrees_north"), "longitude": ("longitude", "degrees_east"),
    "latitude_bnds": ("latitude bounds", "degrees_north"),
    "longitude_bnds": ("longitude bounds", "degrees_east"),
}
COMMON = {"s_track_upper_restart", "s_track_lower_restart", "losses", "gains", "latitude",
          "longitude", "latitude_bnds", "longitude_bnds", "time", "time_bnds"}
FIELDS = {"backward": COMMON | {"e_track", "tagged_precip"},
          "forward": COMMON | {"p_track_upper", "p_track_lower", "tagged_evap"}}
# start and end, in minutes from 22:00
PERIODS = {"aligned": (120, 600), "early": (60, 540), "late end": (120, 590),
           "within": (130, 330), "half": (90, 510)}
DOMAINS = {"all": None, "box": [-62, -42, 121, 35], "rolled": [115, -42, -85, 35],
           "rows": [-180, -21, 179, 45]}
SOURCES = ["ERA5 of somewhere, https://example.org", "a model; run 7"]


def preload():
    wam.preload()
    wam.need("config")


def cases(tier):
    out = []
    for d, cal, (n, p) in itertools.product(("forward", "backward"), CALS,
                                            enumerate(PERIODS)):
        out.append(dict(direction=d, calendar=cal, period=p, n=n, tier=tier))
    return out


def run_case(case, ctx):
    cal, back = case["calendar"], case["direction"] == "backward"
    lat, lon = np.arange(40.0, -41.0, -20.0), np.arange(-180.0, 180.0, 30.0)
    shape = (len(lat), len(lon))
    f = scen.make_fields("calm", "steady", "none", 14, *shape)
    f["precip"][:] = 2e-4
    f["evap"][:] = 1e-4
    t0 = synth.T(2021, 2, 28, 22, cal=cal)
    times = synth.hours(t0, 14)
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, f, calendar=cal)
    source = SOURCES[case["n"] % 2]
    for p in (ctx.tmp / "prep").glob("*.nc"):
        with netCDF4.Dataset(p, "a") as nc:
            nc.source, nc.history = source, "made by hand; "
            nc.title = "not an output file"
    c04.write_mask(ctx.tmp / "mask.nc", lat, lon, np.ones(shape))
    a, b = (t0 + dtm.timedelta(minutes=m) for m in PERIODS[case["period"]])
    combos = list(itertools.product((1800, 3600), ("30min", "1h", "3h", "1d"), DOMAINS,
                                    ("box", "mask")))
    for k, (dt, freq, dom, region) in enumerate(combos):
        if case["tier"] == "quick" and (
                k + 5 * case["n"] + 13 * CALS.index(cal) + 3 * back) % 29:
            continue  # every pair of settings still meets
        cfg = synth.base_config(
            ctx.tmp, calendar=cal, tracking_direction=case["direction"], timestep=dt,
            output_frequency=freq, tracking_domain=DOMAINS[dom], tracking_start_date=a,
            tracking_end_date=b, tagging_start_date=times[0], tagging_end_date=times[-1],
            tagging_region=[-180, -80, 180, 80] if region == "box" else
            str(ctx.tmp / "mask.nc"), output_folder=ctx.tmp / f"out{k}", kvf=k % 4,
            preprocess_start_date=times[0], preprocess_end_date=times[-1],
            levels=[[1, 2], "all", "All"][k % 3])
        (ctx.tmp / f"out{k}").mkdir()
        path = str(ctx.tmp / f"config{k}.yaml")
        synth.run_tracking(cfg, path)
        err = check(case, ctx, cfg, path, a, b, lat, lon, dom, source)
        if err:
            ctx.fail(f"{err} (dt {dt}, output every {freq}, domain {dom})")
            return
        ctx.state(case["direction"], cal, case["period"], dt, freq, dom, region)
    ctx.sample(case)


def inside(lat, lon, dom):
    if DOMAINS[dom] is None:
        return lat, lon
    w, s, e, n = DOMAINS[dom]
    la = lat[(lat >= s) & (lat <= n)]
    if w < e:
        return la, lon[(lon >= w) & (lon <= e)]
    return la, np.concatenate([lon[lon >= w], lon[lon <= e]])


def check(case, ctx, cfg, path, a, b, lat, lon, dom, source):

    back = case["direction"] == "backward"
    outs = synth.ordered(cfg)
    if not outs:
        return "no output"
    la, lo = inside(lat, lon, dom)
    edge = b if back else a
    Config = wam.need("config", "Config")
    used = Config.from_yaml(path)
    for name, o in outs:
        ctx.count("evaluations")
        if set(o["vardims"]) != FIELDS[case["direction"]]:
            return f"{name} holds {sorted(o['vardims'])}"
        if o["dims"].get("time") != 1 or len(o["time"]) != 1:
            return f"{name} has {o['dims'].get('time')} times"
        t = o["time"][0]
        want_cal = cftime.datetime(2000, 1, 1, calendar=case["calendar"]).calendar
        for n in ("time", "time_bnds"):
            got_cal = cftime.datetime(2000, 1, 1, calendar=o[n + "_calendar"]).calendar
            if got_cal != want_cal:
                return f"{n} in {name} is on calendar {got_cal}"
        if name != synth.out_name(cfg["tracking_direction"], t):
            return f"{name} has time {t}"
        bounds = [x for x in np.ravel(o["time_bnds"])]
        if len(bounds) != 2 or sorted(bounds) != sorted([edge, t]):
            return f"time bounds of {name} are {bounds} instead of {edge} and {t}"
        length = abs((t - edge).total_seconds())
        rate, n = (2e-4, "tagged_precip") if back else (1e-4, "tagged_evap")
        if not np.allclose(o[n][1:-1, 1:-1], rate * length, rtol=1e-5):
            return (f"{name} holds {o[n][1:-1, 1:-1].mean() / rate:.0f} s of {n}, its bounds "
                    f"are {length:.0f} s apart")
        edge = t
        if not (np.array_equal(o["latitude"], la) and np.array_equal(o["longitude"], lo)):
            return f"{name} has latitudes {o['latitude']}, longitudes {o['longitude']}"
        for n, h in (("latitude", 10.0), ("longitude", 15.0)):
            c, bd = o[n], np.sort(o[n + "_bnds"], axis=1)
            if bd.shape != (len(c), 2) or not np.allclose(bd, np.stack([c - h, c + h], 1)):
                return f"{n} bounds of {name} are {bd.tolist()}"
        with netCDF4.Dataset(f"{cfg['output_folder']}/{name}") as nc:
            for n, (words, units) in WORDS.items():
                if n not in nc.variables:
                    continue
                v = nc.variables[n]
                if not all(w in getattr(v, "long_name", "").lower() for w in words.split()):
                    return f"{n} in {name} is called {getattr(v, 'long_name', None)!r}"
                u = getattr(v, "units", "")
                if not u.startswith(units) or (units == "kg m-2") != (u == "kg m-2"):
                    if units.startswith("kg") or u != units:
                        return f"{n} in {name} has units {u!r}"
        at = o["attrs"]
        if source not in at.get("source", ""):
            return f"{name} says its source is {at.get('source')!r}, of data by {source!r}"
        if "made by hand" not in at.get("history", "") or at["history"].count("created") != 1:
            return f"{name} has history {at.get('history')!r}"
        if case["direction"] not in at.get("title", ""):
            return f"{name} has title {at.get('title')!r}"
        (ctx.tmp / "back.yaml").write_text(at["WAM2Layers_config"])
        again = Config.from_yaml(str(ctx.tmp / "back.yaml"))
        if again.model_dump() != used.model_dump():
            d = {k: (v, again.model_dump().get(k)) for k, v in used.model_dump().items()
                 if again.model_dump().get(k) != v}
            return f"the configuration in {name} differs: {d}"
        d = json.loads(at["WAM2Layers_config"])
        for k in ("timestep", "kvf", "tracking_direction", "calendar"):
            if d.get(k) != cfg[k]:
                return f"the configuration in {name} has {k}: {d.get(k)!r}, not {cfg[k]!r}"
    last = a if back else b
    gap = abs((outs[-1][1]["time"][0] - last).total_seconds())
    if gap >= cfg["timestep"]:
        return f"the last output ends {gap} s before the end"
    return None
