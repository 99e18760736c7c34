"""C19: dates mean the same in every calendar."""
import datetime as dtm
import itertools
import json
import logging
import warnings
from pathlib import Path

import cftime
import numpy as np

from mc import prep, scen, synth, wam
from mc.checks.c18 import CALS, DATES, exists

ID = "C19"
LEVEL = "exploration"
RULE = ("(a) every day around the ends of months and years and every minute of chosen days, "
        "in every calendar, as a date of a configuration; (b) rounding of every time of a "
        "grid to every frequency and direction in every calendar; (c) complete runs over the "
        "ends of February and of the year in every calendar, compared output by output with "
        "a run over the same fields in the middle of a month; (d) preprocessing and tracking of "
        "data on every calendar with every calendar configured; an evaluation is one date, "
        "rounding or output field; distinct = distinct (calendar, time)")
ASSUMPTIONS = ["rounding frequencies divide the day", "years 1600 to 2400"]
preload = wam.preload
FREQ = {"30min": 30, "10min": 10, "15min": 15, "1h": 60, "h": 60, "2h": 120, "3h": 180,
        "4h": 240, "6h": 360, "8h": 480, "12h": 720, "24h": 1440, "1D": 1440, "D": 1440}
SPANS = {  # first day, ends before: both sides of a calendar's peculiarity
    "february": [(2020, 2, 28), (2020, 3, 2)],
    "february21": [(2021, 2, 28), (2021, 3, 2)],
    "february1900": [(1900, 2, 28), (1900, 3, 2)],
    "newyear": [(2020, 12, 30), (2021, 1, 2)],
    "month30": [(2021, 5, 30), (2021, 6, 1)],
}


def cases(tier):
    q = tier == "quick"
    out = []
    for cal in CALS:
        out.append(dict(kind="dates", calendar=cal, years=[2020, 2021, 1900, 2000] if q
                        else [1600, 1700, 1900, 1999, 2000, 2020, 2021, 2100, 2400],
                        step=7 if q else 1))
        out.append(dict(kind="rounding", calendar=cal, step=23 if q else 1))
    for cal, span, d in itertools.product(CALS, SPANS, ("forward", "backward")):
        if q and (CALS.index(cal) + (d == "forward")) % 2 and span in (
                "month30", "february1900", "february21"):
            continue
        out.append(dict(kind="run", calendar=cal, span=span, direction=d))
    for cal, what in itertools.product(CALS, ("CMIP", "ERA5", "forward", "backward")):
        out.append(dict(kind="mismatch", calendar=cal, what=what,
                        years=[2020] if q else [2020, 2021, 1900]))
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def days_in(cal, y, m):
    return max(d for d in range(28, 32)
               if exists(f"{y}-{m:02d}-{d:02d}T00:00", cal))


def dates(case, ctx):
    cal = case["calendar"]
    good, bad = [], []
    times = ["00:00", "00:01", "06:30", "12:00", "18:45", "23:59"]
    for y in case["years"]:
        for m in range(1, 13):
            for d in (1, 2, 15, 27, 28, 29, 30, 31, 32):
                for t in times if d >= 27 else times[:2]:
                    s = f"{y}-{m:02d}-{d:02d}T{t}"
                    (good if exists(s, cal) else bad).append(s)
    k = 0
    for day in ("2020-02-28", "2021-07-01", "2020-12-30"):  # every minute
        for minute in range(k % case["step"], 1440, case["step"]):
            good.append(f"{day}T{minute // 60:02d}:{minute % 60:02d}")
        k += 1
    good.sort()
    base = synth.base_config(ctx.tmp, calendar=cal)
    Config = wam.need("config", "Config")
    path = ctx.tmp / "c.yaml"
    for i in range(0, len(good), 6):
        six = (good[i:i + 6] + [good[-1]] * 6)[:6]
        c = dict(base, **dict(zip(
            ["tracking_start_date", "tracking_end_date", "tagging_start_date",
             "tagging_end_date", "preprocess_start_date", "preprocess_end_date"], six)))
        path.write_text(json.dumps(c))
        cfg = Config.from_yaml(path)
        for k in DATES:
            v = c[k]
            ctx.count("evaluations")
            ctx.state(cal, v)
            t = getattr(cfg, k)
            want = tuple(int(x) for x in v.replace("T", "-").replace(":", "-").split("-"))
            have = (t.year, t.month, t.day, t.hour, t.minute)
            if have != want or t.second or t.microsecond:
                ctx.fail(f"{v} in calendar {cal} became {t!r}")
                return
            if t.calendar != cftime.datetime(2000, 1, 1, calendar=cal).calendar:
                ctx.fail(f"{v} in calendar {cal} became a date on calendar {t.calendar}")
                return
    for v in bad:
        ctx.count("evaluations")
        ctx.state(cal, v)
        path.write_text(json.dumps(dict(base, tracking_start_date=v,
                                        tracking_end_date="2400-12-30T00:00")))
        try:
            cfg = Config.from_yaml(path)
        except Exception:
            continue
        ctx.fail(f"{v} does not exist in calendar {cal} but became "
                 f"{cfg.tracking_start_date}")
        return
    ctx.sample({"calendar": cal, "accepted": len(good), "rejected": len(bad)})


def rounding(case, ctx):
    cal = case["calendar"]
    rnd = wam.same_signature("utils.calendar", "round_cftime", ["date", "freq", "how"])
    if rnd is None:
        ctx.count("skipped")
        return
    cls = {"standard": cftime.DatetimeGregorian, "gregorian": cftime.DatetimeGregorian,
           "proleptic_gregorian": cftime.DatetimeProlepticGregorian,
           "noleap": cftime.DatetimeNoLeap, "365_day": cftime.DatetimeNoLeap,
           "360_day": cftime.Datetime360Day, "julian": cftime.DatetimeJulian,
           "all_leap": cftime.DatetimeAllLeap, "366_day": cftime.DatetimeAllLeap}[cal]
    days = [(2020, 2, days_in(cal, 2020, 2)), (2021, 2, 28), (2020, 12, days_in(cal, 2020,
                                                                                 12)),
            (2021, 7, 1)]
    for d, f in itertools.product(days, FREQ):
        mid = cls(*d)
        n = FREQ[f]
        for minute in range(0, 1440, case["step"]):
            for sec in (0,) if minute % 5 else (0, 1):
                t = mid + dtm.timedelta(minutes=minute, seconds=sec)
                x = minute * 60 + sec
                lo = x // (n * 60) * n * 60
                hi = -(-x // (n * 60)) * n * 60
                near = [lo if x - lo <= hi - x else hi, hi if hi - x <= x - lo else lo]
                for how, want in (("floor", [lo]), ("ceil", [hi]), ("nearest", near)):
                    ctx.count("evaluations")
                    got = rnd(t, f, how)
                    if got not in [mid + dtm.timedelta(seconds=w) for w in want]:
                        ctx.fail(f"{t} ({cal}) rounded ({how}) to {f} is {got}, expected "
                                 f"{mid + dtm.timedelta(seconds=want[0])}")
                        return
            ctx.state(cal, d, minute)
    ctx.sample({"calendar": cal, "days": days})


ALIAS = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}


def labelled(times, k=0):
    """A value for each time that only depends on month, day and hour."""
    return np.array([1 + ((t.month * 37 + t.day * 11 + t.hour // 3 * 5 + k * 13) % 17) / 20
                     for t in times])


def span(year, cal):
    """6- and 3-hourly times from 27 February to 2 March."""
    t0, t1 = synth.T(year, 2, 27, cal=cal), synth.T(year, 3, 2, cal=cal)
    n = round((t1 - t0).total_seconds() / 21600)
    return (synth.hours(t0, n + 1, 6),
            synth.hours(t0 + dtm.timedelta(minutes=90), 2 * (n + 1), 3))


def one(what, year, data, conf, root):
    """Runs on data of one calendar with the other configured: (result, error, message)."""
    lat, lon = np.array([50., 49., 48.]), np.array([1., 2., 3.])
    t6, t3 = span(year, data)
    c6, _ = span(year, conf)
    sh = np.ones((1, 3, 3)) * (1 + 0.01 * np.arange(9).reshape(3, 3))
    f6 = lambda k: labelled(t6, k)[:, None, None] * sh
    said = []
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        h = Keep(said)
        logging.getLogger().addHandler(h)
        err = None
        if what in ("CMIP", "ERA5"):
            f = {v: np.stack([f6(k), f6(k + 1)], 1) * x for k, (v, x) in enumerate(
                [("q", 1e-2), ("u", 5), ("v", -3)])}
            if what == "CMIP":
                f.update(sp=f6(3) * 5e4 + 4e4, qs=f6(4) * 1e-2, us=f6(5), vs=-f6(6))
                f.update({v: labelled(t3, 7)[:, None, None] * sh * x for v, x in
                          (("pr", 1e-4), ("hfls", 50))})
                tpl = prep.write_cmip(root / "in", t6, t3, lat, lon, [85000., 50000.], f,
                                      cal=data)
            else:
                f.update(sp=f6(3) * 5e4 + 4e4, d2m=280 + f6(4), u10=f6(5), v10=-f6(6),
                         tp=f6(7) * 1e-3, e=-f6(8) * 1e-4)
                tpl = prep.write_era5(root / "in", t6, lat, lon, "pressure_levels",
                                      [500, 850], f, cal=data)
            cfg = prep.config(root, tpl, c6[2], c6[-2], level_type="pressure_levels",
                              levels="all", input_frequency="6h", calendar=conf)
            go = lambda: prep.run(cfg, what)
        else:
            f = {v: f6(k) * x for k, (v, x) in enumerate(dict(
                fx_upper=20, fy_upper=-20, fx_lower=40, fy_lower=20, s_upper=8,
                s_lower=15, evap=1e-5, precip=2e-5).items())}
            synth.write_prep(root / "prep", t6, lat, lon, f, calendar=data)
            cfg = synth.base_config(
                root, calendar=conf, tracking_direction=what, timestep=10800,
                input_frequency="6h", output_frequency="12h", tagging_region=[1, 48, 3, 50],
                tracking_start_date=c6[0], tracking_end_date=c6[-1],
                tagging_start_date=c6[2], tagging_end_date=c6[-2])
            go = lambda: synth.run_tracking(cfg)
        try:
            go()
        except (Exception, SystemExit) as e:
            err = f"{type(e).__name__}: {e}"
        logging.getLogger().removeHandler(h)
    if err is not None:
        res = None
    elif what in ("CMIP", "ERA5"):
        res = [((d, str(t)), k, x[k][n]) for d, x in prep.read(cfg).items()
               for n, t in enumerate(x["time"]) for k in sorted(x)
               if k in synth.VARS]
    else:
        res = [(n, k, v) for n, x in synth.ordered(cfg) for k, v in sorted(x.items())
               if isinstance(v, np.ndarray) and v.ndim == 2 and v.dtype.kind == "f"
               and "bnds" not in k]
    said += [str(x.message) for x in w]
    return res, err, [m for m in said if "calendar" in m.lower()]


class Keep(logging.Handler):
    def __init__(self, out):
        super().__init__()
        self.out = out

    def emit(self, record):
        self.out.append(record.getMessage())


def mismatch(case, ctx):
    """Data of one calendar, every calendar configured: the same values, or an error."""
    data, what = case["calendar"], case["what"]
    for year in case["years"]:
        for conf in CALS:
            if conf in ALIAS and ALIAS.get(data, data) != ALIAS[conf]:
                continue
            have = {t.strftime("%m%dT%H") for t in span(year, data)[0]}
            need = {t.strftime("%m%dT%H") for t in span(year, conf)[0]}
            same = ALIAS.get(data, data) == ALIAS.get(conf, conf)
            text = f"{what} with calendar {conf}, {year}, data on calendar {data}"
            root = ctx.tmp / f"{year}{conf}"
            (root / "d").mkdir(parents=True)
            (root / "r").mkdir()
            x, err, said = prep.in_child(one, what, year, data, conf, root / "d")
            if err is None and data != conf:
                y, e, _ = prep.in_child(one, what, year, conf, conf, root / "r")
            else:
                y, e = x, err if data == conf else None
            ctx.count("evaluations")
            ctx.state(what, year, data, conf)
            if e is not None:
                ctx.fail(f"{what} with calendar {conf}, {year}: {e}")
                return
            if err is not None:
                ctx.count("rejected")
                if same:
                    ctx.fail(f"{text}: {err}")
                    return
            elif need - have:
                ctx.fail(f"{text}: succeeded without data for {sorted(need - have)}")
                return
            else:
                ctx.count("compared")
                if [a[:2] for a in x] != [b[:2] for b in y]:
                    ctx.fail(f"{text}: made {sorted({a[0] for a in x})}, expected "
                             f"{sorted({b[0] for b in y})}")
                    return
                for a, b in zip(x, y):
                    if not np.allclose(a[2], b[2], rtol=1e-5, atol=1e-12, equal_nan=True):
                        ctx.fail(f"{text}: {a[1]} of {a[0]} is {a[2].ravel()[:3]}, expected "
                                 f"{b[2].ravel()[:3]}")
                        return
            if what == "CMIP" and (said if same else not said and {data, conf} - {
                    "standard", "gregorian", "proleptic_gregorian"}):
                ctx.fail(f"{text}: " + (f"warned {said}" if said else
                                        "no warning of different calendars"))
                return
    ctx.sample(case)


def run(case, ctx):
    cal, direction = case["calendar"], case["direction"]
    a, b = SPANS[case["span"]]
    if case["span"] == "february1900" and cal not in ("standard", "gregorian", "noleap",
                                                      "julian", "proleptic_gregorian",
                                                      "360_day", "all_leap"):
        return
    lat, lon = scen.grid("small")
    t0, t1 = synth.T(*a, cal=cal), synth.T(*b, cal=cal)
    n = round((t1 - t0).total_seconds() / 21600) + 1
    times = [t0 + dtm.timedelta(hours=6 * k) for k in range(n)]
    ref0 = synth.T(2021, 7, 11)
    rtimes = [ref0 + dtm.timedelta(hours=6 * k) for k in range(n)]
    f = scen.make_fields("wave", "flicker", "both", n, len(lat), len(lon), 0.3)
    res = []
    for name, tt, c in (("cal", times, cal), ("ref", rtimes, "standard")):
        root = ctx.tmp / name
        synth.write_prep(root / "prep", tt, lat, lon, f, calendar=c)
        cfg = synth.base_config(
            root, calendar=c, tracking_direction=direction, timestep=10800,
            input_frequency="6h", output_frequency="12h", tagging_region=[1, 46, 3, 49],
            tracking_start_date=tt[0], tracking_end_date=tt[-1],
            tagging_start_date=tt[1], tagging_end_date=tt[-2])
        synth.run_tracking(cfg)
        res.append((cfg, synth.ordered(cfg)))
    (cfg, x), (_, y) = res
    what = f"{direction} run from {t0} to {t1} on calendar {cal}"
    # outputs fall on multiples of 12 h since midnight
    want = sorted({synth.out_name(direction, t) for k, t in enumerate(times)
                   if t.hour % 12 == 0 and (k > 0 if direction == "forward" else k < n - 1)})
    if sorted(n for n, _ in x) != want:
        ctx.fail(f"{what}: outputs {[n for n, _ in x]}, expected {want}")
        return
    ctx.count("runs")
    for (na, p), (_, q) in zip(x, y):
        ctx.state(cal, na)
        if p["time_calendar"] != cal and {p["time_calendar"], cal} not in (
                {"standard", "gregorian"}, {"noleap", "365_day"}, {"all_leap", "366_day"}):
            ctx.fail(f"{what}: {na} is on calendar {p['time_calendar']}")
        for k, v in q.items():
            if not (isinstance(v, np.ndarray) and v.ndim == 2 and v.dtype.kind == "f"
                    and "bnds" not in k):
                continue
            ctx.count("evaluations")
            if not np.allclose(p[k], v, rtol=1e-5, atol=1e-8 + 1e-6 * np.abs(v).max(),
                               equal_nan=True):
                ctx.fail(f"{what}: {k} in {na} is not what the same fields give in the "
                         f"middle of a month: {p[k].ravel()[:3]} / {v.ravel()[:3]}")
                return
    ctx.sample({"calendar": cal, "span": case["span"], "steps": n, "outputs": len(x)})
