"""C38: the ERA5 download scripts fetch all that preprocessing needs, and complete."""
import ast
import datetime as dtm
import itertools
import os
import shutil
import sys
import types
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from mc import prep, run as runner, synth, wam

ID = "C38"
LEVEL = "fault_enumeration"
RULE = ("the real scripts with other settings, against a stand-in of the data service that "
        "answers a request with exactly the requested data: (a) every request failing in "
        "every way (before the first byte, after half of them, the process killed then), "
        "once or from then on, in an empty folder, over older files and over some of the "
        "files, then the script again; (b) all settings of the alphabets; (c) preprocessing "
        "of what the scripts fetched. An evaluation is one run of a script, distinct = "
        "distinct settings and faults")
ASSUMPTIONS = ["the service is reached through cdsapi.Client.retrieve, replaced here",
               "settings are the assignments at the top of the scripts",
               "a file is complete when it has the size and bytes the service sent"]
SCRIPTS = Path(runner.SRC).parent / "scripts"
SURF = {"total_precipitation": "tp", "evaporation": "e", "surface_pressure": "sp",
        "2m_dewpoint_temperature": "d2m", "10m_u_component_of_wind": "u10",
        "10m_v_component_of_wind": "v10", "total_column_water": "tcw"}
PL = {"specific_humidity": "q", "u_component_of_wind": "u", "v_component_of_wind": "v"}
ML = {"131": "u", "132": "v", "133": "q"}
NEED = {"ml": ["tp", "e", "sp", "tcw"], "pl": ["tp", "e", "sp", "d2m", "u10", "v10", "tcw"]}
HOURS = [f"{h:02d}:00" for h in range(24)]
LEVELS = {"ml": ["100/120/137", [100, 120, 137]],
          "pl": [["300", "600", "900"], [300, 600, 900]]}


def preload():
    wam.preload()


def cases(tier):
    q = tier == "quick"
    out = []
    for s in ("ml", "pl"):
        for how in ("refused", "torn", "killed"):
            for start in ("empty", "some", "again"):
                for last in (False, True):
                    if last and how == "killed":
                        continue
                    out.append(dict(kind="faults", script=s, how=how, start=start,
                                    lasting=last, days=1 if q else 2))
        for area, days in itertools.product(
                [None, [60, -30, 30, 30]], [1, 3] if q else [1, 2, 3, 5]):
            out.append(dict(kind="settings", script=s, area=area, days=days))
        for freq in ("6h",) if q else ("1h", "3h", "6h"):
            out.append(dict(kind="preprocess", script=s, freq=freq))
        out.append(dict(kind="defaults", script=s))
    return out


class Renamed(Exception):
    """A setting is gone: the scripts cannot be run with other settings."""


def run_case(case, ctx):
    if not (SCRIPTS / f"download_era5_{case['script']}.py").exists():
        ctx.count("skipped_no_script")
        return
    try:
        dict(faults=faults, settings=all_settings, preprocess=preprocess,
             defaults=defaults)[case["kind"]](case, ctx)
    except Renamed:
        ctx.count("skipped_setting_renamed")
        return
    ctx.sample(case)


# ------------------------------------------------------------- script and service
def program(script, settings):
    """The compiled script with the values of its settings replaced."""
    path = SCRIPTS / f"download_era5_{script}.py"
    tree = ast.parse(path.read_text())
    left = dict(settings)
    for node in tree.body:
        t = (node.targets[0] if isinstance(node, ast.Assign)
             else node.target if isinstance(node, ast.AnnAssign) else None)
        if isinstance(t, ast.Name) and t.id in left:
            node.value = ast.parse(left.pop(t.id), mode="eval").body
    if left:
        raise Renamed(f"no setting {sorted(left)}")
    return compile(ast.fix_missing_locations(tree), str(path), "exec")


def many(x):
    if isinstance(x, str):
        return x.split("/")
    return [str(v) for v in (x if isinstance(x, (list, tuple)) else [x])]


def grid(request):
    n, w, s, e = request.get("area", [90, -180, -90, 180])
    d = [float(v) for v in request["grid"]]
    lat = np.arange(n, s - 1e-9, -d[1])
    lon = np.arange(w, e + 1e-9, d[0])
    if "area" not in request:
        lon = np.arange(0, 360, d[0])
    return lat, lon


def value(v, t, lev, lat, lon):
    """Every value tells where it comes from."""
    h = t.hour + 24 * (t.day - 1)
    base = dict(q=4e-3, u=7.0, v=-4.0, tp=1e-4, e=-5e-5, sp=1e5, d2m=285.0, u10=3.0,
                v10=-2.0, tcw=25.0)[v]
    a = 1 + 0.003 * h + 0.02 * np.sin(np.add.outer(lat / 10, lon / 7))
    if v == "sp":
        a = 1 + 0.01 * (a - 1)
    if lev is not None:
        a = a * (1 + 0.001 * lev)
    return base * a


def understand(dataset, request):
    """(variable, dates, hours, levels, latitudes, longitudes); raises for bad requests."""
    r = dict(request)
    if dataset == "reanalysis-era5-complete":
        v = ML[str(r["param"]).split(".")[0]]
        if str(r["levtype"]) != "ml":
            raise ValueError(f"levtype {r['levtype']}")
        levels = [int(x) for x in many(r["levelist"])]
    elif dataset == "reanalysis-era5-single-levels":
        (name,) = many(r["variable"])
        v, levels = SURF[name], None
    elif dataset == "reanalysis-era5-pressure-levels":
        (name,) = many(r["variable"])
        v, levels = PL[name], [int(x) for x in many(r["pressure_level"])]
    else:
        raise ValueError(f"dataset {dataset}")
    if dataset != "reanalysis-era5-complete" and r["product_type"] not in (
            "reanalysis", ["reanalysis"]):
        raise ValueError(f"product type {r['product_type']}")
    if r.get("format", r.get("data_format")) != "netcdf":
        raise ValueError("no netCDF asked for")
    hours = [int(x.split(":")[0]) for x in many(r["time"])]
    lat, lon = grid(r)
    return v, many(r["date"]), hours, levels, lat, lon


def answer(dataset, request, path):
    """Writes what the service sends for the request."""
    v, dates, hours, levels, lat, lon = understand(dataset, request)
    times = [cftime.datetime(*map(int, d.split("-")), h) for d in dates for h in hours]
    data = np.array([[value(v, t, lv, lat, lon) for lv in levels or [None]] for t in times])
    coords = {"valid_time": times}
    if levels:
        coords["model_level" if "complete" in dataset else "pressure_level"] = np.array(
            levels, float)
    coords["latitude"], coords["longitude"] = lat, lon
    if not levels:
        data = data[:, 0]
    prep._nc(str(path), coords, v, tuple(coords), data, "standard")


class Service:
    """Stand-in of cdsapi: serves requests, and fails them as planned."""

    def __init__(self, tmp, faults=None, lasting=False):
        self.tmp, self.faults, self.lasting = tmp, faults or {}, lasting
        self.log, self.n = [], 0

    def module(self):
        service = self

        class Client:
            def __init__(self, *a, **k):
                pass

            def retrieve(self, name, request, target=None):
                if target is not None:
                    return service.retrieve(name, request, target)
                return types.SimpleNamespace(
                    download=lambda target: service.retrieve(name, request, target))

        m = types.ModuleType("cdsapi")
        m.Client = Client
        return m

    def retrieve(self, name, request, target):
        k = self.n
        self.n += 1
        how = self.faults.get(k)
        if how is None and self.lasting:
            how = next((h for f, h in self.faults.items() if k > f), None)
        v, dates, *_ = understand(name, request)
        if how == "refused":
            self.log.append(("refused", v, dates))
            raise RuntimeError("the request was rejected")
        full = self.tmp / f"answer{os.getpid()}.nc"
        answer(name, request, full)
        data = full.read_bytes()
        full.unlink()
        with open(target, "wb") as f:
            if how in ("torn", "killed"):
                f.write(data[:len(data) // 2])
                f.flush()
                if how == "killed":
                    os._exit(137)
                self.log.append(("torn", v, dates))
                raise ConnectionError("connection broken")
            f.write(data)
        self.log.append(("served", v, dates))


def download(script, settings, service, cwd):
    """Runs the script in a child; (log of requests, error), or None if it was killed."""
    code = program(script, settings)

    def go():
        sys.modules["cdsapi"] = service.module()
        sys.path.insert(0, str(SCRIPTS))
        os.chdir(cwd)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        err = None
        try:
            exec(code, {"__name__": "__main__", "__file__": code.co_filename})
        except SystemExit as e:
            err = f"exit {e.code}" if e.code else None
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        return service.log, err

    try:
        return prep.in_child(go)
    except RuntimeError:
        return None


def settings(target, days, levels, area=None, **kw):
    last = dtm.date(2021, 2, 27) + dtm.timedelta(days=days - 1)
    out = dict(target_dir=repr(str(target)), skip_exist="True", area=repr(area),
               datelist=f"pd.date_range('20210227', '{last:%Y%m%d}')", grid="[30, 20]",
               times=repr(HOURS[::6]), levels=repr(levels))
    out.update(kw)
    return out


def names(target, script, days):
    out = {}
    for k in range(days):
        d = dtm.date(2021, 2, 27) + dtm.timedelta(days=k)
        for v in NEED[script]:
            out[target / f"{d:%Y}/{d:%m}/ERA5_{d}_{v}.nc"] = (v, d)
        for v in "quv":
            out[target / f"{d:%Y}/{d:%m}/ERA5_{d}_{script}_{v}.nc"] = (v, d)
    return out


def wrong(path, v, day, hours, levels, lat, lon):
    """What is wrong with a downloaded file, or None."""
    try:
        with netCDF4.Dataset(path) as nc:
            t = nc["valid_time"]
            have = netCDF4.num2date(t[:], t.units, t.calendar)
            times = [cftime.datetime(day.year, day.month, day.day, h) for h in hours]
            if [x.isoformat() for x in have] != [x.isoformat() for x in times]:
                return f"times {[x.isoformat() for x in have]}"
            if v not in nc.variables:
                return f"no {v}"
            want = np.array([[value(v, x, lv, lat, lon) for lv in levels or [None]]
                             for x in times])
            want = want if levels else want[:, 0]
            a = nc[v][:]
            if a.shape != want.shape or not np.allclose(a, want, rtol=1e-6):
                return f"{v} of other places, times or levels"
    except OSError as e:
        return f"incomplete: {e}"


def nc_files(target):
    return sorted(p for p in target.rglob("*.nc"))


# ------------------------------------------------------------------------- checks
def faults(case, ctx):
    """Faults at every request; then what is left is complete, and the next run fills in."""
    s, days = case["script"], case["days"]
    total = days * (len(NEED[s]) + 3)
    lat, lon = grid(dict(grid=[30, 20]))
    for k in range(total):
        root = ctx.tmp / f"k{k}"
        target = root / "data"
        (root / "tmp").mkdir(parents=True)
        want = names(target, s, days)
        old, have = {}, set()
        if case["start"] != "empty":
            for n, p in enumerate(want):
                if case["start"] == "again" or n % 2:
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_bytes(b"an older file " + p.name.encode())
                    old[p] = p.read_bytes()
            have = set(old)
        skip = case["start"] != "again"
        cfg = settings(target, days, LEVELS[s][0], skip_exist=str(skip))
        todo = [x for p, x in want.items() if not (skip and p in have)]
        if k >= len(todo):
            break
        what = f"{s}, request {k + 1} of {len(todo)} {case['how']}" + \
            " and all after it" * case["lasting"] + f" ({case['start']})"
        sv = Service(root / "tmp", {k: case["how"]}, case["lasting"])
        res = download(s, cfg, sv, root)
        ctx.count("evaluations")
        ctx.state(what)
        if (res is None) != (case["how"] == "killed"):
            ctx.fail(f"{what}: the script died" if res is None else f"{what}: not reached")
            return
        if res is not None:
            log, err = res
            if err is not None:
                ctx.fail(f"{what}: the script stopped with {err}")
                return
            if len(log) != len(todo):
                ctx.fail(f"{what}: {len(log)} requests, {len(todo)} files were missing")
                return
        files = nc_files(target)
        missing = []
        for p, (v, d) in want.items():
            if p not in files:
                missing.append((v, str(d)))
            elif p in old and p.read_bytes() == old[p]:
                continue
            elif msg := wrong(p, v, d, [0, 6, 12, 18], LEVELS[s][1] if f"_{s}_" in p.name
                              else None, lat, lon):
                ctx.fail(f"{what}: {p.name} is {msg}")
                return
        if set(files) - set(want):
            ctx.fail(f"{what}: unexpected files {sorted(set(files) - set(want))[:3]}")
            return
        # the script again asks for what is missing, and only for that
        cfg = settings(target, days, LEVELS[s][0])
        before = {p: p.read_bytes() for p in files}
        res = download(s, cfg, Service(root / "tmp"), root)
        ctx.count("evaluations")
        if res is None or res[1]:
            ctx.fail(f"{what}, then again: {res}")
            return
        asked = sorted((v, d[0]) for _, v, d in res[0])
        if asked != sorted(missing):
            ctx.fail(f"{what}, then again: {asked} were requested, {missing} were missing")
            return
        for p, (v, d) in want.items():
            if p in before:
                bad = None if p.read_bytes() == before[p] else "changed"
            else:
                bad = "missing" if not p.exists() else wrong(
                    p, v, d, [0, 6, 12, 18], LEVELS[s][1] if f"_{s}_" in p.name else None,
                    lat, lon)
            if bad:
                ctx.fail(f"{what}, then again: {p.name} is {bad}")
                return
        shutil.rmtree(root)


def settings_case(case, ctx, hours, levels, grids):
    s = case["script"]
    for (hs, (lv, lvs), g) in itertools.product(hours, levels, grids):
        root = ctx.tmp / "s"
        root.mkdir()
        target = root / "deep" / "data"
        cfg = settings(target, case["days"], lv, case["area"], grid=repr(g),
                       times=repr([HOURS[h] for h in hs]))
        request = dict(grid=g)
        if case["area"]:
            request["area"] = case["area"]
        lat, lon = grid(request)
        res = download(s, cfg, Service(root), root)
        ctx.count("evaluations")
        what = f"{s}: {cfg}"
        ctx.state(what)
        if res is None or res[1]:
            ctx.fail(f"{what}: {res}")
            return
        want = names(target, s, case["days"])
        if nc_files(target) != sorted(want):
            ctx.fail(f"{what}: files {[p.name for p in nc_files(target)]}")
            return
        for p, (v, d) in want.items():
            msg = wrong(p, v, d, hs, lvs if f"_{s}_" in p.name else None, lat, lon)
            if msg:
                ctx.fail(f"{what}: {p.name} has {msg}")
                return
        shutil.rmtree(root)


def all_settings(case, ctx):
    s = case["script"]
    one = ["137", [137]] if s == "ml" else [["1000"], [1000]]
    settings_case(case, ctx, [[0, 6, 12, 18], [3], [23, 0]], [LEVELS[s], one],
                  [[30, 20], [10, 15]])


def defaults(case, ctx):
    """Unchanged settings: every hour of each day, the levels of the documentation."""
    s = case["script"]
    root = ctx.tmp / "d"
    root.mkdir()
    seen = []

    class Log(Service):
        def retrieve(self, name, request, target):
            self.log.append((name, dict(request), str(target)))
            Path(target).write_bytes(b"x")

    res = download(s, dict(target_dir=repr(str(root))), Log(root), root)
    ctx.count("evaluations")
    if res is None or res[1] or not res[0]:
        ctx.fail(f"{s} with its own settings: {res and res[1]}")
        return
    per = {}
    for name, r, target in res[0]:
        v, dates, hours, levels, lat, lon = understand(name, r)
        per.setdefault(dates[0], []).append(v)
        seen.append(target)
        ctx.state(s, v, dates[0])
        if sorted(hours) != list(range(24)):
            ctx.fail(f"{s}: {v} is requested for the hours {hours}")
        if levels is not None and s == "ml" and (min(levels) < 1 or 137 not in levels
                                                 or max(levels) > 137):
            ctx.fail(f"{s}: levels {levels}")
        if levels is not None and s == "pl" and (max(levels) > 1000 or 1000 not in levels):
            ctx.fail(f"{s}: levels {levels}")
        if "area" in r or lon.size != 1440 or lat.size != 721:
            ctx.fail(f"{s}: {v} is not requested for the whole globe on 0.25 degrees")
    for d, vs in per.items():
        if sorted(vs) != sorted(NEED[s] + ["q", "u", "v"]):
            ctx.fail(f"{s}: {sorted(vs)} are requested for {d}")
    if len(set(seen)) != len(seen):
        ctx.fail(f"{s}: several requests for one file")


def preprocess(case, ctx):
    """What the script fetched is what preprocessing reads."""
    s, freq = case["script"], int(case["freq"][:-1])
    root = ctx.tmp / "p"
    root.mkdir()
    hs = list(range(0, 24, freq))
    res = download(s, settings(root / "data", 2, LEVELS[s][0], [60, -20, 44, 20],
                               grid="[4, 4]", times=repr([HOURS[h] for h in hs])),
                   Service(root), root)
    ctx.count("evaluations")
    if res is None or res[1]:
        ctx.fail(f"{s}: {res}")
        return
    times = synth.hours(synth.T(2021, 2, 27), 48 // freq, freq)
    tpl = (f"{root}/data/{{year}}/{{month:02d}}/ERA5_{{year}}-{{month:02d}}-{{day:02d}}"
           "{levtype}_{variable}.nc")
    lt = "model_levels" if s == "ml" else "pressure_levels"
    cfg = prep.config(root, tpl, times[0], times[-1], levels=LEVELS[s][1], level_type=lt,
                      input_frequency=case["freq"])
    try:
        got = prep.in_child(lambda: (prep.run(cfg), prep.read(cfg))[1])
    except RuntimeError as e:
        ctx.fail(f"{s}: preprocessing the downloaded files failed: {str(e)[-600:]}")
        return
    lat, lon = grid(dict(area=[60, -20, 44, 20], grid=[4, 4]))
    for t in times:
        ctx.state(s, freq, str(t))
        g = got[t.strftime("%Y-%m-%d")]
        (k,) = [i for i, x in enumerate(g["time"]) if x == t]
        f = lambda v, lv=None: value(v, t, lv, lat, lon)
        if s == "ml":
            four = [np.stack([f(v, lv) for lv in LEVELS[s][1]]) for v in "quv"]
            want = prep.model_levels(LEVELS[s][1], 111, *four, f("sp"), f("tcw"))
        else:
            want = {}
            p = np.array(LEVELS[s][1]) * 100.0
            four = [np.stack([f(v, lv) for lv in LEVELS[s][1]]) for v in "quv"]
            qs = prep.humidity(f("d2m"), f("sp"))
            cols = [[prep.pressure_column(
                p, *(x[:, j, i] for x in four), f("sp")[j, i], qs[j, i], f("u10")[j, i],
                f("v10")[j, i], 0.72878581, 7438.803223, f("tcw")[j, i])
                for i in range(len(lon))] for j in range(len(lat))]
            for k2 in cols[0][0]:
                want[k2] = np.array([[c[k2] for c in row] for row in cols])
        want["precip"], want["evap"] = prep.net_fluxes(
            f("tp") * 1000 / 3600 / freq, -f("e") * 1000 / 3600 / freq)
        for v, a in want.items():
            if not np.allclose(g[v][k], a, rtol=2e-5, atol=1e-9):
                ctx.fail(f"{s}: {v} at {t} is {g[v][k].ravel()[:2]}, from the downloaded "
                         f"files it is {a.ravel()[:2]}")
                return
