"""C23: progress reports and stability warnings describe the run truthfully."""
import copy
import datetime as dtm
import itertools
import logging
import re
from pathlib import Path

import numpy as np

from mc import ref, scen, synth, wam

ID = "C23"
LEVEL = "model_checking"
RULE = ("machine: every sequence of (strongest correction, corrected extent) symbols up to a "
        "depth, fed to the real progress tracker and to a two-variable reference automaton; "
        "script: every sequence of such symbols over both layers and three steps as the "
        "weather of a real run; report: every combination of direction, boundary type, "
        "weather and output frequency, whose every progress line is compared with the "
        "totals of the output files; a state is a distinct automaton state or reported "
        "tuple, a transition a step or output, a validated trace one sequence or run")
ASSUMPTIONS = [
    "the correction is judged by the meridional flux, as in the code: cells with a purely "
    "zonal flux do not count towards warnings",
    "extents and strengths at least 1% away from a threshold",
    "the progress line keeps its labels and two decimals",
]

STRENGTH = [1.0, 0.95, 0.9, 0.8, 0.7, 0.5]
EXTENT = [0, 4, 6, 8, 20, 50]
SCRIPT = [(1.0, 0), (0.95, 8), (0.95, 50), (0.8, 4), (0.8, 20), (0.5, 4)]
LABELS = ["Tracked moisture", "Tagged in atmosphere", "Boundary transport", "Lost moisture",
          "Gained moisture", "Tagging closure"]


def preload():
    wam.preload()


def cases(tier):
    out = []
    syms = [(s, e) for s in STRENGTH for e in EXTENT]
    real = [(s, e) for s, e in syms if (s < 1) == (e > 0)]
    depth = 3 if tier == "quick" else 4
    out += [dict(kind="machine", first=list(a), depth=depth) for a in real]
    n = len(SCRIPT)
    for d in ("forward", "backward"):
        for a in range(n):
            for b in range(n):
                out.append(dict(kind="script", direction=d, first=[a, b],
                                layers="one" if tier == "quick" else "both"))
    if tier == "quick":
        out += [dict(c, kind="report") for c in scen.product(
            direction=["forward", "backward"], periodic=[False, True],
            wind=["wave", "gale", "southwest"], store=["gradient", "drying"],
            rain=["cloudburst", "both"], freq=["2h"])]
        out += [dict(c, kind="report") for c in scen.product(
            direction=["forward", "backward"], periodic=[False, True], wind=["wave"],
            store=["flicker"], rain=["cloudburst"], freq=["1h", "3h", "24h"])]
        out += [dict(c, kind="report", seam=True) for c in scen.product(
            direction=["forward", "backward"], periodic=[False, True], grid=["ring"],
            wind=["calm", "wave"], store=["drying"], rain=["cloudburst"],
            freq=["1h", "2h"])]
    else:
        out += [dict(c, kind="report") for c in scen.product(
            direction=["forward", "backward"], periodic=[False, True],
            wind=scen.WINDS, store=scen.STORES, rain=["rain", "dew", "cloudburst", "both"],
            freq=["2h"])]
        out += [dict(c, kind="report") for c in scen.product(
            direction=["forward", "backward"], periodic=[False, True], wind=["wave", "vortex"],
            store=["flicker", "drying"], rain=["cloudburst"],
            freq=["1h", "3h", "5h", "24h"])]
        out += [dict(c, kind="report", seam=True) for c in scen.product(
            direction=["forward", "backward"], periodic=[False, True], grid=["ring"],
            wind=["calm", "wave", "patchy", "west"], store=["drying", "thin_upper"],
            rain=["cloudburst", "both"], freq=["1h", "2h", "5h"])]
    return out


class Log(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def __enter__(self):
        logging.disable(logging.NOTSET)
        self.logger = logging.getLogger("wam2layers")
        self.level = self.logger.level
        self.logger.setLevel(logging.INFO)
        self.logger.addHandler(self)
        self.propagate, self.logger.propagate = self.logger.propagate, False
        return self

    def __exit__(self, *a):
        self.logger.removeHandler(self)
        self.logger.setLevel(self.level)
        self.logger.propagate = self.propagate
        logging.disable(logging.CRITICAL)

    def warned(self):
        return [m for lv, m in self.records
                if lv >= logging.WARNING and "stability" in m.lower()]

    def lines(self):
        out = []
        for lv, m in self.records:
            v = [re.search(re.escape(k) + r":\s*(-?[\d.]+|-?nan|-?inf)\s*%", m, re.I)
                 for k in LABELS]
            if all(v):
                out.append((m, [float(x.group(1)) for x in v]))
        return out


class Automaton:
    """Strongest factor and largest extent warned about."""

    def __init__(self, f=1.0, g=0.0):
        self.f, self.g = f, g

    def step(self, s, e):
        warn = s < self.f / 1.1 or (e > 5 and e > 1.1 * self.g)
        if warn:
            return True, Automaton(min(s, self.f), max(e, self.g))
        return False, self


def pattern(s, e, ny=10, nx=10):
    """Correction factors: e% of the cells corrected, the strongest by s."""
    c = np.ones(ny * nx)
    n = round(e * ny * nx / 100)
    if n:
        c[:n] = min(0.99, (1 + s) / 2)
        c[n // 2] = s
    return np.random.RandomState(n).permutation(c).reshape(ny, nx)


def machine(case, ctx):
    import xarray as xr

    cls = wam.opt("utils.profiling", "ProgressTracker")
    f = getattr(cls, "track_stability_correction", None) if cls else None
    import inspect
    if f is None or list(inspect.signature(f).parameters)[1:] != [
            "fy_corrected", "fy_abs", "config", "t"]:
        ctx.count("machine_skipped")
        return
    root = ctx.tmp
    (root / "out").mkdir()
    cfg = wam.need("config", "Config")(**synth.base_config(root))
    lat, lon = np.arange(50.0, 40.0, -1), np.arange(0.0, 10.0)
    zero = xr.Dataset({k: (("latitude", "longitude"), np.zeros((10, 10))) for k in (
        "e_track", "tagged_precip", "losses", "gains", "s_track_upper_restart",
        "s_track_lower_restart")}, coords={"latitude": lat, "longitude": lon})
    rng = np.random.RandomState(1)
    absval = xr.DataArray(1e6 * (0.5 + rng.rand(10, 10)), dims=("latitude", "longitude"),
                          coords={"latitude": lat, "longitude": lon})
    syms = [(s, e) for s in STRENGTH for e in EXTENT if (s < 1) == (e > 0)]
    arrays = {q: absval * pattern(*q) for q in syms}
    written = []
    keep = xr.DataArray.to_netcdf, xr.Dataset.to_netcdf

    def write(self, path=None, *a, **k):
        least = (self if isinstance(self, xr.DataArray) else self.to_array()).min()
        written.append((str(path), float(least)))
        Path(path).touch()  # it may get its final name afterwards

    xr.DataArray.to_netcdf = xr.Dataset.to_netcdf = write
    t = synth.T(2021, 7, 1, 12)
    try:
        def go(tracker, auto, depth, hist):
            for q in ([tuple(case["first"])] if not hist else syms):
                tr = copy.deepcopy(tracker)
                written.clear()
                with Log() as log:
                    tr.track_stability_correction(arrays[q], absval, cfg, t)
                want, nxt = auto.step(*q)
                got = len(log.warned())
                ctx.count("transitions")
                ctx.state(round(nxt.f, 3), nxt.g, len(hist))
                if got != int(want) or (len(written) > 0) != want:
                    ctx.fail(f"corrections (strongest factor, % of grid) "
                             f"{hist + [q]}: {got} warnings and {len(written)} debug files "
                             f"for the last, expected {'one' if want else 'none'}; so far "
                             f"warned about factor {auto.f}, {auto.g}% of the grid")
                    return False
                if want:
                    if abs(written[0][1] - q[0]) > 1e-6:
                        ctx.fail(f"debug file holds a strongest factor of {written[0][1]}, "
                                 f"not {q[0]}")
                        return False
                    nums = [float(x) for x in re.findall(r"\d+\.\d+", log.warned()[0])]
                    if not (any(abs(x - q[1]) < 0.06 for x in nums)
                            and any(abs(x - q[0]) < 0.006 for x in nums)):
                        ctx.fail(f"the warning does not tell {q}: {log.warned()[0]}")
                        return False
                if depth > 1:
                    if not go(tr, nxt, depth - 1, hist + [q]):
                        return False
                else:
                    ctx.count("traces_validated_against_impl")
            return True

        go(cls(zero, mode="backtrack", periodic_x=False), Automaton(), case["depth"], [])
    finally:
        xr.DataArray.to_netcdf, xr.Dataset.to_netcdf = keep


def script(case, ctx):
    """The same alphabet, as weather of a complete run."""
    lat, lon = np.arange(50.0, 40.0, -1), np.arange(0.0, 10.0)
    area, dy, dx = ref.geometry(lat, lon)
    ny, nx, dt = 10, 10, 3600
    steps = 3
    nt = 2 * steps + 1
    t0 = synth.T(2021, 7, 1, 12)
    times = synth.hours(t0, nt, 0.5)
    back = case["direction"] == "backward"
    n = len(SCRIPT)
    rest = list(itertools.product(range(n), repeat=1 if case["layers"] == "one" else 3))
    for r in rest:
        if case["layers"] == "one":
            a, b = case["first"]
            seq = [(a, 0), (0, b), (r[0], 0)]
        else:
            a, b = case["first"]
            seq = [(a, b), (r[0], r[1]), (r[2], 0)]
        root = ctx.tmp / ("r" + "".join(map(str, r)))
        fields = {k: np.zeros((nt, ny, nx)) for k in synth.VARS}
        fields["s_upper"] += 10
        fields["s_lower"] += 10
        want, auto, files = 0, Automaton(), set()
        for m, (u, v) in enumerate(seq):
            k = steps - 1 - m if back else m
            src = times[2 * k + 2] if back else times[2 * k]
            for q, layer in ((u, "upper"), (v, "lower")):
                s, e = SCRIPT[q]
                lim = 0.5 * 10 * area[:, None] / dt / dx[:, None]
                c = pattern(s, e)
                sign = np.where((np.arange(ny)[:, None] + np.arange(nx)) % 2, 1, -1)
                fields["fy_" + layer][2 * k + 1] = sign * lim * np.where(c < 1, 1 / c, 0.3)
                w, auto = auto.step(s, e)
                want += w
                if w:
                    files.add(src.strftime("%Y%m%d-%H%M%S"))
                ctx.count("transitions")
                ctx.state("s", round(auto.f, 3), auto.g, m)
        synth.write_prep(root / "prep", times, lat, lon, fields)
        (root / "out").mkdir()
        cfg = synth.base_config(root, tracking_direction=case["direction"], timestep=dt,
                                input_frequency="30min", output_frequency="24h",
                                tracking_start_date=times[0], tracking_end_date=times[-1],
                                tagging_start_date=times[0], tagging_end_date=times[-1])
        with Log() as log:
            synth.run_tracking(cfg)
        got = log.warned()
        have = {re.sub(r"\D*(\d{8}-\d{6})\D*", r"\1", p.stem)
                for p in (root / "out" / "debug").glob("*.nc")} \
            if (root / "out" / "debug").exists() else set()
        told = [(SCRIPT[u], SCRIPT[v]) for u, v in seq]
        if len(got) != want:
            ctx.fail(f"a {case['direction']} run whose steps need corrections (upper, lower) "
                     f"of {told} issued {len(got)} stability warnings, expected {want}")
            return
        if have != files:
            ctx.fail(f"a {case['direction']} run with corrections {told} left debug files for "
                     f"{sorted(have)}, expected {sorted(files)}")
            return
        ctx.count("traces_validated_against_impl")
    ctx.sample({"corrections": told, "warnings": want})


def report(case, ctx):
    from mc.checks import c28

    kw = {}
    if case.get("seam"):  # water is tagged, and lost, where the grid begins and ends
        kw["tagging_region"] = [100, -40, -100, 40]
    cfg, data, kw = c28.setup(dict(case, dt=1800), ctx, nt=8,
                              output_frequency=case["freq"], **kw)
    with Log() as log:
        synth.run_tracking(cfg)
    lines, outs = log.lines(), synth.ordered(cfg)
    if len(lines) != len(outs):
        ctx.fail(f"{len(lines)} progress reports for {len(outs)} outputs")
        return
    lat = np.asarray(data.lat)
    w = np.cos(np.deg2rad(lat))[:, None]
    back = case["direction"] == "backward"
    edge = ref.edge_mask((len(lat), len(data.lon)), case["periodic"])
    tot = dict.fromkeys(["tracked", "tagged", "lost", "gained", "boundary"], 0.0)
    for (msg, got), (name, o) in zip(lines, outs):
        tot["tracked"] += np.sum(w * (o["e_track"] if back
                                      else o["p_track_upper"] + o["p_track_lower"]))
        tot["tagged"] += np.sum(w * o["tagged_precip" if back else "tagged_evap"])
        tot["lost"] += np.sum(w * np.where(edge, 0, o["losses"]))
        tot["boundary"] += np.sum(w * np.where(edge, o["losses"], 0))
        if case["periodic"] and np.any(np.where(edge, 0, o["losses"])[:, [0, -1]] > 1e-3):
            ctx.count("reports_after_losses_at_the_seam")
        tot["gained"] += np.sum(w * o["gains"])
        now = np.sum(w * (o["s_track_upper_restart"] + o["s_track_lower_restart"]))
        ctx.count("transitions")
        if tot["tagged"] <= 0:
            ctx.count("reports_before_tagging")
            continue
        want = [100 * x / tot["tagged"] for x in (
            tot["tracked"], now, tot["boundary"], tot["lost"], tot["gained"])]
        ctx.state(*[round(x, 2) for x in want])
        tol = 0.0051 + 2e-5 * max(100, *want)
        for lab, g, x in zip(LABELS, got, want + [100.0]):
            if not abs(g - x) <= tol + (0.01 if lab == LABELS[-1] else 0):
                ctx.fail(f"report for {name}: {lab} {g}%, the output files give {x:.3f}%",
                         line=msg)
                return
        day = re.search(r"\d{4}-\d{2}-\d{2}.\d{2}:\d{2}", msg)
        if day and day.group(0).replace("T", " ") != o["time"][0].strftime("%Y-%m-%d %H:%M"):
            ctx.fail(f"the report for {name} is labelled {day.group(0)}")
            return
        ctx.count("reports_compared")
    ctx.count("traces_validated_against_impl")
    ctx.sample({**case, "last_report": lines[-1][0].split("Time since")[0]})


def run_case(case, ctx):
    {"machine": machine, "script": script, "report": report}[case["kind"]](case, ctx)
