"""C25: every command does its own job and records its configuration."""
import itertools
import os
from pathlib import Path

import numpy as np

from mc import prep, scen, synth, wam

ID = "C25"
LEVEL = "exploration"
RULE = ("every command with every direction, every place and name of the configuration file "
        "and the debug flag, and every command with every argument error or failing operation "
        "of an alphabet, each in a process of its own on small synthetic data: exit status, "
        "every file left behind, values that tell the operations apart, copy of the "
        "configuration and log; evaluations are command invocations, states distinct "
        "(command, arguments, outcome)")
ASSUMPTIONS = [
    "remote services (ARCO-ERA5 store, 4TU) are replaced at the library boundary",
    "one command per process, as on a command line",
]
CASE_TIMEOUT = 200

TRACK = ["track"]
PREP = ["preprocess era5", "preprocess cmip", "preprocess arco-era5"]
VIS = ["visualize input", "visualize output", "visualize both"]
PLACES = ["outside", "inside", "relative", "spaces"]
ERRORS = ["no argument", "no file", "extra argument", "unknown option", "bad direction",
          "dates out of order", "bad calendar", "not yaml", "operation fails"]
FIG = {"visualize input": "input_event", "visualize output": "cumulative_sources",
       "visualize both": "summary_subplots"}


def preload():
    wam.need("cli", "cli")
    import matplotlib

    matplotlib.use("Agg")


def cases(tier):
    out = []
    for cmd in TRACK + VIS + PREP:
        for d in (["forward", "backward"] if cmd not in PREP else ["forward"]):
            out.append(dict(kind="ok", cmd=cmd, direction=d))
        out.append(dict(kind="error", cmd=cmd))
    out.append(dict(kind="download"))
    out.append(dict(kind="other"))
    return out


def invoke(args, cwd, fail=None, server=None, arco=None, said=False):
    """(exit code, error, saved figures, output, requests); to be called in a child.

    With said, the output comes with the messages of the program: [(level, first line)].
    """
    import logging

    from click.testing import CliRunner

    from mc.checks import c24

    os.chdir(cwd)
    logging.disable(logging.NOTSET)
    for h in list(logging.root.handlers):
        logging.root.removeHandler(h)
    cli = wam.need("cli", "cli")
    runner = CliRunner()
    figs, messages = [], []
    make = logging.getLogRecordFactory()

    def factory(*a, **k):
        r = make(*a, **k)
        if r.name.split(".")[0] == "wam2layers" and logging.root.handlers:
            messages.append((r.levelno, (r.getMessage().splitlines() or [""])[0]))
        return r

    logging.setLogRecordFactory(factory)

    def go():
        with c24.Capture() as c:
            r = runner.invoke(cli, args)
        figs.extend(Path(f).stem for f, _ in c.figs)
        return r

    if server is not None:
        from mc.checks import c21

        with c21.serve(server):
            r = go()
    elif arco is not None:
        r = prep.with_arco(arco, go)
    else:
        r = go()
    for h in logging.root.handlers:
        h.flush()
    err = f"{type(r.exception).__name__}: {r.exception}" if r.exception else ""
    text = (r.output, messages) if said else r.output[-500:]
    return r.exit_code, err, figs, text, (server.log if server else None)


def write(path, cfg, comment="# a comment that belongs to the file\n"):
    import json

    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(comment + json.dumps(cfg, indent=2) + "\n")


def tracking_setup(root, direction):
    lat, lon = np.arange(50.0, 45.0, -1.0), np.arange(0.0, 6.0)
    t0 = synth.T(2021, 7, 1)
    times = synth.hours(t0, 25)
    scale = scen.flux_scale(lat, lon) * 0.2
    fields = scen.make_fields("wave", "steady", "both", 25, len(lat), len(lon), scale)
    synth.write_prep(root / "prep", times, lat, lon, fields)
    cfg = synth.base_config(root, tracking_direction=direction, timestep=3600,
                            output_frequency="6h", tagging_region=[1, 47, 3, 49])
    return cfg, times


def raw_setup(root, cmd):
    """Raw input whose precipitation tells which source was read."""
    lat, lon = np.arange(50.0, 46.0, -1.0), np.arange(0.0, 5.0)
    nt, shape = 3, (4, 5)
    one, four = np.ones((nt,) + shape), np.ones((nt, 2) + shape)
    arco = None
    # the store answers whichever command is given
    cal = "proleptic_gregorian"
    t0 = synth.T(2021, 6, 30, 6, cal=cal)
    times = synth.hours(t0, nt, 6)
    f = dict(q=four * 0.01, u=four, v=four, sp=one * 1e5)
    a = dict(f, d2m=one * 280, tp=one * 3e-3, e=-one * 1e-4, tcw=one * 20)
    a.update(u10=one, v10=one)
    arco = prep.arco_dataset(times, lat, lon, [500, 850], a)
    kw = dict(input_frequency="6h", level_type="pressure_levels", levels=[500, 850],
              calendar=cal)
    tpl = "unused"
    rate = 3.0 / 21600
    if cmd.endswith(" era5"):
        g = dict(f, tp=one * 1e-3, e=-one * 1e-4)
        tpl = prep.write_era5(root / "in", times, lat, lon, "model_levels", [100, 120], g,
                              cal=cal)
        kw.update(level_type="model_levels", levels=[100, 120])
        rate = 1.0 / 21600
    elif cmd.endswith("cmip"):
        t3 = synth.hours(synth.T(2021, 6, 30, 1, 30, cal=cal), 2 * nt, 3)
        g = dict(f, qs=one * 0.01, us=one, vs=one, pr=np.repeat(one, 2, 0) * 2e-5,
                 hfls=np.repeat(one, 2, 0) * 5)
        tpl = prep.write_cmip(root / "in", times, t3, lat, lon, [85000.0, 50000.0], g,
                              cal=cal)
        kw.update(levels="all")
        rate = 2e-5
    cfg = prep.config(root, tpl, times[0], times[-1], **kw)
    return cfg, arco, rate


def files(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in Path(root).rglob("*")
            if p.is_file()}


def setup(cmd, root, direction):
    """configuration, folder the command writes to, remote store, check of the result"""
    root.mkdir(parents=True, exist_ok=True)
    (root / "out").mkdir()
    (root / "prep").mkdir()
    if cmd in PREP:
        cfg, arco, rate = raw_setup(root, cmd)
        return cfg, root / "prep", arco, rate
    cfg, times = tracking_setup(root, direction)
    if cmd in VIS:
        from mc.checks import c24
        c24.write_outputs_at(cfg, direction, times[0], np.arange(50.0, 45.0, -1.0),
                             np.arange(0.0, 6.0), [6, 12, 18, 24]
                             if direction == "forward" else [0, 6, 12, 18])
    return cfg, root / "out", None, None


def expected_new(cmd, direction, cfgname):
    t0 = synth.T(2021, 7, 1)
    if cmd in PREP:
        return {"prep/2021-06-30_fluxes_storages.nc"}
    if cmd in VIS:
        return set()
    hs = [6, 12, 18, 24] if direction == "forward" else [0, 6, 12, 18]
    import datetime as dtm

    return {"out/" + synth.out_name(direction, t0 + dtm.timedelta(hours=h)) for h in hs}


def ok(case, ctx):
    cmd, d = case["cmd"], case["direction"]
    for place, debug in itertools.product(PLACES, [False, True]):
        root = ctx.tmp / f"{place}{debug}"
        cfg, folder, arco, rate = setup(cmd, root, d)
        path = {"outside": root / "case.yaml", "inside": folder / "case.yaml",
                "relative": root / "sub" / "case.yaml",
                "spaces": root / "my case (1).yml"}[place]
        write(path, cfg)
        given, cwd = str(path), root
        if place == "relative":
            given, cwd = "case.yaml", path.parent
        before = files(root)
        args = (["--debug"] if debug else []) + cmd.split() + [given]
        code, err, figs, (text, messages), _ = prep.in_child(invoke, args, cwd, arco=arco,
                                                             said=True)
        ctx.count("evaluations")
        ctx.state(cmd, d, place, debug, code)
        what = f"wam2layers {' '.join(args[:-1])} with the configuration {place}, {d}"
        if code != 0:
            ctx.fail(f"{what}: failed with {err}")
            return
        after = files(root)
        copyname = str((folder / path.name).relative_to(root))
        if after.get(copyname) != before[str(path.relative_to(root))]:
            ctx.fail(f"{what}: no identical copy of the configuration in {folder.name}")
            return
        changed = [k for k in before if after.get(k) != before[k]]
        if changed:
            ctx.fail(f"{what}: changed or removed {changed}")
            return
        new = set(after) - set(before) - {copyname}
        logs = {k for k in new if k.endswith(".log")}
        if len(logs) != 1 or Path(next(iter(logs))).parent.name != folder.name:
            ctx.fail(f"{what}: log files {sorted(logs)}, expected one in {folder.name}")
            return
        if not after[next(iter(logs))].strip():
            ctx.fail(f"{what}: the log file is empty")
            return
        log = after[next(iter(logs))].decode()
        shown = [m for level, m in messages if level >= 20]
        for level, m in messages:
            if not m.strip() or (level < 20 and any(m in x for x in shown)):
                continue
            ctx.count("messages")
            if m not in log:
                ctx.fail(f"{what}: the log file misses {m!r}")
                return
            if m in text and level < 20 and not debug:
                ctx.fail(f"{what}: debug message {m!r} in the terminal")
                return
            if m not in text and (level >= 20 or debug):
                ctx.fail(f"{what}: {m!r} is in the log file but not in the terminal")
                return
        want = expected_new(cmd, d, path.name)
        drawn = {k for k in new if after[k] == b"figure"}
        if new - logs - drawn != want or (drawn and cmd not in VIS):
            ctx.fail(f"{what}: wrote {sorted(new - logs)}, expected {sorted(want)}")
            return
        if figs != ([FIG[cmd]] if cmd in VIS else []):
            ctx.fail(f"{what}: made the figures {figs}")
            return
        if cmd in PREP:
            got = prep.read(cfg)["2021-06-30"]["precip"]
            if not np.allclose(got, rate, rtol=1e-4):
                ctx.fail(f"{what}: precipitation {got.flat[0]:.6g}, that source has "
                         f"{rate:.6g} kg m-2 s-1")
                return
    ctx.sample({"command": args, "new_files": sorted(new)})


def error(case, ctx):
    cmd = case["cmd"]
    for e in ERRORS:
        root = ctx.tmp / e.replace(" ", "_")
        cfg, folder, arco, rate = setup(cmd, root, "forward")
        path = root / "case.yaml"
        if e == "bad direction":
            cfg["tracking_direction"] = "upward"
        elif e == "dates out of order":
            for k in ("tracking", "tagging", "preprocess"):
                cfg[k + "_start_date"], cfg[k + "_end_date"] = (
                    cfg[k + "_end_date"], cfg[k + "_start_date"])
        elif e == "bad calendar":
            cfg["calendar"] = "lunar"
        write(path, cfg)
        args = cmd.split() + [str(path)]
        if e == "not yaml":
            path.write_text("a: [1, 2\nb: }")
        elif e == "no argument":
            args = args[:-1]
        elif e == "no file":
            args[-1] += "x"
        elif e == "extra argument":
            args.append(str(path))
        elif e == "unknown option":
            args.append("--fast")
        elif e == "operation fails":
            # without its input; the figures also need the outputs
            for p in list((root / "prep").glob("*.nc")) + list((root / "out").glob("*.nc")):
                p.unlink()
            import shutil

            if (root / "in").exists():
                shutil.rmtree(root / "in")
            if arco is not None:
                arco = arco.drop_vars("total_precipitation")
        before = files(root)
        code, err, figs, text, _ = prep.in_child(invoke, args, root, arco=arco)
        ctx.count("evaluations")
        ctx.state(cmd, e, code != 0)
        what = f"wam2layers {cmd}: {e}"
        if code == 0:
            ctx.fail(f"{what}: reported success", output=text)
            return
        new = {k for k in files(root) if k not in before}
        data = {k for k in new if k.endswith(".nc")}
        if data or figs:
            ctx.fail(f"{what}: failed, but wrote {sorted(data)} {figs}")
            return
        if e in ("no argument", "no file", "extra argument", "unknown option") and new:
            ctx.fail(f"{what}: failed, but left {sorted(new)}")
            return
    ctx.sample({"command": cmd, "errors": ERRORS})


def download(case, ctx):
    from mc.checks import c21

    cases_ = wam.need("example_cases", "AVAILABLE_CASES")
    for name, doi in cases_.items():
        for debug in (False, True):
            root = ctx.tmp / f"{name}{debug}"
            root.mkdir()
            server = c21.Server()
            args = (["--debug"] if debug else []) + ["download", name]
            code, err, _, text, log = prep.in_child(invoke, args, root, server=server)
            ctx.count("evaluations")
            ctx.state("download", name, code)
            uuid = doi.split("/", 1)[1].split(".")[0]
            if code != 0:
                ctx.fail(f"download {name} failed: {err}")
                return
            top = sorted(p.name for p in root.iterdir())
            if top != [name] or not log or not all(uuid in u for u in log):
                ctx.fail(f"download {name}: left {top} after requests {log[:3]}, expected the "
                         f"data set {uuid} in a folder of that name")
                return
            # a second time: refused, nothing changes
            before = files(root)
            code, err, _, text, _ = prep.in_child(invoke, args, root, server=c21.Server())
            ctx.count("evaluations")
            if code == 0 or files(root) != before:
                ctx.fail(f"download {name} into an existing folder: exit code {code}")
                return
    for bad in (["download"], ["download", "nothing"], ["download", name, "x"]):
        root = ctx.tmp / "bad"
        root.mkdir(exist_ok=True)
        code, err, _, text, log = prep.in_child(invoke, bad, root, server=c21.Server())
        ctx.count("evaluations")
        ctx.state("download", len(bad), code)
        if code == 0 or log or list(root.iterdir()):
            ctx.fail(f"wam2layers {' '.join(bad)}: exit code {code}, requests {log}")
            return
    ctx.sample({"cases": list(cases_)})


def other(case, ctx):
    root = ctx.tmp
    cfg, folder, _, _ = setup("track", root, "forward")
    path = root / "case.yaml"
    write(path, cfg)
    before = files(root)
    p = str(path)
    bad = [["backtrack"], ["forwardtrack"], ["backtrack", p], ["forwardtrack", p],
           ["trace", p], ["preprocess"], ["preprocess", "gfs", p], ["visualize", "all", p],
           ["visualize"], ["Track", p], ["preprocess", "track", p], ["input", p], ["era5", p],
           ["--loud", "track", p]]
    for args in bad:
        code, err, figs, text, _ = prep.in_child(invoke, args, root)
        ctx.count("evaluations")
        ctx.state(tuple(a for a in args if a != p), code)
        bare = args in (["preprocess"], ["visualize"])  # may print help
        if (code == 0 and not bare) or files(root) != before or figs:
            ctx.fail(f"wam2layers {args}: exit code {code}, new files "
                     f"{sorted(set(files(root)) - set(before))}")
            return
    for args in (["--version"], ["--help"], ["track", "--help"], ["preprocess", "--help"],
                 ["visualize", "--help"], ["preprocess", "era5", "--help"]):
        code, err, figs, text, _ = prep.in_child(invoke, args, root)
        ctx.count("evaluations")
        ctx.state(tuple(args), code)
        if code != 0 or files(root) != before or not text.strip():
            ctx.fail(f"wam2layers {args}: exit code {code}")
            return
        if args == ["--version"]:
            v = getattr(__import__("wam2layers"), "__version__", None)
            if v and v not in text:
                ctx.fail(f"--version prints {text!r}, the version is {v}")
                return
    ctx.sample({"rejected": [" ".join(a[:2]) for a in bad]})


def run_case(case, ctx):
    {"ok": ok, "error": error, "download": download, "other": other}[case["kind"]](case, ctx)
