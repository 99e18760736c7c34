"""C27: runs in one process do not influence each other."""
import hashlib
import os
import shutil
from pathlib import Path

import numpy as np

from mc import prep, scen, synth, wam

ID = "C27"
LEVEL = "model_checking"
RULE = ("every sequence up to a depth over an alphabet of tracking, preprocessing and figure "
        "runs in one process (a tree whose branches are forked processes), including runs "
        "that fail, restarts, masks, and replaced input data; after every run all output folders "
        "must hold what the same run writes in a fresh process, and all input must be "
        "unchanged; a state is a distinct content of all folders, a transition one run, a "
        "validated trace one sequence")
ASSUMPTIONS = ["input files are only replaced between runs, by new files of the same name",
               "one run at a time in a process"]
CASE_TIMEOUT = 600
TRACKERS = ["forward", "backward", "subdomain", "other data", "periodic", "fails", "restart",
            "mask"]
REFS = {}
EVENTS = TRACKERS + ["replace data", "figure"]
PREPS = ["pressure", "model", "cmip", "replace raw", "fails raw"]


def preload():
    wam.preload()
    wam.need("preprocessing.shared")
    wam.need("analysis.visualization")
    import dask
    import matplotlib

    matplotlib.use("Agg")
    dask.config.set(scheduler="synchronous")  # its threads do not survive a fork
    import tempfile
    root = Path(tempfile.mkdtemp())
    for kind, e in (("track", "forward"), ("prep", "pressure"), ("prep", "cmip")):
        w = World(root / e, kind)
        prep.warm(lambda: w.event(e))
    # what every run writes in a fresh process: worked out once for all cases
    for kind in ("track", "prep"):
        r = Reference(root / ("ref" + kind), kind)
        keys = []
        for e in TRACKERS if kind == "track" else PREPS:
            if not e.startswith("replace"):
                keys += [(e, v, fv) for v in (0, 1) for fv in
                         ((None, 0, 1) if e == "restart" else (None,))]
        REFS[kind] = dict(zip(keys, prep.in_children([(r.fresh, k) for k in keys])))
    shutil.rmtree(root)


def cases(tier):
    deep = tier != "quick"
    out = []
    for kind, alphabet, rep in (("track", EVENTS, "replace data"),
                                ("prep", PREPS, "replace raw")):
        for a in alphabet:
            if not deep:  # all pairs, and all pairs around a replacement
                out += [dict(kind=kind, first=[a], depth=1),
                        dict(kind=kind, first=[a, rep], depth=1)]
            else:
                out += [dict(kind=kind, first=[a, b], depth=2) for b in alphabet]
    return out


def digest(path):
    """Content of a netCDF file, without its history."""
    import netCDF4

    h = hashlib.sha1()
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        for n in sorted(nc.variables):
            v = nc.variables[n]
            h.update(n.encode() + str(v.dimensions).encode())
            a = np.asarray(v[:])
            h.update(a.astype(a.dtype.newbyteorder("=")).tobytes())
    return h.hexdigest()[:12]


class World:
    """All folders, and the runs of the alphabet on them."""

    def __init__(self, root, kind):
        self.root, self.kind = Path(root), kind
        self.root.mkdir(parents=True)
        self.v = 0
        if kind == "track":
            self.lat, self.lon = np.arange(50.0, 44.0, -1.0), np.arange(-180.0, 180.0, 45.0)
            self.times = synth.hours(synth.T(2021, 7, 1, 21), 6)
            self.data("p2", 2)
        self.replace(0)

    def data(self, name, version):
        n = len(self.times)
        new, old = self.root / (name + ".new"), self.root / name
        f = scen.make_fields(["wave", "southwest", "shear"][version],
                             ["gradient", "drying", "flicker"][version], "both", n,
                             len(self.lat), len(self.lon),
                             0.5 * scen.flux_scale(self.lat, self.lon))
        synth.write_prep(new, self.times, self.lat, self.lon, f)
        if old.exists():
            shutil.rmtree(old)
        os.rename(new, old)

    def raw(self, version):
        from mc.checks import c26

        for s in ("ERA5 pressure_levels", "ERA5 model_levels", "CMIP pressure_levels"):
            name = s.split()[0] + s.split()[1][:5]
            tmp = self.root / (name + ".new")
            c26.make(s, tmp)
            old = self.root / name
            import netCDF4

            for p in (tmp / "in").glob("*.nc"):
                with netCDF4.Dataset(p, "a") as nc:
                    for n, v in nc.variables.items():
                        if len(v.dimensions) > 2:
                            v[:] = np.asarray(v[:]) * (1 + 0.01 * version)
            (tmp / "in" / "unused").mkdir(exist_ok=True)
            if (old / "in").exists():
                shutil.rmtree(old / "in")
            old.mkdir(exist_ok=True)
            os.rename(tmp / "in", old / "in")
            shutil.rmtree(tmp)

    def replace(self, version):
        self.v = version
        if self.kind == "track":
            self.data("p1", version)
            from mc.checks.c04 import write_mask

            j, i = np.meshgrid(range(len(self.lat)), range(len(self.lon)), indexing="ij")
            write_mask(self.root / "region.new", self.lat, self.lon,
                       ((i + 3 * j + version) % 4) / 3)
            os.replace(self.root / "region.new", self.root / "region.nc")
        else:
            self.raw(version)

    def event(self, e):
        """Run it; True if it went through."""
        if e.startswith("replace"):
            self.replace(1 - self.v)
            return True
        return self.track(e) if self.kind == "track" else self.prep(e)

    def config(self, e):
        t = self.times
        kw = dict(tracking_start_date=t[0], tracking_end_date=t[-1],
                  tagging_start_date=t[0], tagging_end_date=t[-1], output_frequency="2h",
                  tagging_region=[-95, 46, 95, 48.5], periodic_boundary=False,
                  tracking_direction="backward" if e in ("backward", "other data")
                  else "forward", timestep=1800 if e == "periodic" else 3600,
                  preprocessed_data_folder=self.root / ("p2" if e == "other data" else "p1"))
        if e == "subdomain":
            kw["tracking_domain"] = [-140, 45, 140, 49]
        elif e == "mask":
            kw["tagging_region"] = str(self.root / "region.nc")
        elif e == "periodic":
            kw["periodic_boundary"] = True
        elif e == "fails":
            kw["tracking_end_date"] = t[-1] + (t[-1] - t[0])
        elif e == "restart":
            kw.update(restart=True, tracking_start_date=t[1])
        out = self.root / "out" / ("forward" if e in ("restart", "figure") else
                                   e.replace(" ", "_"))
        out.mkdir(parents=True, exist_ok=True)
        return synth.base_config(self.root, output_folder=out, **kw)

    def track(self, e):
        cfg = self.config(e)
        path = str(self.root / "config.yaml")  # the same one for all runs
        synth.write_config(path, cfg)
        try:
            if e == "figure":
                from mc.checks import c24

                with c24.Capture():
                    wam.need("analysis.visualization", "visualize_output_data")(path)
            else:
                synth.run_tracking(cfg, path)
        except Exception as x:
            self.error = f"{type(x).__name__}: {x}"
            return False
        return True

    def prep(self, e):
        s = {"pressure": "ERA5press", "model": "ERA5model", "cmip": "CMIPpress",
             "fails raw": "ERA5press"}[e]
        src = s[:4]
        cal = "proleptic_gregorian"
        t = synth.hours(synth.T(2021, 6, 30, 12 if src == "CMIP" else 22, cal=cal), 3,
                        6 if src == "CMIP" else 1)
        tpl = (f"{self.root}/{s}/in/{{variable}}_part*.nc" if src == "CMIP" else
               f"{self.root}/{s}/in/{{year}}-{{month:02d}}-{{day:02d}}{{levtype}}"
               "_{variable}.nc")
        end = t[-1]
        if e == "fails raw":
            import datetime as dtm
            end = t[-1] + dtm.timedelta(days=1)
        out = self.root / "out" / e.replace(" ", "_")
        out.mkdir(parents=True, exist_ok=True)
        cfg = prep.config(self.root, tpl, t[0], end, calendar=cal,
                          input_frequency="6h" if src == "CMIP" else "1h",
                          level_type="model_levels" if s.endswith("model")
                          else "pressure_levels",
                          levels="all" if src == "CMIP" else
                          [100, 120] if s.endswith("model") else [500, 850],
                          preprocessed_data_folder=str(out))
        path = str(self.root / "config.yaml")  # the same one for all runs
        synth.write_config(path, cfg)
        go = wam.need("preprocessing.shared", "prep_experiment")
        try:
            go(path, src)
        except Exception as x:
            self.error = f"{type(x).__name__}: {x}"
            return False
        return True

    def outputs(self):
        return {str(p.relative_to(self.root / "out")): digest(p)
                for p in sorted((self.root / "out").rglob("*.nc")) if "figures" not in p.parts}

    def inputs(self):
        return {str(p.relative_to(self.root)): hashlib.sha1(p.read_bytes()).hexdigest()
                for p in self.root.rglob("*.nc") if "out" not in p.relative_to(
                    self.root).parts}


class Reference:
    """What each run writes in a fresh process, given the data it meets."""

    def __init__(self, root, kind):
        self.root, self.kind = root, kind

    def fresh(self, e, v, fv):
        root = self.root / f"{e}-{v}-{fv}".replace(" ", "_")
        w = World(root, self.kind)
        if fv is not None:
            w.replace(fv)
            prep.in_child(w.event, "forward")
        w.replace(v)
        ok = prep.in_child(w.event, e)
        res = ok, w.outputs()
        shutil.rmtree(root)
        return res


def reference(kind, e, v, fv):
    """went through?, {output file: digest}; fv: data version of the forward outputs"""
    return REFS[kind][e, v, fv if e == "restart" else None]


def walk(world, case, hist, model, fwd, left, ctx):
    """Continue in this process after hist; returns a failure or None, counts, states."""
    counts, states = 0, []
    if len(hist) < len(case["first"]):
        todo = [case["first"][len(hist)]]
    else:
        if not left:
            return None, 0, [], 1
        left -= 1
        todo = EVENTS if case["kind"] == "track" else PREPS
    traces = 0
    snap = None
    for e in todo:
        # the folders are shared by all branches: put them back first
        if snap is None:
            snap = world.root.parent / f"snap{len(hist)}"
            shutil.copytree(world.root, snap)
        else:
            shutil.rmtree(world.root)
            shutil.copytree(snap, world.root)

        def branch():
            before = None if e.startswith("replace") else world.inputs()
            ok = world.event(e)
            h = hist + [e]
            m, f = dict(model), fwd
            if not e.startswith("replace") and e != "figure":
                want_ok, want = reference(case["kind"], e, world.v, fwd)
                if ok != want_ok:
                    why = getattr(world, "error", "")[:300]
                    return (f"after the runs {hist}, the run '{e}' "
                            f"{'succeeds' if ok else 'fails'}, but "
                            f"{'succeeds' if want_ok else 'fails'} in a fresh process: {why}",
                            0, [], 0)
                m.update(want)
                if e == "forward":
                    f = world.v
            if before is not None and world.inputs() != before:
                return f"the run '{e}' after {hist} changed its input", 0, [], 0
            got = world.outputs()
            if got != m:
                bad = sorted(k for k in set(got) | set(m) if got.get(k) != m.get(k))
                return (f"after the runs {hist}, the run '{e}' leaves {bad[:4]} different from "
                        "what the runs write in fresh processes", 0, [], 0)
            st = hashlib.sha1(repr(sorted(got.items())).encode()).hexdigest()
            r = walk(world, case, h, m, f, left, ctx)
            return r[0], r[1] + 1, r[2] + [st], r[3]

        err, c, s, t = prep.in_child(branch)
        counts, states, traces = counts + c, states + s, traces + t
        if err:
            return err, counts, states, traces
    if snap is not None:
        shutil.rmtree(snap)
    return None, counts, states, traces


def run_case(case, ctx):
    for (e, v, fv), (ok, out) in REFS[case["kind"]].items():
        if ok == (e.startswith("fails") or (e == "restart" and fv is None)):
            ctx.fail(f"in a fresh process, the run '{e}' {'succeeds' if ok else 'fails'}")
            return
    world = World(ctx.tmp / "world", case["kind"])
    (world.root / "out").mkdir(exist_ok=True)
    err, n, states, traces = walk(world, case, [], {}, None, case["depth"], ctx)
    ctx.count("transitions", n)
    ctx.count("traces_validated_against_impl", traces)
    for s in states:
        ctx.state(s)
    if err:
        ctx.fail(err)
    ctx.sample({"begins": case["first"], "further_runs": case["depth"]})
