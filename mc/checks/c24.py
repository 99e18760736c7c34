"""C24: figures show the sums of exactly the configured data."""
import datetime as dtm
import itertools

import numpy as np

from mc import ref, synth, wam

ID = "C24"
LEVEL = "exploration"
RULE = ("input: every combination of the listed tagging windows (bounds on, between and "
        "beyond input times, within a day, across midnight and over a month's end), regions "
        "(boxes, a box across the antimeridian, weighted and 0/1 masks), domains, directions "
        "and input frequencies; output: every combination of tracking periods, output "
        "frequencies and directions, and every single missing output file; each figure is "
        "made by the real code and the plotted array compared cell by cell with the sum "
        "over the files; evaluations are cells compared, states distinct plotted arrays")
ASSUMPTIONS = [
    "stationary tagging regions",
    "the figure is handed over to matplotlib's savefig; pixels are not looked at",
]
JOBS = 8
KNOWN_OMIT = "omits-one-file"
KNOWN_START = "unaligned-start"


def preload():
    wam.need("analysis.visualization")
    import matplotlib

    matplotlib.use("Agg")


LAT = np.arange(51.0, 46.0, -1.0)
WINDOWS = [  # hours after 2021-06-30T00:00, inclusive
    (0, 47), (3, 3), (5, 20), (20, 30), (23, 24), (24, 24), (24, 47), (4.5, 6.5), (46, 60),
    (12, 23.5),
]
REGIONS = ["box", "box_edge", "mask", "weights"]
PERIODS = [(0, 24), (6, 30), (0, 48), (12, 40), (3, 27), (0, 25), (0, 5)]


def cases(tier):
    out = []
    regions = REGIONS + ["seam"]
    ws = WINDOWS if tier == "quick" else WINDOWS + [
        (a, b) for a in (0, 1, 22, 23, 24, 25) for b in (1, 23, 24, 25, 26, 47) if a <= b]
    for d in ("forward", "backward"):
        for n, w in enumerate(ws):
            if tier == "quick":
                todo = [(regions[n % 5], [1, 3, 6][n % 3], n % 2 == 1)]
            else:
                todo = itertools.product(regions, [1, 3, 6], [False, True])
            for r, f, dom in todo:
                out.append(dict(kind="input", direction=d, window=list(w), region=r, freq=f,
                                domain=dom and r != "seam", both=False))
        if tier == "quick":
            for r, f in itertools.product(regions, [1, 3]):
                out.append(dict(kind="input", direction=d, window=[5, 30], region=r, freq=f,
                                domain=False, both=False))
        ps = PERIODS if tier == "quick" else PERIODS + [
            (a, a + n) for a in (0, 6, 12, 18) for n in (12, 18, 36, 60)]
        for p, f in itertools.product(ps, [6, 24] if tier == "quick" else [1, 3, 6, 12, 24]):
            out.append(dict(kind="output", direction=d, period=list(p), freq=f,
                            both=False, region="box"))
        out.append(dict(kind="output", direction=d, period=[0, 24], freq=6, both=False,
                        region="mask"))
        out.append(dict(kind="both", direction=d, period=[0, 24], freq=6, both=True,
                        region="box", window=[5, 20], domain=False))
        out.append(dict(kind="missing", direction=d, period=[0, 24], freq=6, both=False,
                        region="box"))
    return out


class Capture:
    """Takes the figure instead of rendering it."""

    def __enter__(self):
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt

        self.figs = []
        self.keep = mf.Figure.savefig
        cap = self

        def savefig(fig, fname, *a, **k):
            with open(fname, "wb") as f:  # the folder has to be there
                f.write(b"figure")
            cap.figs.append((str(fname), [cap.axes(ax) for ax in fig.axes
                                          if ax.get_label() != "<colorbar>"]))

        mf.Figure.savefig = savefig
        self.mf, self.plt = mf, plt
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig = self.keep
        self.plt.close("all")

    @staticmethod
    def axes(ax):
        from matplotlib.collections import QuadMesh

        for c in ax.collections:
            if isinstance(c, QuadMesh):
                xy = np.asarray(c.get_coordinates())
                mid = (xy[:-1, :-1] + xy[1:, 1:]) / 2
                a = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(c.get_array(), float)),
                                 np.nan).reshape(mid.shape[:2])
                return mid, a
        return None


def shown(ctx, axes, lat, lon, want, what, config):
    """Compare a plotted mesh with the expected field on its own coordinates."""
    if axes is None:
        ctx.fail(f"{what}: no field in the figure", config=config)
        return False
    mid, a = axes
    if a.shape != want.shape:
        ctx.fail(f"{what}: a field of shape {a.shape}, expected {want.shape}", config=config)
        return False
    seen = set()
    tol = 1e-4 * max(1e-9, float(np.max(np.abs(want))))
    for p in np.ndindex(a.shape):
        x, y = mid[p]
        j = int(np.argmin(np.abs(lat - y)))
        i = int(np.argmin(np.abs((lon - x + 180) % 360 - 180)))
        if abs(lat[j] - y) > 0.26 or (j, i) in seen:
            ctx.fail(f"{what}: cell drawn at ({x:.2f}, {y:.2f}), where the grid has none",
                     config=config)
            return False
        seen.add((j, i))
        ctx.count("evaluations")
        if not abs(a[p] - want[j, i]) <= tol:
            ctx.fail(f"{what}: {a[p]:.6g} mm at {lat[j]:g}N {lon[i]:g}E, the data add up to "
                     f"{want[j, i]:.6g}", config=config)
            return False
    ctx.state_arrays(np.round(a, 5))
    return True


def region_of(case, root, lat, lon):
    from mc.checks import c04

    r = case["region"]
    if r == "box":
        b = [1, 47.5, 3.5, 50]
    elif r == "box_edge":
        b = [float(lon[0]), float(lat[-1]), float(lon[0]), float(lat[1])]
        b[2] += 1.0
    elif r == "seam":
        b = [178, 47, -178, 50]
    else:
        j, i = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
        m = ((i + j) % 3 > 0).astype(float)
        if r == "weights":
            m *= 0.25 + 0.1 * ((2 * i + j) % 5)
        path = root / "region.nc"
        c04.write_mask(path, lat, lon, m)
        return str(path), m
    return b, ref.bbox_mask(b, lat, lon).astype(float)


def prepare(case, ctx):
    seam = case["region"] == "seam"
    lon = (np.array([-180.0, -179, -178, -177, 176, 177, 178, 179]) if seam
           else np.arange(-1.0, 6.0))
    lat = LAT
    step = case["freq"] if case["kind"] == "input" else 1
    t0 = synth.T(2021, 6, 30)
    times = synth.hours(t0, 96 // step, step)
    nt, ny, nx = len(times), len(lat), len(lon)
    k, j, i = np.meshgrid(np.arange(nt), np.arange(ny), np.arange(nx), indexing="ij")
    fields = {v: np.ones((nt, ny, nx)) for v in synth.VARS}
    fields["precip"] = 1e-4 * (1 + (7 * k + 3 * j + 5 * i) % 11 + 0.01 * k)
    fields["evap"] = 1e-5 * (1 + (5 * k + 2 * j + 3 * i) % 13 + 0.02 * k)
    synth.write_prep(ctx.tmp / "prep", times, lat, lon, fields)
    (ctx.tmp / "out").mkdir()
    region, mask = region_of(case, ctx.tmp, lat, lon)
    h = lambda x: t0 + dtm.timedelta(hours=x)
    tag = case.get("window") or [0, 24]
    per = case.get("period") or [0, 71]
    cfg = synth.base_config(
        ctx.tmp, tracking_direction=case["direction"], tagging_region=region,
        tagging_start_date=h(tag[0]), tagging_end_date=h(tag[1]),
        tracking_start_date=h(per[0]), tracking_end_date=h(per[1]),
        input_frequency=f"{step}h", timestep=1800,
        output_frequency=f"{case['freq'] if case['kind'] != 'input' else 24}h",
        tracking_domain=[0, 47, 5, 50] if case.get("domain") else None)
    return cfg, times, lat, lon, fields, mask, h, tag, per


def write_outputs(case, cfg, lat, lon, h, per):
    """The output files a run with this configuration leaves."""
    import netCDF4

    step = case["freq"]
    day0 = synth.T(2021, 6, 30)
    back = case["direction"] == "backward"
    ts = [x for x in range(0, 80) if per[0] <= x <= per[1] and x % step == 0]
    ts = [x for x in ts if x != (per[1] if back else per[0])]
    last = per[0] if back else per[1]
    if last not in ts:
        ts.append(last)
    files = []
    for n, x in enumerate(sorted(ts)):
        p = synth.write_state(cfg, h(x), lat, lon, 1.0, 1.0)
        vals = {}
        with netCDF4.Dataset(p, "a") as nc:
            for q, v in enumerate(["e_track"] if back else ["p_track_upper", "p_track_lower"]):
                j, i = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
                vals[v] = (q + 1) * 2.0 ** n + 0.1 * ((3 * i + 5 * j + n) % 7)
                nc.variables[v][0] = vals[v]
        files.append((h(x), p, sum(vals.values())))
    return files


def write_outputs_at(cfg, direction, t0, lat, lon, hs):
    for x in hs:
        synth.write_state(cfg, t0 + dtm.timedelta(hours=x), lat, lon, 1.0, 1.0)


def want_input(case, cfg, times, lat, lon, fields, mask, h, tag):
    step = case["freq"] if case["kind"] == "input" else 1
    q = "precip" if case["direction"] == "backward" else "evap"
    tot = np.zeros((len(lat), len(lon)))
    for n, t in enumerate(times):
        if h(tag[0]) <= t <= h(tag[1]):
            tot += fields[q][n].astype("f4") * mask * step * 3600
    if case.get("domain"):
        jj, ii = (lat >= 47) & (lat <= 50), (lon >= 0) & (lon <= 5)
        return lat[jj], lon[ii], tot[np.ix_(jj, ii)]
    return lat, lon, tot


def run_case(case, ctx):
    viz = "analysis.visualization"
    cfg, times, lat, lon, fields, mask, h, tag, per = prepare(case, ctx)
    path = synth.write_config(str(ctx.tmp / "config.yaml"), cfg)
    out = ctx.tmp / "out" / "figures"
    config = {k: cfg[k] for k in ("tracking_direction", "tagging_region", "input_frequency",
                                  "output_frequency", "tracking_domain",
                                  "tagging_start_date", "tagging_end_date",
                                  "tracking_start_date", "tracking_end_date")}
    if case["kind"] == "input":
        with Capture() as c:
            wam.need(viz, "visualize_input_data")(path)
        if len(c.figs) != 1 or not c.figs[0][0].startswith(str(out)):
            ctx.fail(f"figures saved: {[f for f, _ in c.figs]}", config=config)
            return
        la, lo, want = want_input(case, cfg, times, lat, lon, fields, mask, h, tag)
        shown(ctx, c.figs[0][1][0], la, lo, want, "input figure", config)
        ctx.sample(case)
        return
    files = write_outputs(case, cfg, lat, lon, h, per)
    back = case["direction"] == "backward"
    # the file of the known finding: the first written (backward) or last written (forward)
    skipped = files[-1][1]
    full = sum(v for _, _, v in files)
    part = sum((v for _, p, v in files if p != skipped), 0 * full)
    if case["kind"] == "missing":
        for t, p, v in files:
            if p == skipped:
                continue  # not read at all: the known finding
            hidden = p.with_suffix(".away")
            p.rename(hidden)
            try:
                with Capture() as c:
                    wam.need(viz, "visualize_output_data")(path)
                ctx.fail(f"a figure is made although {p.name} does not exist", config=config)
                return
            except Exception:
                ctx.count("evaluations")
                ctx.state("missing", p.name)
            hidden.rename(p)
        return
    aligned = per[0] % case["freq"] == 0
    try:
        with Capture() as c:
            wam.need(viz, "visualize_both" if case["both"] else "visualize_output_data")(path)
    except (FileNotFoundError, ValueError) as e:
        if not aligned and (isinstance(e, FileNotFoundError) or "few output" in str(e)):
            ctx.known(KNOWN_START, f"{case['direction']} run from {cfg['tracking_start_date']} "
                      f"with output every {case['freq']} h: all files exist, yet {e}")
            ctx.count("evaluations")
            return
        if isinstance(e, ValueError) and "few output" in str(e) and len(files) <= 2:
            ctx.known(KNOWN_OMIT, f"{case['direction']} run with {len(files)} outputs: {e}")
            ctx.count("evaluations")
            return
        raise
    if len(c.figs) != 1 or not c.figs[0][0].startswith(str(out)):
        ctx.fail(f"figures saved: {[f for f, _ in c.figs]}", config=config)
        return
    axes = [a for a in c.figs[0][1]]
    if case["both"]:
        la, lo, want = want_input(case, cfg, times, lat, lon, fields, mask, h, tag)
        if not shown(ctx, axes[0], la, lo, want, "input half of the figure", config):
            return
        axes = axes[1:]
    probe = axes[0][1] if axes and axes[0] is not None else None
    if probe is not None and probe.shape == part.shape and abs(
            np.nansum(probe) - part.sum()) < 1e-4 * part.sum():
        if shown(ctx, axes[0], lat, lon, part, "output figure", config):
            ctx.known(KNOWN_OMIT, f"{case['direction']} run from {cfg['tracking_start_date']} "
                      f"to {cfg['tracking_end_date']}, output every {case['freq']} h: "
                      f"{skipped.name} is missing from the sum")
        return
    shown(ctx, axes[0] if axes else None, lat, lon, full, "output figure", config)
    ctx.sample(case)
