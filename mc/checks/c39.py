"""C39: the data checks report exactly what is wrong with preprocessed data."""
import itertools
import shutil
import warnings

import cftime
import numpy as np
import xarray as xr

from mc import prep, synth, wam

ID = "C39"
LEVEL = "exploration"
RULE = ("the real check_input on (a) sound data for every grid, period, calendar and storage "
        "type of the alphabets, also as preprocessed from every source; (b) the same with "
        "every single fault of an alphabet in every variable or coordinate, and every pair of "
        "faults (thorough). An evaluation is one data set, distinct = distinct faults and data")
ASSUMPTIONS = ["plausible ranges are those the module documents: 0 to 0.001 and 0.1 kg m-2 s-1 "
               "for evap and precip, 0 to 1000 kg m-2 for storages, -1000 to 1000 kg m-1 s-1 "
               "for transports",
               "the wording of warnings is free; they name the variable or coordinate"]
VARS = {"evap": (0, 1e-3, "kg m-2 s-1"), "precip": (0, 0.1, "kg m-2 s-1"),
        "s_upper": (0, 1e3, "kg m-2"), "s_lower": (0, 1e3, "kg m-2")}
VARS.update({f"f{d}_{k}": (-1e3, 1e3, "kg m-1 s-1") for d in "xy" for k in ("upper", "lower")})
CALS = ["standard", "proleptic_gregorian", "noleap", "360_day", "julian", "all_leap"]
STEPS = [2.5, 1.0, 0.25, 0.1, 1 / 3, 0.7]
PLACES = ["first", "middle", "last", "all"]
UNITS = ["", "mm", "kg", "m", "s", "kg m-2", "kg m-2 s-1", "kg m-1 s-1", "kg/m2", "kg/m2/s",
         "kg m^-1 s^-1", "kg m**-1 s**-1", "kg m-2 s", "kg m-1", "KG M-2", "k"]
SAME = [{"kg m-2", "kg/m2"}, {"kg m-2 s-1", "kg/m2/s"},
        {"kg m-1 s-1", "kg m^-1 s^-1", "kg m**-1 s**-1"}]
FAULTS = (["nothing", "no units"] + [f"units {u}" for u in UNITS] + [f"{h} {p}" for h in
          ("below", "above", "far above", "far below") for p in PLACES])
COORD_FAULTS = ["reversed", "gap", "shuffled", "missing", "doubled"]


def preload():
    wam.preload()
    wam.need("analysis.checks")


def cases(tier):
    q = tier == "quick"
    out = [dict(kind="sound", dtype=d, ctype=c) for d in ("f4", "f8") for c in ("f4", "f8")]
    out += [dict(kind="values", var=v) for v in VARS]
    out += [dict(kind="coords", coord=c) for c in ("time", "latitude", "longitude")]
    out += [dict(kind="dims")]
    out += [dict(kind="preprocessed", source=s) for s in ("ERA5 pressure_levels",
                                                        "ERA5 model_levels", "CMIP", "ARCO")]
    if not q:
        out += [dict(kind="pairs", var=v, other=w) for v, w in
                itertools.combinations(VARS, 2)]
    return out


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)
    ctx.sample(case)


def data(nt=3, ny=4, nx=5, step=1.0, cal="standard", hours=1, lat0=60.0, lon0=-20.0,
         dtype="f4", ctype="f8", plain=False):
    t0 = synth.T(2021, 2, 27, 22, cal=cal)
    times = synth.hours(t0, nt, hours)
    if plain:
        times = np.array([np.datetime64(t.isoformat(), "ns") for t in times])
    c = dict(time=times, latitude=(lat0 - step * np.arange(ny)).astype(ctype),
             longitude=(lon0 + step * np.arange(nx)).astype(ctype))
    r = np.linspace(0.05, 0.9, nt * ny * nx).reshape(nt, ny, nx)
    return xr.Dataset({v: (tuple(c), (a + r * (b - a)).astype(dtype), {"units": u})
                       for v, (a, b, u) in VARS.items()}, c)


def said(ds):
    """Warnings of check_input, or the error."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            wam.need("analysis.checks", "check_input")(ds)
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"
    return [str(x.message) for x in w if issubclass(x.category, UserWarning)], None


def judge(ctx, what, ds, names):
    """Warnings about each of names and about nothing else; True if so."""
    ctx.count("evaluations")
    ctx.state(what)
    msgs, err = said(ds)
    if err is not None:
        ctx.fail(f"{what}: check_input fails with {err}")
        return False
    known = list(VARS) + ["time", "latitude", "longitude"]
    for n in names:
        if not any(n in m for m in msgs):
            ctx.fail(f"{what}: no warning about {n}, but {msgs[:3]}")
            return False
    for m in msgs:
        about = [k for k in known if k in m]
        if not set(about) & set(names):
            ctx.fail(f"{what}: warns {m!r}")
            return False
    return True


def sound(case, ctx):
    for cal, step, (nt, hours), (ny, nx), plain in itertools.product(
            CALS, STEPS, [(1, 1), (2, 0.5), (3, 1), (4, 6), (3, 24)],
            [(1, 1), (1, 4), (4, 1), (2, 2), (7, 9)], [False, True]):
        if plain and cal not in ("standard", "proleptic_gregorian"):
            continue
        for lat0, lon0 in ((60.0, -20.0), (3.0, -180.0), (-50.0, 170.0)):
            ds = data(nt, ny, nx, step, cal, hours, lat0, lon0, case["dtype"],
                      case["ctype"], plain)
            if not judge(ctx, f"sound data {case['dtype']} {case['ctype']}, {nt} times every "
                         f"{hours} h on calendar {cal}, {ny} x {nx} cells of {step:.3g} "
                         f"degrees from {lat0}, {lon0}", ds, []):
                return
    # values at the ends of the range are within it
    for end in (0, 1):
        ds = data(dtype="f8")
        for v, r in VARS.items():
            ds[v].values[:] = r[end]
        if not judge(ctx, f"values at the {'upper' if end else 'lower'} end", ds, []):
            return


def spoil(ds, v, fault):
    lo, hi, _ = VARS[v]
    if fault == "nothing":
        return False
    if fault == "no units":
        del ds[v].attrs["units"]
        return True
    if fault.startswith("units "):
        u = ds[v].attrs["units"] = fault[6:]
        return not any({u, VARS[v][2]} <= x for x in SAME)
    how, place = fault.rsplit(" ", 1)
    x = {"below": lo - 0.1 * (hi - lo), "above": hi + 0.1 * (hi - lo),
         "far below": lo - 1e6, "far above": hi + 1e6}[how]
    a = ds[v].values.reshape(-1)
    i = {"first": slice(0, 1), "middle": slice(a.size // 2, a.size // 2 + 1),
         "last": slice(-1, None), "all": slice(None)}[place]
    a[i] = x
    return True


def values(case, ctx):
    v = case["var"]
    for fault, (nt, ny, nx), dtype in itertools.product(
            FAULTS, [(3, 4, 5), (1, 1, 1), (1, 6, 4), (24, 2, 3)], ("f4", "f8")):
        ds = data(nt, ny, nx, dtype=dtype)
        bad = spoil(ds, v, fault)
        if not judge(ctx, f"{v} with {fault}, {nt} x {ny} x {nx} {dtype}", ds, [v] * bad):
            return


def pairs(case, ctx):
    v, w = case["var"], case["other"]
    for f, g in itertools.product(FAULTS, FAULTS):
        ds = data(2, 3, 2)
        names = [n for n, x in ((v, f), (w, g)) if spoil(ds, n, x)]
        if not judge(ctx, f"{v} with {f}, {w} with {g}", ds, names):
            return


def coords(case, ctx):
    c = case["coord"]
    for fault, n, k, cal in itertools.product(COORD_FAULTS, (3, 4, 6), range(3),
                                              ("standard", "noleap")):
        ds = data(n, n, n, cal=cal)
        i = list(range(n))
        if fault == "reversed":
            i = i[::-1]
        elif fault == "gap":
            ds = data(n + 1, n + 1, n + 1, cal=cal)
            i = [j for j in range(n + 1) if j != 1 + k % (n - 1)]
        elif fault == "shuffled":
            a = k % (n - 1)
            i[a], i[a + 1] = i[a + 1], i[a]
        elif fault == "doubled":
            i.insert(k, k)
        ds = ds.drop_vars(c) if fault == "missing" else ds.isel({c: i})
        if not judge(ctx, f"{c} {fault} ({n}, {k}, {cal})", ds, [c]):
            return


def dims(case, ctx):
    for v in VARS:
        for d in ("time", "latitude", "longitude"):
            ds = data()
            ds[v] = ds[v].isel({d: 0}, drop=True)
            ctx.count("evaluations")
            ctx.state(v, d)
            msgs, err = said(ds)
            if err is None and not any(v in m for m in msgs):
                ctx.fail(f"{v} without dimension {d}: no warning about it but {msgs[:3]}")
                return


def preprocess(source, root):
    lat, lon = np.arange(50.0, 46.0, -1.0), np.arange(0.0, 5.0)
    cal = "proleptic_gregorian" if source == "ARCO" else "standard"
    nt, shape = 3, (4, 5)
    one, four = np.ones((nt,) + shape), np.ones((nt, 2) + shape)
    times = synth.hours(synth.T(2021, 6, 30, 6, cal=cal), nt, 6)
    kind = source.split()[-1] if " " in source else "pressure_levels"
    f = dict(q=four * 0.01, u=four * 3, v=-four * 4, sp=one * 1e5)
    kw = dict(input_frequency="6h", level_type=kind, calendar=cal,
              levels=[500, 850] if kind == "pressure_levels" else [100, 120])
    arco, tpl = None, "unused"
    if source == "CMIP":
        t3 = synth.hours(synth.T(2021, 6, 30, 1, 30, cal=cal), 2 * nt, 3)
        f.update(qs=one * 0.01, us=one, vs=one, pr=np.repeat(one, 2, 0) * 2e-5,
                 hfls=np.repeat(one, 2, 0) * 5)
        tpl = prep.write_cmip(root / "in", times, t3, lat, lon, [85000.0, 50000.0], f,
                              cal=cal)
        kw.update(levels="all")
    else:
        f.update(tp=one * 1e-3, e=-one * 1e-4, tcw=one * 20)
        if kind == "pressure_levels":
            f.update(d2m=one * 280, u10=one, v10=one)
        if source == "ARCO":
            arco = prep.arco_dataset(times, lat, lon, [500, 850], f)
        else:
            tpl = prep.write_era5(root / "in", times, lat, lon, kind, kw["levels"], f,
                                  cal=cal)
    cfg = prep.config(root, tpl, times[0], times[-1], **kw)
    go = lambda: prep.run(cfg, source.split()[0])
    prep.with_arco(arco, go) if arco is not None else go()
    (path,) = sorted(root.rglob("*_fluxes_storages.nc"))
    with xr.open_dataset(path, use_cftime=True) as ds:
        return ds.load()


def preprocessed(case, ctx):
    root = ctx.tmp / "p"
    root.mkdir()
    ds = prep.in_child(preprocess, case["source"], root)
    shutil.rmtree(root)
    if not judge(ctx, f"as preprocessed from {case['source']}", ds, []):
        return
    for v, fault in itertools.product(VARS, FAULTS):
        x = ds.copy(deep=True)
        bad = spoil(x, v, fault)
        if not judge(ctx, f"from {case['source']}, {v} with {fault}", x, [v] * bad):
            return
