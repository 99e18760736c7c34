"""C26: invalid input is rejected before anything is written for it."""
import itertools
import shutil
from pathlib import Path

import netCDF4
import numpy as np

from mc import prep, synth, wam

ID = "C26"
LEVEL = "fault_enumeration"
RULE = ("for every source and level type, every variable: a missing value (NaN or fill value) "
        "at every position and time step, the variable or its file missing, and every wrong "
        "set of dimensions of an alphabet, one at a time, in files that are otherwise valid; "
        "plus unusual but valid input, which must be accepted; an evaluation is one "
        "preprocessing run in a fresh process; distinct = distinct (fault, position)")
ASSUMPTIONS = ["one fault at a time", "sequential preprocessing",
               "total column water is optional for ERA5"]
CASE_TIMEOUT = 300

LAT, LON = np.array([50.0, 49.0]), np.array([3.0, 4.0])
SOURCES = {
    "ERA5 pressure_levels": ["q", "u", "v", "sp", "d2m", "u10", "v10", "tp", "e", "tcw"],
    "ERA5 model_levels": ["q", "u", "v", "sp", "tp", "e", "tcw"],
    "CMIP pressure_levels": ["q", "u", "v", "sp", "qs", "us", "vs", "pr", "hfls"],
    "ARCO pressure_levels": ["q", "u", "v", "sp", "d2m", "u10", "v10", "tcw", "tp", "e"],
}


def preload():
    wam.preload()
    wam.need("preprocessing.shared")
    import tempfile

    for s in SOURCES:
        root = Path(tempfile.mkdtemp())
        cfg, times, src, arco = make(s, root)
        prep.warm(lambda: prep.with_arco(arco, lambda: prep.run(cfg, src)) if arco is not None
                  else prep.run(cfg, src))
        shutil.rmtree(root)


def cases(tier):
    out = []
    for s, vs in SOURCES.items():
        for v in vs:
            for k in range(3):
                out.append(dict(kind="value", source=s, var=v, at=k,
                                both=tier != "quick"))
            out.append(dict(kind="structure", source=s, var=v, both=tier != "quick"))
        out.append(dict(kind="valid", source=s))
    return out


def make(source, root):
    """Valid input of three time steps, two of them on the first day."""
    src, lt = source.split()
    step = 6 if src == "CMIP" else 1
    cal = "proleptic_gregorian"
    t0 = synth.T(2021, 6, 30, 12 if step == 6 else 22, cal=cal)
    times = synth.hours(t0, 3, step)
    shape = (3, len(LAT), len(LON))
    r = np.random.RandomState(7).rand(*shape)
    four = np.stack([r, 1 + r], axis=1)
    lev = [100, 120] if lt == "model_levels" else [500, 850]
    f = dict(q=0.004 * four, u=5 * four - 6, v=3 - 4 * four, sp=9.9e4 + 1e3 * r)
    kw = dict(input_frequency=f"{step}h", level_type=lt, levels=lev, calendar=cal)
    arco = None
    tpl = "unused"
    if src == "CMIP":
        t3 = synth.hours(synth.T(2021, 6, 30, 1, 30, cal=cal), 10, 3)
        tt = synth.hours(synth.T(2021, 6, 30, 6, cal=cal), 5, 6)
        g = {k: np.concatenate([a[:1], a, a[:1]]) for k, a in f.items()}
        g.update(qs=0.01 + 0 * g["sp"], us=g["sp"] / 1e5, vs=-g["sp"] / 1e5)
        r3 = np.random.RandomState(8).rand(10, len(LAT), len(LON))
        g.update(pr=1e-4 * r3, hfls=100 * r3 - 20)
        tpl = prep.write_cmip(root / "in", tt, t3, LAT, LON, [85000.0, 50000.0], g, cal=cal)
        kw["levels"] = [85000, 50000]
    else:
        f.update(tp=1e-3 * r, e=-5e-4 * r + 1e-4, tcw=15 + r)
        if lt == "pressure_levels":
            f.update(d2m=280 + r, u10=r, v10=-r)
        if src == "ERA5":
            tpl = prep.write_era5(root / "in", times, LAT, LON, lt, lev, f, cal=cal)
        else:
            arco = prep.arco_dataset(times, LAT, LON, lev, f)
    cfg = prep.config(root, tpl, times[0], times[-1], **kw)
    return cfg, times, src, arco


def attempt(cfg, src, arco):
    """error or None, and the times stored"""
    out = Path(cfg["preprocessed_data_folder"])
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)

    def go():
        prep.run(cfg, src)

    err = None
    try:
        if arco is not None:
            prep.in_child(prep.with_arco, arco, go)
        else:
            prep.in_child(go)
    except RuntimeError as e:
        err = str(e)
    stored = []
    for d in prep.read(cfg).values():
        stored += [t.strftime("%Y-%m-%dT%H") for t in np.atleast_1d(d["time"])]
    return err, stored


def name_in_file(src, v):
    return prep.CMIP[v] if src == "CMIP" else v


def file_of(root, src, v, time):
    if src == "CMIP":
        return next((root / "in").glob(f"{prep.CMIP[v]}_part*.nc"))
    m = [p for p in (root / "in").glob(f"{time.strftime('%Y-%m-%d')}*_{v}.nc")]
    assert len(m) == 1, m
    return m[0]


def value(case, ctx):
    root = ctx.tmp
    cfg, times, src, arco = make(case["source"], root)
    v, k = case["var"], case["at"]
    three = v in ("pr", "hfls")
    lev = v in ("q", "u", "v")
    shape = ((2,) if lev else ()) + (len(LAT), len(LON))
    n = 0
    for pos in np.ndindex(shape):
        for sub in ([0, 1] if three else [0]):
            for how in (["nan", "fill"] if case["both"] and src != "ARCO" else
                        [["nan", "fill"][n % 2] if src != "ARCO" else "nan"]):
                n += 1
                store = arco
                if src == "ARCO":
                    store = arco.copy(deep=True)
                    store[prep.ARCO[v]].values[(k,) + pos] = np.nan
                else:
                    p = file_of(root, src, v, times[k])
                    if src == "CMIP":
                        # the 6-hourly values start one step earlier
                        at = 2 * (k + 1) + sub if three else k + 1
                    else:
                        at = [t for t in times if t.day == times[k].day].index(times[k])
                    with netCDF4.Dataset(p, "a") as nc:
                        x = nc.variables[name_in_file(src, v)]
                        old = np.array(x[(at,) + pos])
                        x[(at,) + pos] = np.nan if how == "nan" else np.ma.masked
                err, stored = attempt(cfg, src, store)
                if src != "ARCO":
                    with netCDF4.Dataset(p, "a") as nc:
                        nc.variables[name_in_file(src, v)][(at,) + pos] = old
                ctx.count("evaluations")
                ctx.state(case["source"], v, k, pos, sub)
                what = (f"{case['source']}: missing value ({how}) in {v} at position "
                        f"{pos} of {times[k]}")
                if err is None:
                    ctx.fail(f"{what}: no error, {len(stored)} times stored")
                    return
                late = [t for t in stored if t >= times[k].strftime("%Y-%m-%dT%H")]
                if late:
                    ctx.fail(f"{what}: stored {late} nevertheless", error=err[:300])
                    return
    ctx.sample({"fault": what, "stored_before": stored})


def redim(path, name, how, levels):
    """Rewrite a file so that its variable has other dimensions."""
    with netCDF4.Dataset(path) as nc:
        cols = {c: (np.array(nc.variables[c][:]), nc.variables[c].ncattrs(),
                    {a: nc.variables[c].getncattr(a) for a in nc.variables[c].ncattrs()})
                for c in nc.variables if c != name}
        dims = list(nc.variables[name].dimensions)
        a = np.array(nc.variables[name][:])
    lat = dims[-2]
    lev = [d for d in dims if "lev" in d]
    if how.startswith("extra"):
        m = int(how[-1])
        dims.insert(1, "number")
        a = np.stack([a] * m, axis=1)
        cols["number"] = (np.arange(m), [], {})
    elif how == "no latitude":
        a = a[..., 0, :]
        dims.remove(lat)
        cols.pop(lat)
    elif how == "no longitude":
        lon = dims[-1]
        a = a[..., 0]
        dims.remove(lon)
        cols.pop(lon)
    elif how == "no level":
        a = a[:, 0]
        dims.remove(lev[0])
        cols.pop(lev[0])
    elif how == "one level":
        a = a[:, :1]
        cols[lev[0]] = (cols[lev[0]][0][:1],) + cols[lev[0]][1:]
    elif how == "level":
        name_l = "plev" if "cmip" in str(path) or levels[0] > 2000 else "level"
        dims.insert(1, name_l)
        a = np.stack([a] * len(levels), axis=1)
        cols[name_l] = (np.asarray(levels), [], {})
    path.unlink()
    with netCDF4.Dataset(path, "w") as nc:
        for d in dims:
            nc.createDimension(d, len(cols[d][0]))
        for c, (val, _, attrs) in cols.items():
            x = nc.createVariable(c, val.dtype, (c,))
            for k, w in attrs.items():
                if k != "_FillValue":
                    setattr(x, k, w)
            x[:] = val
        nc.createVariable(name, a.dtype, dims)[:] = a


def redim_arco(ds, var, how):
    import xarray as xr

    x = ds[var]
    rest = ds.drop_vars(var)
    if how.startswith("extra"):
        x = x.expand_dims(number=int(how[-1]), axis=1)
    elif how == "no latitude":
        x = x.isel(latitude=0, drop=True)
    elif how == "no longitude":
        x = x.isel(longitude=0, drop=True)
    elif how == "no level":
        x = x.isel(level=0, drop=True)
    elif how == "one level":
        rest = rest.isel(level=slice(1))
        x = x.isel(level=slice(1))
    elif how == "level":
        x = x.expand_dims(level=ds.level, axis=1)
    out = rest.assign({var: x})
    out.attrs = ds.attrs
    return out


def structure(case, ctx):
    v = case["var"]
    lev = v in ("q", "u", "v")
    faults = ["absent", "other name", "extra1", "extra2", "no latitude", "no longitude",
              "no level" if lev else "level"] + (["one level"] if lev else [])
    for how in faults:
        for day in (0, 2):
            if not case["both"] and how != "absent" and day != 2 * (faults.index(how) % 2):
                if case["source"].startswith("ERA5"):
                    continue
            if v in ("d2m", "tp", "e", "pr", "hfls") and how in ("no latitude", "no longitude"):
                continue  # combined with a complete field before the validation
            if how == "other name" and case["source"].startswith("ERA5"):
                continue  # the only variable of the file is used, whatever its name
            root = ctx.tmp / f"{how}{day}".replace(" ", "_")
            cfg, times, src, arco = make(case["source"], root)
            if src in ("CMIP", "ARCO") and day:
                continue
            if v == "tcw" and src == "ERA5" and how == "absent":
                continue
            if arco is not None:
                nm = prep.ARCO[v]
                if how == "absent":
                    arco = arco.drop_vars(nm)
                elif how == "other name":
                    arco = arco.rename({nm: "x" + nm})
                else:
                    arco = redim_arco(arco, nm, how)
            else:
                p = file_of(root, src, v, times[day])
                nm = name_in_file(src, v)
                if how == "absent":
                    p.unlink()
                elif how == "other name":
                    with netCDF4.Dataset(p, "a") as nc:
                        nc.renameVariable(nm, "x" + nm)
                else:
                    redim(p, nm, how, [85000.0, 50000.0] if src == "CMIP" else cfg["levels"])
            err, stored = attempt(cfg, src, arco)
            ctx.count("evaluations")
            ctx.state(case["source"], v, how, day)
            what = f"{case['source']}: {v} {how} on {times[day].strftime('%Y-%m-%d')}"
            if err is None:
                ctx.fail(f"{what}: no error, {len(stored)} times stored")
                return
            late = [t for t in stored if t >= times[day].strftime("%Y-%m-%dT%H")]
            if late:
                ctx.fail(f"{what}: stored {late} nevertheless", error=err[:300])
                return
            shutil.rmtree(root)
    ctx.sample({"source": case["source"], "var": v, "faults": faults})


def valid(case, ctx):
    """Unusual values that are valid must pass."""
    base = ["as is", "calm", "no rain", "negative rain", "strong condensation", "dry",
            "low surface pressure", "high surface pressure"]
    for how in base:
        root = ctx.tmp / how.replace(" ", "_")
        cfg, times, src, arco = make(case["source"], root)
        edits = {"calm": dict(u=0, v=0), "no rain": dict(tp=0, pr=0, e=0, hfls=0),
                 "negative rain": dict(tp=-1e-9, pr=-1e-9),
                 "strong condensation": dict(e=1e-3, hfls=-500),
                 "dry": dict(q=1e-12), "low surface pressure": dict(sp=5.2e4),
                 "high surface pressure": dict(sp=1.08e5)}.get(how, {})
        for v, val in edits.items():
            if arco is not None:
                if prep.ARCO.get(v) in arco:
                    arco[prep.ARCO[v]].values[...] = val
            else:
                nm = name_in_file(src, v) if src != "CMIP" or v in prep.CMIP else None
                for p in (root / "in").glob("*.nc"):
                    if nm and (p.stem.endswith("_" + nm) or p.stem.startswith(nm + "_")):
                        with netCDF4.Dataset(p, "a") as nc:
                            nc.variables[nm][:] = val
        err, stored = attempt(cfg, src, arco)
        ctx.count("evaluations")
        ctx.state(case["source"], how)
        if err is not None or len(stored) != 3:
            ctx.fail(f"{case['source']}: valid input ({how}) gave {len(stored)} of 3 times",
                     error=(err or "")[:600])
            return
    ctx.sample({"source": case["source"], "accepted": base})


def run_case(case, ctx):
    {"value": value, "structure": structure, "valid": valid}[case["kind"]](case, ctx)
