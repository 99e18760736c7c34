"""C32: preprocessing depends on what the input says, not on how its files are laid out."""
import itertools
import os
import shutil
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from mc import prep, synth, wam

ID = "C32"
LEVEL = "exploration"
RULE = ("for every source and level type: every order of the dimensions of each single "
        "variable and of all variables together, every file order of the levels and "
        "latitudes of each variable and of all, every storage type, file format, time unit, "
        "name set and additional content of an alphabet for each variable and for all, on "
        "grids with equal and with different numbers of levels, rows and columns; each "
        "compared with the same data in the plainest layout; an evaluation is one field at "
        "one time; distinct = distinct (source, layout, variable)")
ASSUMPTIONS = ["ERA5 files hold one variable each",
               "the plainest layout is judged by C13 to C15",
               "packed values are exact multiples of the scale factor"]
CASE_TIMEOUT = 600

SOURCES = {
    "ERA5 pressure_levels": ["q", "u", "v", "sp", "d2m", "u10", "v10", "tp", "e", "tcw"],
    "ERA5 model_levels": ["q", "u", "v", "sp", "tp", "e", "tcw"],
    "CMIP pressure_levels": ["q", "u", "v", "sp", "qs", "us", "vs", "pr", "hfls"],
    "ARCO pressure_levels": ["q", "u", "v", "sp", "d2m", "u10", "v10", "tcw", "tp", "e"],
}
DAY = "2021-06-30"
STEP = dict(q=1e-6, u=1e-2, v=1e-2, sp=4, d2m=1e-2, u10=1e-2, v10=1e-2, tp=1e-6, e=1e-6,
            tcw=1e-2, qs=1e-6, us=1e-2, vs=1e-2, pr=1e-7, hfls=1e-1)


def preload():
    wam.preload()
    wam.need("preprocessing.shared")
    import tempfile

    for s in SOURCES:
        root = Path(tempfile.mkdtemp())
        d = Data(s, (2, 2, 2))
        prep.warm(lambda: outcome(d, {}, root))
        shutil.rmtree(root)


class Data:
    def __init__(self, source, shape):
        self.src, self.lt = source.split()
        nl, ny, nx = shape
        self.shape = shape
        self.lat = 50.0 - 2.0 * np.arange(ny)
        self.lon = -3.0 + 2.0 * np.arange(nx)
        step = 6 if self.src == "CMIP" else 1
        self.times = synth.hours(synth.T(2021, 6, 30, 6, cal=CAL), 2, step)
        self.levels = ([96, 112, 130, 137] if self.lt == "model_levels"
                       else [300, 550, 850, 1000])[:nl]
        r = np.random.RandomState(11)
        four, three = (2, nl, ny, nx), (2, ny, nx)

        def mk(v, lo, hi, s):
            return np.round(r.uniform(lo, hi, s) / STEP[v]) * STEP[v]

        f = dict(q=mk("q", 1e-3, 1.2e-2, four), u=mk("u", -20, 20, four),
                 v=mk("v", -20, 20, four), sp=mk("sp", 9.0e4, 1.02e5, three))
        if self.src == "CMIP":
            t3 = (4, ny, nx)
            f.update(qs=mk("qs", 1e-3, 1.2e-2, three), us=mk("us", -9, 9, three),
                     vs=mk("vs", -9, 9, three), pr=mk("pr", 0, 1e-3, t3),
                     hfls=mk("hfls", -50, 200, t3))
        else:
            f.update(tp=mk("tp", 0, 5e-3, three), e=mk("e", -1e-3, 4e-4, three),
                     tcw=mk("tcw", 5, 40, three))
            if self.lt == "pressure_levels":
                f.update(d2m=mk("d2m", 265, 300, three), u10=mk("u10", -9, 9, three),
                         v10=mk("v10", -9, 9, three))
        self.fields = f
        if self.src == "CMIP":
            self.times3 = synth.hours(synth.T(2021, 6, 30, 1, 30, cal=CAL), 4, 3)


CAL = "proleptic_gregorian"
# One layout: dict of
PLAIN = dict(order=None,      # permutation of the indices of (time, level, lat, lon)
             levels=None,     # file order of the levels
             flip=False,      # latitudes the other way round
             dtype="f8", packed=False, format="NETCDF4", units="hours since 1900-01-01",
             names="plain", extra=None, zip=False, endian="native", single=False,
             unlimited=False, timetype="f8", chunks=False)


def arrange(d, v, lay):
    """coords, dims, array of variable v in the given layout"""
    a = d.fields[v]
    lev = v in ("q", "u", "v")
    dims = ["time"] + (["level"] if lev else []) + ["latitude", "longitude"]
    tt = d.times3 if v in ("pr", "hfls") else d.times
    c = {"time": list(tt), "latitude": d.lat, "longitude": d.lon}
    if lev:
        c["level"] = np.asarray(d.levels, "i4" if d.src != "CMIP" else "f8")
        if d.src == "CMIP":
            c["level"] = c["level"] * 100.0
        if lay["levels"]:
            k = list(lay["levels"])
            a, c["level"] = a[:, k], c["level"][k]
    if lay["flip"]:
        a, c["latitude"] = a[..., ::-1, :], d.lat[::-1]
    if lay["order"]:
        full = ["time", "level", "latitude", "longitude"]
        want = [full[k] for k in lay["order"] if full[k] in dims]
        a = np.transpose(a, [dims.index(x) for x in want])
        dims = want
    return c, dims, a


NAMES = {"plain": {}, "new": {"time": "valid_time"}, "lev": {"level": "lev"},
         "cmip": {"level": "plev", "latitude": "lat", "longitude": "lon"},
         "cmip long": {"level": "plev"}}


def names(d, lay):
    if d.src == "CMIP":
        return NAMES["cmip" if lay["names"] == "plain" else lay["names"]]
    n = dict(NAMES[lay["names"]])
    if lay["names"] == "new":
        n["level"] = "model_level" if d.lt == "model_levels" else "pressure_level"
    return n


def write(path, d, v, lay):
    c, dims, a = arrange(d, v, lay)
    nm = names(d, lay)
    os.makedirs(path.parent, exist_ok=True)
    with netCDF4.Dataset(path, "w", format=lay["format"]) as nc:
        for x in dims:
            n = nm.get(x, x)
            nc.createDimension(n, None if lay["unlimited"] and x == "time" else len(c[x]))
            if x == "time":
                w = nc.createVariable(n, lay["timetype"], (n,))
                w.units, w.calendar = lay["units"], CAL
                w[:] = cftime.date2num(c[x], lay["units"], CAL)
            else:
                val = np.asarray(c[x])
                if val.dtype == "f8" and lay["dtype"] == "f4":
                    val = val.astype("f4")
                nc.createVariable(n, val.dtype, (n,))[:] = val
        name = prep.CMIP[v] if d.src == "CMIP" else v
        fdims = tuple(nm.get(x, x) for x in dims)
        kw = dict(zlib=True, shuffle=True, chunksizes=(1,) * len(dims)) if lay["zip"] else {}
        if lay["endian"] != "native":
            kw["endian"] = lay["endian"]
        if lay["packed"]:
            x = nc.createVariable(name, "i2", fdims, fill_value=-32767, **kw)
            mid = np.round((a.max() + a.min()) / 2 / STEP[v]) * STEP[v]
            s = max(STEP[v], (a.max() - a.min()) / 60000)
            x.scale_factor, x.add_offset = s, mid
            x.set_auto_maskandscale(False)
            x[:] = np.round((a - mid) / s).astype("i2")
        else:
            x = nc.createVariable(name, lay["dtype"], fdims, fill_value=-32767.0, **kw)
            x[:] = a
        x.units = "unit of the source"
        if lay["extra"] == "scalars":
            for n, val in (("number", 0), ("height", 2.0 if v != "us" else 10.0),
                           ("surface", 0.0)):
                nc.createVariable(n, "f8", ())[...] = val
            x.coordinates = "number height surface"
        elif lay["extra"] == "expver":
            t = nm.get("time", "time")
            e = nc.createVariable("expver", str if lay["format"] == "NETCDF4" else "S1", (t,))
            for k in range(len(c["time"])):
                e[k] = "0001" if v != "sp" else "0005"
            nc.createVariable("number", "i8", ())[...] = 0
            x.coordinates = f"number {t} expver"
        elif lay["extra"] == "bounds":
            nc.createDimension("bnds", 2)
            for k in ("latitude", "longitude", "time"):
                n = nm.get(k, k)
                nc.variables[n].bounds = n + "_bnds"
                b = nc.createVariable(n + "_bnds", "f8", (n, "bnds"))
                b[:] = np.stack([np.asarray(nc.variables[n][:], "f8")] * 2, axis=1)


def outcome(d, layouts, root):
    """Preprocessed fields with the given layouts {variable: layout}."""
    root = Path(root)
    kw = dict(input_frequency="6h" if d.src == "CMIP" else "1h", level_type=d.lt,
              levels=list(d.levels), calendar=CAL)
    single = any(x.get("single") for x in layouts.values())
    lay = {v: {**PLAIN, **layouts.get(v, {})} for v in d.fields}
    arco = None
    tpl = "unused"
    if d.src == "CMIP":
        kw["levels"] = "all"
        for v in d.fields:
            write(root / "in" / f"{prep.CMIP[v]}_x.nc", d, v, lay[v])
        tpl = f"{root}/in/{{variable}}_*.nc"
    elif d.src == "ERA5":
        pre = {"model_levels": "_ml", "pressure_levels": "_pl"}[d.lt]
        for v in d.fields:
            p = pre if v in ("q", "u", "v") else ""
            stem = f"{DAY}{p}_{v}.nc"
            if single:
                stem = f"{DAY[:7]}{p}_{v}.nc"
            write(root / "in" / stem, d, v, lay[v])
        tpl = f"{root}/in/{{year}}-{{month:02d}}-{{day:02d}}{{levtype}}_{{variable}}.nc"
        if single:
            tpl = f"{root}/in/{{year}}-{{month:02d}}{{levtype}}_{{variable}}.nc"
    else:
        arco = arco_store(d, lay)
    cfg = prep.config(root, tpl, d.times[0], d.times[-1], **kw)
    if arco is not None:
        prep.with_arco(arco, lambda: prep.run(cfg, d.src))
    else:
        prep.run(cfg, d.src)
    return prep.read(cfg)


def arco_store(d, lay):
    import xarray as xr

    cls = cftime.DatetimeProlepticGregorian
    out = {}
    for v in d.fields:
        c, dims, a = arrange(d, v, lay[v])
        c["time"] = [cls(t.year, t.month, t.day, t.hour) for t in c["time"]]
        if lay[v]["dtype"] == "f4":
            a = a.astype("f4")
        x = xr.DataArray(a, {k: c[k] for k in dims}, dims)
        if lay[v]["chunks"]:
            x = x.chunk({k: 1 for k in dims})
        out[prep.ARCO[v]] = x
    out["2m_temperature"] = out[prep.ARCO["d2m"]] + 1
    ref = out[prep.ARCO["q"]]
    # a store has one order of coordinates for all variables
    ds = xr.Dataset({k: x for k, x in out.items()}, coords={k: ref[k] for k in ref.dims})
    if lay["q"]["extra"] == "scalars":
        ds = ds.assign_coords(number=0, height=2.0)
    if lay["q"]["extra"] == "bounds":
        ds["latitude_bnds"] = (("latitude", "bnds"), np.stack([ds.latitude] * 2, axis=1))
    ds.attrs.update(valid_time_start=DAY, valid_time_stop=DAY)
    return ds


def layouts(source, nl):
    """(label, layout, may differ per variable)"""
    src = source.split()[0]
    out = []
    for p in itertools.permutations(range(4)):
        if p != (0, 1, 2, 3):
            out.append((f"dimension order {p}", dict(order=p), True))
    per = src != "ARCO"
    for p in itertools.permutations(range(nl)):
        if p != tuple(range(nl)):
            out.append((f"level order {p}", dict(levels=p), per))
    out += [("flipped latitudes", dict(flip=True), per),
            ("flipped latitudes, turned", dict(flip=True, order=(3, 2, 1, 0)), per),
            ("f4", dict(dtype="f4"), True)]
    if src == "ARCO":
        out += [("chunks", dict(chunks=True), True),
                ("scalars", dict(extra="scalars"), False),
                ("bounds", dict(extra="bounds"), False)]
        return out
    out += [("packed", dict(packed=True), True),
            ("packed, turned", dict(packed=True, order=(3, 1, 2, 0)), True),
            ("classic", dict(format="NETCDF3_64BIT_OFFSET", packed=True), True),
            ("netCDF4 classic", dict(format="NETCDF4_CLASSIC", dtype="f4"), True),
            ("big endian", dict(endian="big", dtype="f4"), True),
            ("compressed", dict(zip=True), True),
            ("unlimited", dict(unlimited=True), True),
            ("minutes", dict(units="minutes since 2000-01-01"), True),
            ("seconds", dict(units="seconds since 1970-01-01", timetype="i8"), True),
            ("int hours", dict(timetype="i4", units="hours since 1900-01-01")
             if src != "CMIP" else dict(units="days since 1850-01-01"), True),
            ("scalars", dict(extra="scalars"), True)]
    if src == "ERA5":
        out += [("new names", dict(names="new"), True),
                ("new names, expver", dict(names="new", extra="expver", dtype="f4",
                                           units="seconds since 1970-01-01", timetype="i8"),
                 True),
                ("lev", dict(names="lev"), True),
                ("monthly", dict(single=True), False)]
    else:
        out += [("long names", dict(names="cmip long"), False),
                ("bounds", dict(extra="bounds"), True)]
    return out


def cases(tier):
    out = []
    shapes = [(3, 3, 3), (2, 3, 4)] if tier == "quick" else \
        [(3, 3, 3), (2, 2, 2), (2, 3, 4), (4, 3, 2), (3, 4, 3), (1, 2, 3)]
    for s, vs in SOURCES.items():
        for n, shape in enumerate(shapes):
            ls = layouts(s, shape[0])
            size = 24
            for i in range(0, len(ls), size):
                out.append(dict(source=s, shape=shape, vars=None, part=[i, i + size]))
            if n == 0 or tier != "quick":
                for v in vs:
                    out.append(dict(source=s, shape=shape, vars=v, part=None))
    return out


def same_run(ctx, d, want, layouts_, what, root):
    try:
        got = prep.in_child(outcome, d, layouts_, root)
    except RuntimeError as e:
        ctx.fail(f"{what}: preprocessing failed", error=str(e)[-600:])
        return False
    shutil.rmtree(root, ignore_errors=True)
    if list(got) != list(want):
        ctx.fail(f"{what}: days {list(got)} instead of {list(want)}")
        return False
    for day, w in want.items():
        g = got[day]
        if [t.strftime("%Y%m%d%H%M") for t in g["time"]] != \
                [t.strftime("%Y%m%d%H%M") for t in w["time"]]:
            ctx.fail(f"{what}: other times stored")
            return False
        la, lo = np.argsort(g["latitude"]), np.argsort(g["longitude"])
        wa, wo = np.argsort(w["latitude"]), np.argsort(w["longitude"])
        if not (np.allclose(np.asarray(g["latitude"])[la], np.asarray(w["latitude"])[wa])
                and np.allclose(np.asarray(g["longitude"])[lo],
                                np.asarray(w["longitude"])[wo])):
            ctx.fail(f"{what}: other coordinates stored")
            return False
        for k in prep.OUT:
            ctx.count("evaluations", len(w["time"]))
            if g["dims"][k] != ("time", "latitude", "longitude"):
                ctx.fail(f"{what}: {k} is stored with dimensions {g['dims'][k]}")
                return False
            x = g[k][:, la][:, :, lo].astype("f8")
            y = w[k][:, wa][:, :, wo].astype("f8")
            tol = 3e-5 * np.abs(y).max() + 1e-12
            if x.shape != y.shape or not np.all(np.abs(x - y) <= tol):
                bad = np.unravel_index(np.nanargmax(np.abs(x - y)), y.shape)
                ctx.fail(f"{what}: {k} is {x[bad]:.6g} in a cell where the plain layout "
                         f"gives {y[bad]:.6g}")
                return False
    return True


def run_case(case, ctx):
    d = Data(case["source"], tuple(case["shape"]))
    want = prep.in_child(outcome, d, {}, ctx.tmp / "plain")
    if len(want) != 1 or len(next(iter(want.values()))["time"]) != 2:
        ctx.fail("the plain layout was not preprocessed")
        return
    ls = layouts(case["source"], d.shape[0])
    if case["part"]:
        ls = ls[case["part"][0]:case["part"][1]]
    seen = set()
    for label, lay, per in ls:
        v = case["vars"]
        if v is None:
            use = {x: lay for x in d.fields}
        elif not per:
            continue
        else:
            use = {v: lay}
            if v not in ("q", "u", "v"):
                if "levels" in lay:
                    continue
                if "order" in lay:
                    o = tuple(k for k in lay["order"] if k != 1)
                    rest = {k: x for k, x in lay.items() if k != "order"}
                    if (o, str(rest)) in seen or o == (0, 2, 3) and not rest:
                        continue
                    seen.add((o, str(rest)))
        what = f"{case['source']}, {label} of {v or 'all variables'}, shape {d.shape}"
        ctx.state(case["source"], label, v)
        ctx.count("runs")
        if not same_run(ctx, d, want, use, what, ctx.tmp / "x"):
            return
    ctx.sample({"what": what})
