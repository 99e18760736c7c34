"""Synthetic raw input for the preprocessor (ERA5, CMIP, ARCO-ERA5), and oracles for it."""
import csv
import os
import pickle
import sys
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from mc import synth, wam

G = 9.80665
LATENT = 2.45e6
OUT = ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "s_upper", "s_lower", "evap",
       "precip"]


# ------------------------------------------------------------------ writing input
def _nc(path, coords, name, dims, data, cal, dtype="f8", attrs=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with netCDF4.Dataset(path, "w") as nc:
        for c, v in coords.items():
            v = np.asarray(v)
            nc.createDimension(c, len(v))
            if len(v) and isinstance(v[0], cftime.datetime):
                x = nc.createVariable(c, "f8", (c,))
                x.units, x.calendar = "minutes since 1900-01-01", cal
                x[:] = cftime.date2num(list(v), x.units, cal)
            else:
                nc.createVariable(c, v.dtype, (c,))[:] = v
        x = nc.createVariable(name, dtype, dims, fill_value=-32767.0)
        x[:] = data
        for k, a in (attrs or {}).items():
            setattr(x, k, a)


def write_era5(folder, times, lat, lon, level_type, levels, fields, cal="standard",
               new_names=False, dtype="f8", skip=(), per_day=True):
    """Daily files {date}{levtype}_{variable}.nc; returns the file name template."""
    pre = {"model_levels": "_ml", "pressure_levels": "_pl"}[level_type]
    tname = "valid_time" if new_names else "time"
    lname = (("model_level" if level_type == "model_levels" else "pressure_level")
             if new_names else "level")
    days = sorted({t.strftime("%Y-%m-%d") for t in times})
    for d in days:
        idx = [k for k, t in enumerate(times) if t.strftime("%Y-%m-%d") == d]
        for v, a in fields.items():
            if v in skip:
                continue
            lev = v in ("q", "u", "v")
            coords = {tname: [times[k] for k in idx]}
            if lev:
                coords[lname] = levels
            coords["latitude"], coords["longitude"] = lat, lon
            _nc(f"{folder}/{d}{pre if lev else ''}_{v}.nc", coords, v, tuple(coords),
                np.asarray(a)[idx], cal, dtype)
    return f"{folder}/{{year}}-{{month:02d}}-{{day:02d}}{{levtype}}_{{variable}}.nc"


CMIP = {"q": "hus", "u": "ua", "v": "va", "sp": "ps", "qs": "huss", "us": "uas",
        "vs": "vas", "hfls": "hfls", "pr": "pr"}


def write_cmip(folder, times, times3, lat, lon, levels, fields, cal="standard",
               pieces=1, short=True, level_sets=None, dtype="f8"):
    """One or several files per variable. fields: q u v sp qs us vs and 3-hourly hfls pr."""
    la, lo = ("lat", "lon") if short else ("latitude", "longitude")
    for v, a in fields.items():
        three = v in ("hfls", "pr")
        tt = times3 if three else times
        a = np.asarray(a)
        lev = levels
        if level_sets and v in level_sets:
            keep = level_sets[v]
            lev = [levels[k] for k in keep]
            a = a[:, keep]
        # pieces may only split the 3-hourly data at pairs
        n = len(tt)
        cuts = [round(n * p / pieces) for p in range(pieces + 1)]
        if three:
            cuts = [c - c % 2 for c in cuts]
        for p in range(pieces):
            s = slice(cuts[p], cuts[p + 1])
            coords = {"time": tt[s]}
            if v in ("q", "u", "v"):
                coords["plev"] = np.asarray(lev, float)
            coords[la], coords[lo] = lat, lon
            _nc(f"{folder}/{CMIP[v]}_part{p}.nc", coords, CMIP[v], tuple(coords), a[s],
                cal, dtype)
    return f"{folder}/{{variable}}_part*.nc"


ARCO = {"q": "specific_humidity", "u": "u_component_of_wind", "v": "v_component_of_wind",
        "u10": "10m_u_component_of_wind", "v10": "10m_v_component_of_wind",
        "sp": "surface_pressure", "t2m": "2m_temperature", "d2m": "2m_dewpoint_temperature",
        "tcw": "total_column_water", "tp": "total_precipitation", "e": "evaporation"}


def arco_dataset(times, lat, lon, levels, fields):
    import xarray as xr

    cls = cftime.DatetimeProlepticGregorian
    tt = [cls(t.year, t.month, t.day, t.hour, t.minute) for t in times]
    ds = xr.Dataset(coords={"time": tt, "level": np.asarray(levels), "latitude": lat,
                            "longitude": lon})
    for v, a in fields.items():
        dims = ("time", "level", "latitude", "longitude")
        if v not in ("q", "u", "v"):
            dims = ("time", "latitude", "longitude")
        ds[ARCO[v]] = (dims, np.asarray(a))
    if "t2m" not in fields:
        ds[ARCO["t2m"]] = ds[ARCO["d2m"]] + 1
    ds.attrs["valid_time_start"] = times[0].strftime("%Y-%m-%d")
    ds.attrs["valid_time_stop"] = times[-1].strftime("%Y-%m-%d")
    return ds


def with_arco(ds, fn):
    """Run fn with the remote store replaced by ds. Use inside a child process: the code
    under test keeps the opened store for the life of the process."""
    import xarray as xr

    real = xr.open_zarr
    real_open = xr.open_dataset

    def fake(store, *a, **k):
        assert "arco-era5" in str(store), f"unexpected store {store}"
        return ds

    def fake_open(store, *a, **k):
        return ds if "arco-era5" in str(store) else real_open(store, *a, **k)

    for m in [m for n, m in list(sys.modules.items()) if n.startswith(("xarray",
                                                                       "wam2layers"))]:
        for name, obj in list(vars(m).items()):
            if obj is real:
                setattr(m, name, fake)
            elif obj is real_open:
                setattr(m, name, fake_open)
    return fn()


def in_children(calls, jobs=8):
    """The results of [(fn, args)], each in a forked process, some at a time."""
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(jobs) as pool:
        return list(pool.map(lambda c: in_child(c[0], *c[1]), calls))


def in_child(fn, *args, **kw):
    """fn's result, computed in a forked process (so that its caches die with it)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            import signal

            signal.alarm(0)
            # pools end their processes with this signal
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            if "multiprocessing.process" in sys.modules:
                sys.modules["multiprocessing.process"]._children.clear()
            os.close(r)
            try:
                res = (True, fn(*args, **kw))
            except BaseException as e:
                import traceback

                res = (False, f"{type(e).__name__}: {e}\n"
                       + traceback.format_exc(limit=-4))
            if "multiprocessing.pool" in sys.modules:
                # end the process pools that fn left behind, as the interpreter would
                import multiprocessing.util

                multiprocessing.util._exit_function()
            raw = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(len(raw).to_bytes(8, "little") + raw)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        # not until the end of the file: a process of the child's may still have it open
        n = f.read(8)
        raw = f.read(int.from_bytes(n, "little")) if len(n) == 8 else b""
    os.waitpid(pid, 0)
    if not raw:
        raise RuntimeError("the child process died")
    ok, val = pickle.loads(raw)
    if not ok:
        raise RuntimeError(val)
    return val


def config(root, template, start, end, **kw):
    root = Path(root)
    c = synth.base_config(root, filename_template=template, preprocess_start_date=start,
                          preprocess_end_date=end)
    for k in ("tracking", "tagging"):
        c[f"{k}_start_date"], c[f"{k}_end_date"] = synth.iso(start), synth.iso(end)
    c.update({k: synth.iso(v) if k.endswith("_date") else v for k, v in kw.items()})
    return c


def run(cfg, source="ERA5", path=None):
    root = Path(cfg["preprocessed_data_folder"]).parent
    path = path or str(root / "config.yaml")
    synth.write_config(path, cfg)
    wam.need("preprocessing.shared", "prep_experiment")(path, source)


def read(cfg):
    """{day: {variable: array, "time": [..]}} of everything in the output folder."""
    out = {}
    for p in sorted(Path(cfg["preprocessed_data_folder"]).glob("*_fluxes_storages.nc")):
        with netCDF4.Dataset(p) as nc:
            d = {}
            for n, v in nc.variables.items():
                a = v[:]
                if np.ma.isMaskedArray(a):
                    a = a.filled(np.nan) if a.dtype.kind == "f" else np.asarray(a)
                d[n] = np.asarray(a)
                if n == "time":
                    d[n] = cftime.num2date(d[n], v.units,
                                           getattr(v, "calendar", "standard"))
                    d["calendar"] = getattr(v, "calendar", "standard")
            d["dims"] = {n: v.dimensions for n, v in nc.variables.items()}
        out[p.name.split("_")[0]] = d
    return out


# ------------------------------------------------------------------ oracles
def era5_ab():
    """Half-level coefficients of the 137 ERA5 model levels (own copy of the table)."""
    path = Path(__file__).parent / "data" / "era5_l137.csv"
    with open(path, encoding="utf-8-sig") as f:
        rows = list(csv.DictReader(f))
    return (np.array([float(r["a [Pa]"]) for r in rows]),
            np.array([float(r["b"]) for r in rows]))


def model_thickness(levels, ps):
    """Pressure thickness [level, ...] around the selected levels, which fills 0..ps."""
    a, b = era5_ab()
    ps = np.asarray(ps, float)
    if levels == "all":
        ea, eb = a, b
    else:
        fa, fb = (a[1:] + a[:-1]) / 2, (b[1:] + b[:-1]) / 2
        la = [fa[n - 1] for n in levels]
        lb = [fb[n - 1] for n in levels]
        ea = [a[0]] + [(p + q) / 2 for p, q in zip(la, la[1:])] + [a[-1]]
        eb = [b[0]] + [(p + q) / 2 for p, q in zip(lb, lb[1:])] + [b[-1]]
    edge = np.array([x + y * ps for x, y in zip(ea, eb)])
    return np.diff(edge, axis=0)


def model_levels(levels, boundary, q, u, v, ps, tcw=None):
    """Two-layer fields from arrays [level, ...]; levels the list of level numbers."""
    nums = list(range(1, 138)) if levels == "all" else levels
    w = q * model_thickness(levels, ps) / G
    if tcw is not None:
        w = w * tcw / w.sum(axis=0)
    out = {}
    for k in ("upper", "lower"):
        sel = [n > boundary if k == "lower" else n <= boundary for n in nums]
        m = np.array(sel, float).reshape((-1,) + (1,) * (q.ndim - 1))
        out["s_" + k] = (m * w).sum(axis=0)
        out["fx_" + k] = (m * w * u).sum(axis=0)
        out["fy_" + k] = (m * w * v).sum(axis=0)
    return out


def pressure_column(p, q, u, v, ps, qs, us, vs, factor, offset, tcw=None):
    """Two-layer integrals of one column. p in Pa, any order."""
    k = int(np.argmin(p))
    pts = sorted([(0.0, 0.0, u[k], v[k])] + list(zip(p, q, u, v)) + [(ps, qs, us, vs)])
    pb = factor * ps + offset
    lo = max(x for x in pts if x[0] < pb)
    hi = min(x for x in pts if x[0] >= pb)
    w = (pb - lo[0]) / (hi[0] - lo[0])
    pts = sorted(pts + [(pb,) + tuple(a + w * (b - a) for a, b in zip(lo[1:], hi[1:]))])
    out = dict.fromkeys(["s_upper", "s_lower", "fx_upper", "fx_lower", "fy_upper",
                         "fy_lower"], 0.0)
    for a, b in zip(pts, pts[1:]):
        if b[0] <= a[0] or a[0] >= ps:
            continue
        layer = "upper" if (a[0] + b[0]) / 2 < pb else "lower"
        water = (a[1] + b[1]) / 2 * (b[0] - a[0]) / G
        out["s_" + layer] += water
        out["fx_" + layer] += water * (a[2] + b[2]) / 2
        out["fy_" + layer] += water * (a[3] + b[3]) / 2
    if tcw is not None:
        c = tcw / (out["s_upper"] + out["s_lower"])
        out = {n: x * c for n, x in out.items()}
    return out


def humidity(dewpoint, pressure):
    """Specific humidity from dew point (IFS documentation, eq. 7.4 and 7.5)."""
    eps = 287.0597 / 461.5250
    e = 611.21 * np.exp(17.502 * (dewpoint - 273.15) / (dewpoint - 32.19))
    return eps * e / (pressure - (1 - eps) * e)


def dewpoint(q, pressure):
    """Inverse of humidity."""
    eps = 287.0597 / 461.5250
    e = q * pressure / (eps + q * (1 - eps))
    x = np.log(e / 611.21) / 17.502
    return (273.15 - 32.19 * x) / (1 - x)


def net_fluxes(p, e):
    """Precipitation and evaporation from precipitation and upward evaporation."""
    return np.maximum(p, 0) + np.maximum(-e, 0), np.maximum(e, 0)


def warm(fn):
    """Import here what fn imports lazily, so that forked processes need not."""
    import importlib
    import warnings

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                fn()
            except Exception:
                pass
        return sorted(sys.modules)

    try:
        for m in in_child(go):
            if m not in sys.modules:
                try:
                    importlib.import_module(m)
                except BaseException:
                    pass
    except RuntimeError:
        pass
