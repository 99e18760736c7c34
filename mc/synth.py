"""Synthetic data and runs: writes preprocessed input, runs the tracker, reads output."""
import datetime as dtm
import json
import os
from collections import defaultdict
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from mc import wam

VARS = ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "s_upper", "s_lower", "evap",
        "precip"]
EPOCH = "seconds since 1900-01-01"


def T(y, mo, d, h=0, mi=0, s=0, cal="standard"):
    return cftime.datetime(y, mo, d, h, mi, s, calendar=cal)


def iso(t):
    if isinstance(t, str):
        return t
    return t.strftime("%Y-%m-%dT%H:%M") if t.second == 0 else t.strftime(
        "%Y-%m-%dT%H:%M:%S")


def hours(t0, n, step_h=1.0):
    return [t0 + dtm.timedelta(seconds=round(3600 * step_h * k)) for k in range(n)]


def write_prep(folder, times, lat, lon, fields, calendar="standard", dtype="f4",
               coord_dtype="f8"):
    """Daily files exactly as the preprocessor lays them out."""
    os.makedirs(folder, exist_ok=True)
    days = defaultdict(list)
    for i, t in enumerate(times):
        days[t.strftime("%Y-%m-%d")].append(i)
    for d, idx in days.items():
        with netCDF4.Dataset(f"{folder}/{d}_fluxes_storages.nc", "w") as nc:
            nc.createDimension("time", None)
            nc.createDimension("latitude", len(lat))
            nc.createDimension("longitude", len(lon))
            for v in VARS:
                x = nc.createVariable(v, dtype, ("time", "latitude", "longitude"))
                x[:] = fields[v][idx]
            x = nc.createVariable("longitude", coord_dtype, ("longitude",))
            x[:] = lon
            x = nc.createVariable("latitude", coord_dtype, ("latitude",))
            x[:] = lat
            x = nc.createVariable("time", "i8", ("time",))
            x.units = EPOCH
            x.calendar = calendar
            x[:] = cftime.date2num([times[i] for i in idx], EPOCH, calendar)


def base_config(root, **kw):
    root = Path(root)
    c = dict(
        filename_template="unused", preprocessed_data_folder=str(root / "prep"),
        output_folder=str(root / "out"), calendar="standard",
        preprocess_start_date="2021-07-01T00:00",
        preprocess_end_date="2021-07-02T00:00",
        tracking_direction="forward", tagging_region=[1, 46, 3, 49],
        tracking_domain=None,
        tracking_start_date="2021-07-01T00:00", tracking_end_date="2021-07-02T00:00",
        tagging_start_date="2021-07-01T00:00", tagging_end_date="2021-07-02T00:00",
        input_frequency="1h", timestep=3600, output_frequency="6h",
        level_type="model_levels", levels=[1, 2], restart=False,
        periodic_boundary=False, kvf=3)
    c.update(kw)
    for k, v in c.items():
        if k.endswith("_date"):
            c[k] = iso(v)
        elif isinstance(v, Path):
            c[k] = str(v)
    return c


def write_config(path, cfg):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Path(path).write_text(json.dumps(cfg))
    return str(path)


def run_tracking(cfg, path=None):
    """Run the tracker the way the command line does. Returns nothing; see outputs()."""
    path = path or str(Path(cfg["output_folder"]).parent / "config.yaml")
    write_config(path, cfg)
    direction = cfg["tracking_direction"]
    m = "tracking.forwardtrack" if direction == "forward" else "tracking.backtrack"
    wam.need(m, "run_experiment")(path)


def read_output(path):
    """One output file as plain numpy; decoded without the code under test."""
    out = {}
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_mask(True)
        for name, v in nc.variables.items():
            a = v[:]
            if np.ma.isMaskedArray(a):
                a = a.filled(np.nan) if a.dtype.kind == "f" else a.filled(0)
            out[name] = np.asarray(a)
            if name in ("time", "time_bnds"):
                # the bounds inherit the attributes of time (CF section 7.1)
                tv = nc.variables["time"]
                cal = getattr(v, "calendar", getattr(tv, "calendar", "standard"))
                units = getattr(v, "units", getattr(tv, "units", None))
                out[name] = cftime.num2date(out[name], units, cal)
                out[name + "_calendar"] = cal
        out["attrs"] = {k: nc.getncattr(k) for k in nc.ncattrs()}
        out["dims"] = {k: len(d) for k, d in nc.dimensions.items()}
        out["vardims"] = {k: v.dimensions for k, v in nc.variables.items()}
    for k, v in out.items():
        if isinstance(v, np.ndarray) and v.ndim == 3 and v.shape[0] == 1:
            out[k] = v[0].astype("f8")
    return out


def outputs(cfg):
    """{file name: content} for every output file of a run."""
    res = {}
    for p in sorted(Path(cfg["output_folder"]).glob("*track_*.nc")):
        res[p.name] = read_output(p)
    return res


def ordered(cfg):
    """The outputs of a run in the order in which they were produced."""
    o = outputs(cfg)
    names = sorted(o)
    if cfg["tracking_direction"] == "backward":
        names = names[::-1]
    return [(n, o[n]) for n in names]


def out_name(direction, t):
    mode = "backtrack" if direction == "backward" else "forwardtrack"
    return f"{mode}_{t.strftime('%Y-%m-%dT%H-%M')}.nc"


def write_state(cfg, t, lat, lon, upper, lower):
    """An output file as left by an earlier run, from which a run can restart."""
    os.makedirs(cfg["output_folder"], exist_ok=True)
    path = Path(cfg["output_folder"]) / out_name(cfg["tracking_direction"], t)
    extra = (["e_track", "tagged_precip"] if cfg["tracking_direction"] == "backward"
             else ["p_track_upper", "p_track_lower", "tagged_evap"])
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("time", 1)
        nc.createDimension("latitude", len(lat))
        nc.createDimension("longitude", len(lon))
        dims = ("time", "latitude", "longitude")
        vals = {"s_track_upper_restart": upper, "s_track_lower_restart": lower}
        for k in extra + ["losses", "gains"]:
            vals[k] = np.zeros((len(lat), len(lon)))
        for k, v in vals.items():
            x = nc.createVariable(k, "f4", dims)
            x[0] = v
        for k, v in (("latitude", lat), ("longitude", lon)):
            x = nc.createVariable(k, "f8", (k,))
            x[:] = v
        x = nc.createVariable("time", "i8", ("time",))
        x.units, x.calendar = EPOCH, cfg.get("calendar", "standard")
        x[:] = cftime.date2num([t], EPOCH, x.calendar)
    return path


def one_step(root, lat, lon, fields, state, direction, dt=3600, periodic=False, kvf=3,
             tag=None, cal="standard"):
    """One real time step from an arbitrary tracked state, through restart.

    fields hold two times, at the start and end of the step. Returns (output, cfg).
    """
    root = Path(root)
    t0 = T(2021, 7, 1, 12, cal=cal)
    times = [t0, t0 + dtm.timedelta(seconds=dt)]
    assert dt in (3600, 1800, 900, 7200)
    write_prep(root / "prep", times, lat, lon, fields, calendar=cal)
    (root / "out").mkdir(exist_ok=True)
    cfg = base_config(
        root, tracking_direction=direction, periodic_boundary=periodic, kvf=kvf,
        timestep=dt, input_frequency=f"{dt // 60}min", output_frequency="24h",
        tracking_start_date=times[0], tracking_end_date=times[1], restart=True,
        tagging_region=tag or [-180, -80, 180, 80], calendar=cal,
        tagging_start_date=times[0] if tag else T(2000, 1, 1, cal=cal),
        tagging_end_date=times[1] if tag else T(2000, 1, 2, cal=cal))
    src = times[1] if direction == "backward" else times[0]
    dst = times[0] if direction == "backward" else times[1]
    write_state(cfg, src, lat, lon, *state)
    run_tracking(cfg)
    path = Path(cfg["output_folder"]) / out_name(direction, dst)
    return read_output(path), cfg
