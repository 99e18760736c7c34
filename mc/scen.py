"""The finite alphabet of synthetic weather from which tracking scenarios are built."""
import itertools

import numpy as np

from mc import ref, synth

# 100 kg/m/s moves about half of a 10 kg/m2, 1 degree cell at 47N in an hour
SCALE = 60.0


def _xy(nt, ny, nx):
    k, j, i = np.meshgrid(np.arange(nt), np.arange(ny), np.arange(nx), indexing="ij")
    return k, j, i


def wind(name, nt, ny, nx):
    """(fx_upper, fy_upper, fx_lower, fy_lower)"""
    k, j, i = _xy(nt, ny, nx)
    one = np.ones((nt, ny, nx))
    cx, cy = (nx - 1) / 2, (ny - 1) / 2
    z = 0 * one
    if name == "calm":
        u, v, ul, vl = z, z, z, z
    elif name == "east":
        u, v, ul, vl = one, z, 0.5 * one, z
    elif name == "west":
        u, v, ul, vl = -one, z, -0.7 * one, z
    elif name == "north":
        u, v, ul, vl = z, one, z, 0.6 * one
    elif name == "southwest":
        u, v, ul, vl = -0.6 * one, -0.8 * one, -0.2 * one, -0.5 * one
    elif name == "shear":  # layers move in opposite directions
        u, v, ul, vl = one, 0.3 * one, -0.8 * one, -0.4 * one
    elif name == "converge":
        u, v = np.sign(cx - i) * 0.8, np.sign(j - cy) * 0.8
        ul, vl = 0.7 * u, 0.7 * v
    elif name == "vortex":
        u, v = -(j - cy) / cy * -1.0, (i - cx) / cx * 1.0
        ul, vl = -0.5 * u, -0.5 * v
    elif name == "patchy":  # cells without any flux next to strong ones; turns in time
        u = np.where((i + j + k) % 3 == 0, 0.0, np.where((i + 2 * j + k) % 2, 1.2, -0.7))
        v = np.where((i + j + k) % 3 == 0, 0.0, np.where((2 * i + j) % 3 == 1, -1.0, 0.4))
        ul, vl = np.roll(u, 1, 2) * 0.5, np.roll(v, 1, 1) * 0.5
    elif name == "gale":  # violates CFL everywhere
        u, v = 9.0 * np.sin(0.9 * i + 0.5 * k), 9.0 * np.cos(0.8 * j + 0.3 * i)
        ul, vl = -0.7 * v, 0.8 * u
    elif name == "wave":
        u = 1.0 + np.sin(2 * np.pi * i / nx + 0.4 * k)
        v = np.cos(2 * np.pi * i / nx + 0.7 * j)
        ul, vl = 0.6 * v, -0.4 * u
    else:
        raise KeyError(name)
    return [np.asarray(SCALE * a, float) * np.ones((nt, ny, nx)) for a in (u, v, ul, vl)]


def storage(name, nt, ny, nx):
    """(s_upper, s_lower), always positive"""
    k, j, i = _xy(nt, ny, nx)
    one = np.ones((nt, ny, nx))
    if name == "steady":
        su, sl = 10 * one, 16 * one
    elif name == "gradient":
        su, sl = 4 + 1.0 * j + 0.5 * i + 0 * k, 20 - 1.5 * j + 0.3 * i + 0 * k
    elif name == "drying":  # loses most of its water
        su, sl = 12 * 0.55**k * one, 15 * 0.6**k * (1 + 0.1 * ((i + j) % 2))
    elif name == "moistening":
        su, sl = 2 * 1.4**k * (1 + 0.2 * (i % 2)), 3 * 1.35**k * one
    elif name == "thin_upper":
        su, sl = 0.05 * (1 + (i + j + k) % 2), 18 + np.sin(i + j + k)
    elif name == "thin_lower":
        su, sl = 14 + np.cos(i - j + k), 0.05 * (1 + (i + 2 * j + k) % 2)
    elif name == "flicker":
        su = np.where((i + j + k) % 2 == 0, 3.0, 14.0)
        sl = np.where((i + 2 * j + k) % 3 == 0, 2.0, 12.0)
    else:
        raise KeyError(name)
    return np.asarray(su * one, float), np.asarray(sl * one, float)


def rain(name, nt, ny, nx):
    """(precip, evap) in kg/m2/s; 1e-4 is 0.36 mm per hour"""
    k, j, i = _xy(nt, ny, nx)
    one = np.ones((nt, ny, nx))
    if name == "none":
        p, e = 0 * one, 0 * one
    elif name == "rain":
        p, e = 1e-4 * (1 + (i + j + k) % 3) * one, 0 * one
    elif name == "dew":
        p, e = 0 * one, 8e-5 * (1 + (i + k) % 2) * one
    elif name == "both":
        p = 2e-4 * np.abs(np.sin(0.7 * i + 0.3 * j + 0.5 * k))
        e = 1e-4 * np.abs(np.cos(0.4 * i - 0.6 * j + 0.2 * k))
    elif name == "cloudburst":  # more than the column holds in a step
        p = np.where((i + j) % 2 == 0, 6e-3, 1e-4) * one
        e = np.where((i + k) % 2 == 0, 3e-3, 0.0) * one
    else:
        raise KeyError(name)
    return np.asarray(p, float), np.asarray(e, float)


WINDS = ["calm", "east", "west", "north", "southwest", "shear", "converge", "vortex",
         "patchy", "gale", "wave"]
STORES = ["steady", "gradient", "drying", "moistening", "thin_upper", "thin_lower",
          "flicker"]
RAINS = ["none", "rain", "dew", "both", "cloudburst"]


def grid(name="mid"):
    if name == "mid":
        return np.arange(51.0, 44.0, -1.0), np.arange(-2.0, 7.0, 1.0)  # 7 x 9
    if name == "small":
        return np.arange(50.0, 45.0, -1.0), np.arange(0.0, 6.0, 1.0)
    if name == "ring":  # all longitudes
        return np.arange(60.0, -61.0, -20.0), np.arange(-180.0, 180.0, 40.0)
    if name == "flat":  # different spacing in both directions
        return np.arange(30.0, 24.0, -1.0), np.arange(10.0, 24.0, 2.0)
    if name == "south":
        return np.arange(-20.0, -24.0, -0.5), np.arange(100.0, 103.0, 0.5)
    raise KeyError(name)


def make_fields(w, s, r, nt, ny, nx, wscale=1.0):
    f = dict(zip(["fx_upper", "fy_upper", "fx_lower", "fy_lower"],
                 [wscale * a for a in wind(w, nt, ny, nx)]))
    f["s_upper"], f["s_lower"] = storage(s, nt, ny, nx)
    f["precip"], f["evap"] = rain(r, nt, ny, nx)
    return f


def product(**axes):
    names = list(axes)
    return [dict(zip(names, v)) for v in itertools.product(*axes.values())]


def flux_scale(lat, lon):
    """Scale winds so that the Courant number does not depend on the grid."""
    area, dy, dx = ref.geometry(lat, lon)
    return float(np.min(area) / dy / 78e3)
