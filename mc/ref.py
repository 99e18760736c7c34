"""Reference model of the tracker: an independent float64 transition system.

State = (tracked water upper, tracked water lower) + accumulators since the last output.
One transition = one time step. Written from the model description (docs, van der Ent
et al. 2014), without importing anything from the code under test.
"""
import datetime as dtm
from collections import defaultdict

import cftime
import numpy as np

EARTH_RADIUS = 6.371e6
METRES_PER_DEGREE = 111089.56


def geometry(lat, lon):
    """Cell area per latitude row [m2], meridional size dy [m], zonal size dx [m]."""
    lat = np.asarray(lat, float)
    lon = np.asarray(lon, float)
    dlon = abs(lon[1] - lon[0])
    dlon = min(dlon, 360 - dlon)
    dlat = abs(lat[1] - lat[0])
    top = np.minimum(lat + dlat / 2, 90)
    bot = np.maximum(lat - dlat / 2, -90)
    area = (np.deg2rad(dlon) * EARTH_RADIUS**2
            * (np.sin(np.deg2rad(top)) - np.sin(np.deg2rad(bot))))
    dy = dlat * METRES_PER_DEGREE
    dx = 0.5 * dlon * METRES_PER_DEGREE * (np.cos(np.deg2rad(lat + dlat / 2))
                                          + np.cos(np.deg2rad(lat - dlat / 2)))
    return area, dy, dx


def limit_flux(fx, fy, mass, dt):
    """Scale fluxes (kg/s) so that a cell moves at most half its mass, split over x, y."""
    ax, ay = np.abs(fx) * dt, np.abs(fy) * dt
    tot = ax + ay
    with np.errstate(all="ignore"):
        lx = np.where(tot > 0, 0.5 * ax / tot * mass, 0)
        ly = np.where(tot > 0, 0.5 * ay / tot * mass, 0)
    return (np.sign(fx) * np.minimum(ax, lx) / dt, np.sign(fy) * np.minimum(ay, ly) / dt)


def ddx(f, periodic):
    g = np.empty_like(f)
    g[:, 1:-1] = (f[:, 2:] - f[:, :-2]) / 2
    if periodic:
        g[:, 0] = (f[:, 1] - f[:, -1]) / 2
        g[:, -1] = (f[:, 0] - f[:, -2]) / 2
    else:
        g[:, 0] = f[:, 1] - f[:, 0]
        g[:, -1] = f[:, -1] - f[:, -2]
    return g


def ddj(f):
    g = np.empty_like(f)
    g[1:-1] = (f[2:] - f[:-2]) / 2
    g[0] = f[1] - f[0]
    g[-1] = f[-1] - f[-2]
    return g


def vertical_flux(fx, fy, P, E, S0, S1, area, dt, kvf, periodic, mode):
    """Downward flux that spreads the residual of the water balance over both layers.

    mode "balance": precipitation and evaporation enter per unit area like all terms.
    mode "listed": they are divided by the cell area, the recorded known finding.
    """
    w = area[:, None] if mode == "listed" else 1.0
    A = area[:, None]
    sm = {k: (S0[k] + S1[k]) / 2 for k in ("upper", "lower")}
    stot = sm["upper"] + sm["lower"]
    res = {}
    for k in ("upper", "lower"):
        res[k] = (S1[k] - S0[k]
                  + dt * (ddx(fx[k], periodic) - ddj(fy[k])) / A
                  + dt * P * sm[k] / stot / w)
    res["lower"] = res["lower"] - dt * E / w
    share = S1["lower"] / (S1["lower"] + S1["upper"])
    fz = res["lower"] - share * (res["lower"] + res["upper"])
    cap = np.minimum(sm["upper"], sm["lower"]) / (kvf + 1.0)
    return np.sign(fz) * np.minimum(np.abs(fz), cap) / dt


def advect(r, fx, fy, periodic):
    """Net upwind inflow (kg/s) of relative content r; fluxes at cell centres."""
    M, N = r.shape
    out = np.zeros((M, N))
    # west-east faces, only in rows that are not at the north/south edge
    for j in range(1, M - 1):
        pairs = [(i, i + 1) for i in range(N - 1)]
        if periodic:
            pairs.append((N - 1, 0))
        iw = np.array([p[0] for p in pairs])
        ie = np.array([p[1] for p in pairs])
        f = 0.5 * (fx[j, iw] + fx[j, ie])
        flow = np.where(f > 0, f * r[j, iw], f * r[j, ie])
        np.subtract.at(out[j], iw, flow)
        np.add.at(out[j], ie, flow)
    # south-north faces; row index increases southward
    cols = slice(None) if periodic else slice(1, N - 1)
    for j in range(M - 1):
        f = 0.5 * (fy[j, cols] + fy[j + 1, cols])
        flow = np.where(f > 0, f * r[j + 1, cols], f * r[j, cols])
        out[j, cols] += flow
        out[j + 1, cols] -= flow
    return out


def edge_mask(shape, periodic):
    b = np.zeros(shape, bool)
    b[0] = b[-1] = True
    if not periodic:
        b[:, 0] = b[:, -1] = True
    return b


class Model:
    def __init__(self, lat, lon, direction, dt, kvf, periodic, mode="listed",
                 init=None):
        self.area, self.dy, self.dx = geometry(lat, lon)
        self.dir, self.dt, self.kvf, self.periodic = direction, dt, kvf, periodic
        self.mode = mode
        shape = (len(lat), len(lon))
        self.A = {k: np.zeros(shape) if init is None else np.array(init[k], float)
                  for k in ("upper", "lower")}
        self.acc = defaultdict(lambda: np.zeros(shape))
        self.limited = False

    def step(self, F, S0, S1, tag):
        """F: dict of fluxes at mid step; S0/S1: storages at start/end; tag: mask."""
        dt, A = self.dt, self.area[:, None]
        back = self.dir == "backward"
        start, end = (S1, S0) if back else (S0, S1)
        fx, fy = {}, {}
        for k in ("upper", "lower"):
            gx = F["fx_" + k] * self.dy
            gy = F["fy_" + k] * self.dx[:, None]
            fx[k], fy[k] = limit_flux(gx, gy, start[k] * A, dt)
            if np.any(np.abs(fx[k] - gx) > 1e-9 * np.abs(gx)):
                self.limited = True
        fz = vertical_flux(fx, fy, F["precip"], F["evap"], S0, S1, self.area, dt,
                           self.kvf, self.periodic, self.mode)
        r = {k: np.minimum(self.A[k] / start[k], 1.0) for k in ("upper", "lower")}
        sgn = -1.0 if back else 1.0
        f = sgn * fz
        down = np.where(f >= 0, f * r["upper"], f * r["lower"])
        down = down + self.kvf * np.abs(f) * (r["upper"] - r["lower"])
        tot = start["upper"] + start["lower"]
        P, E = F["precip"], F["evap"]
        src = {"upper": 0.0, "lower": 0.0}
        snk = {}
        if back:
            for k in src:
                src[k] = tag * P * start[k] / tot
            snk["lower"] = E * r["lower"]
            snk["upper"] = np.zeros_like(E)
            self.acc["e_track"] = self.acc["e_track"] + dt * snk["lower"]
            self.acc["tagged_precip"] = self.acc["tagged_precip"] + dt * tag * P
        else:
            src["lower"] = tag * E
            for k in src:
                snk[k] = P * start[k] / tot * r[k]
                self.acc["p_track_" + k] = self.acc["p_track_" + k] + dt * snk[k]
            self.acc["tagged_evap"] = self.acc["tagged_evap"] + dt * tag * E
        new = {}
        for k in ("upper", "lower"):
            net = advect(r[k], sgn * fx[k], sgn * fy[k], self.periodic) / A
            v = down if k == "lower" else -down
            new[k] = self.A[k] + dt * (net + v + src[k] - snk[k])
        edge = edge_mask(P.shape, self.periodic)
        loss = np.where(edge, new["upper"] + new["lower"], 0.0)
        gain = np.zeros_like(loss)
        for k in new:
            new[k] = np.where(edge, 0.0, new[k])
        over = {k: np.maximum(0, new[k] - end[k]) for k in new}
        new = {"upper": new["upper"] - over["upper"] + over["lower"],
               "lower": new["lower"] - over["lower"] + over["upper"]}
        for k in new:
            gain += np.maximum(-new[k], 0)
            new[k] = np.maximum(new[k], 0)
            loss += np.maximum(new[k] - end[k], 0)
            new[k] = np.minimum(new[k], end[k])
        self.A = new
        self.acc["losses"] = self.acc["losses"] + loss
        self.acc["gains"] = self.acc["gains"] + gain

    def snapshot(self):
        out = {"s_track_upper_restart": self.A["upper"].copy(),
               "s_track_lower_restart": self.A["lower"].copy()}
        names = (["e_track", "tagged_precip"] if self.dir == "backward"
                 else ["p_track_upper", "p_track_lower", "tagged_evap"])
        for n in names + ["losses", "gains"]:
            out[n] = np.array(self.acc[n])
        return out

    def flush(self):
        self.acc.clear()


class Data:
    """Input data at given times, with linear interpolation in between."""

    def __init__(self, times, lat, lon, fields, f32=True):
        self.times = list(times)
        self.lat, self.lon = np.asarray(lat, float), np.asarray(lon, float)
        cast = (lambda x: np.asarray(x, "f4").astype("f8")) if f32 else np.asarray
        self.fields = {k: cast(v) for k, v in fields.items()}
        self.sec = np.array([(t - self.times[0]).total_seconds() for t in self.times])

    def select(self, ii, jj):
        return Data(self.times, self.lat[jj], self.lon[ii],
                    {k: v[:, jj][:, :, ii] for k, v in self.fields.items()}, f32=False)

    def at(self, t, names):
        s = (t - self.times[0]).total_seconds()
        k = int(np.searchsorted(self.sec, s, side="right")) - 1
        if k < 0 or s > self.sec[-1]:
            raise ValueError(f"no data at {t}")
        if self.sec[k] == s:
            return {n: self.fields[n][k] for n in names}
        w = (s - self.sec[k]) / (self.sec[k + 1] - self.sec[k])
        return {n: (1 - w) * self.fields[n][k] + w * self.fields[n][k + 1]
                for n in names}

    def states(self, t):
        d = self.at(t, ["s_upper", "s_lower"])
        return {"upper": d["s_upper"], "lower": d["s_lower"]}

    def fluxes(self, t):
        return self.at(t, ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "evap",
                           "precip"])


def is_multiple(t, step_seconds):
    """Does t lie on the output grid, counted from the calendar's day zero?"""
    day0 = cftime.datetime(t.year, t.month, t.day, calendar=t.calendar)
    if step_seconds <= 86400:
        return (t - day0).total_seconds() % step_seconds == 0
    raise NotImplementedError


def bbox_mask(bbox, lat, lon):
    w, s, e, n = bbox
    lat, lon = np.asarray(lat, float), np.asarray(lon, float)
    inlat = (lat >= s) & (lat <= n)
    inlon = (lon >= w) & (lon <= e) if w <= e else (lon >= w) | (lon <= e)
    return (inlat[:, None] & inlon[None, :]).astype(float)


def run(data, *, direction, start, end, tag_start, tag_end, dt, out_seconds, kvf,
        periodic, mask, mode="listed", init=None, visit=None):
    """All outputs of a run: list of (time, fields). mask: array, or function of time."""
    step = dtm.timedelta(seconds=dt)
    half = dtm.timedelta(seconds=dt / 2)
    m = Model(data.lat, data.lon, direction, dt, kvf, periodic, mode, init)
    out = []
    t = start if direction == "forward" else end
    while True:
        nxt = t + step if direction == "forward" else t - step
        if (nxt > end) if direction == "forward" else (nxt < start):
            break
        lo, hi = (t, nxt) if direction == "forward" else (nxt, t)
        tag = 0.0
        if tag_start <= t <= tag_end:
            tag = mask(t) if callable(mask) else mask
        m.step(data.fluxes(lo + half), data.states(lo), data.states(hi), tag)
        if visit is not None:
            visit(m)
        t = nxt
        nn = t + step if direction == "forward" else t - step
        final = nn > end if direction == "forward" else nn < start
        if final or is_multiple(t, out_seconds):
            out.append((t, m.snapshot()))
            m.flush()
    return out, m
