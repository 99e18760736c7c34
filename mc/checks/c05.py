"""C05: the stability correction only ever limits fluxes to the stable range."""
import itertools

import numpy as np

from mc import ref, synth, wam

ID = "C05"
LEVEL = "model_checking"
RULE = ("every pair of flux components from an alphabet of signs and multiples of the limit, "
        "for every storage symbol, layer, direction, time step and boundary type: a block "
        "per combination, whose centre cell alone carries flux and tracked water, so that "
        "what its four neighbours receive in one real step is the corrected flux; a state "
        "is a distinct (flux pair, storage, layer, step) symbol, a transition its step, a "
        "validated trace one tracker run")
ASSUMPTIONS = ["positive storages; the model of the limit is half the cell's water split in "
               "proportion to the components"]
preload = wam.preload

QUICK = [0.0, 1e-6, -0.2, 0.5, 0.9, -1.0, 1.1, -3.0, 1e3, -1e6]
THOROUGH = sorted({s * m for s in (-1, 1) for m in
                   (0.0, 1e-12, 1e-6, 0.1, 0.25, 0.49, 0.5, 0.51, 0.75, 0.999, 1.0, 1.001,
                    1.5, 2.0, 2.001, 10, 1e3, 1e6)})


def cases(tier):
    out = []
    for d, p, dt in itertools.product(["forward", "backward"], [False, True], [900, 3600]):
        for origin in ([55.0, -3.0] if tier == "quick" else [78.0, 55.0, 20.0, -3.0, -40.0]):
            out.append(dict(direction=d, periodic=p, dt=dt, north=origin,
                            alphabet=QUICK if tier == "quick" else THOROUGH))
    return out


def run_case(case, ctx):
    al, dt = case["alphabet"], case["dt"]
    combos = list(itertools.product(al, al, [0.02, 1.0, 25.0]))
    k = int(np.ceil(np.sqrt(len(combos))))
    M = N = 3 * k + 2
    lat = case["north"] - (30.0 / M if case["north"] > 0 else 20.0 / M) * np.arange(M)
    lon = (-180 + 360 / N * np.arange(N)) if case["periodic"] else 0.4 * np.arange(N)
    area, dy, dx = ref.geometry(lat, lon)
    A = area[:, None]
    shape = (M, N)
    S = {q: np.full(shape, 40.0) for q in ("upper", "lower")}
    G = {q + a: np.zeros(shape) for q in ("upper", "lower") for a in "xy"}
    where = {}
    for q, rot in (("upper", 0), ("lower", len(combos) // 3 + 1)):
        for b in range(len(combos)):
            ax, ay, s = combos[(b + rot) % len(combos)]
            j, i = 3 * (b // k) + 2, 3 * (b % k) + 2
            S[q][j, i] = s
            half = 0.5 * s * area[j] / dt
            G[q + "x"][j, i], G[q + "y"][j, i] = ax * half, ay * half
            where[q, j, i] = (ax, ay, s)
    start, end = S, {q: v * 1.6 for q, v in S.items()}
    first, last = (end, start) if case["direction"] == "backward" else (start, end)
    fields = {"precip": np.zeros((2, M, N)), "evap": np.zeros((2, M, N))}
    for q in ("upper", "lower"):
        fields["s_" + q] = np.stack([first[q], last[q]])
        fields["fx_" + q] = np.stack([G[q + "x"] / dy] * 2)
        fields["fy_" + q] = np.stack([G[q + "y"] / dx[:, None]] * 2)
    centre = np.zeros(shape)
    for _, j, i in where:
        centre[j, i] = 1
    state = {q: centre * S[q] for q in S}
    o, cfg = synth.one_step(ctx.tmp, lat, lon, fields, (state["upper"], state["lower"]),
                            case["direction"], dt=dt, periodic=case["periodic"])
    sgn = -1 if case["direction"] == "backward" else 1
    for q in ("upper", "lower"):
        got = o[f"s_track_{q}_restart"]
        if not np.all(np.isfinite(got)):
            j, i = np.argwhere(~np.isfinite(got))[0]
            ctx.fail(f"{q} layer: missing value in cell {(int(j), int(i))} after one step, near "
                     f"flux multiples {where.get((q, j // 3 * 3 + 2, i // 3 * 3 + 2))}")
            return
        lx, ly = ref.limit_flux(G[q + "x"], G[q + "y"], S[q] * A, dt)
        for (qq, j, i), sym in where.items():
            if qq != q:
                continue
            # the wind leaves through one zonal and one meridional face; each face
            # carries half the centre's flux, since the neighbour has none
            east = sgn * np.sign(sym[0])
            north = sgn * np.sign(sym[1])
            recv = {}
            for nm, (jj, ii) in dict(e=(j, i + 1), w=(j, i - 1), n=(j - 1, i),
                                     s=(j + 1, i)).items():
                if 0 < jj < M - 1 and (0 < ii < N - 1 or case["periodic"]):
                    recv[nm] = got[jj, ii % N] * area[jj]
            want = dict(e=abs(lx[j, i]) if east > 0 else 0, w=abs(lx[j, i]) if east < 0 else 0,
                        n=abs(ly[j, i]) if north > 0 else 0,
                        s=abs(ly[j, i]) if north < 0 else 0)
            mass = S[q][j, i] * area[j]
            half = 0.5 * dt
            ctx.count("transitions")
            ctx.state(q, sym, dt)
            for nm, m in recv.items():
                w = half * want[nm]
                if abs(m - w) > 2e-5 * w + 1e-9 * mass:
                    comp = "zonal" if nm in "ew" else "meridional"
                    ctx.fail(f"{q} layer: the {comp} flux at multiples {sym[:2]} of the limit "
                             f"(storage {sym[2]}) moved {2 * m / mass:.6g} of the cell's water "
                             f"to its {nm} neighbour, expected {2 * w / mass:.6g}",
                             dt=dt, latitude=float(lat[j]))
                    return
            if 2 * sum(recv.values()) > 0.5 * mass * (1 + 1e-5):
                ctx.fail(f"more than half of the water moved at {sym}")
    ctx.count("traces_validated_against_impl")
    ctx.sample({"flux_multiples_and_storage": combos[len(combos) // 2],
                **{a: case[a] for a in ("direction", "periodic", "dt", "north")}})
