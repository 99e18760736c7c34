"""C06: vertical exchange closes the layer budgets within its limit."""
import itertools

import numpy as np

from mc import ref, synth, wam

ID = "C06"
LEVEL = "model_checking"
RULE = ("every combination of storages before and after in both layers, precipitation, "
        "evaporation, tracked fraction per layer, mixing factor and direction as one cell "
        "of a calm grid, and of horizontal convergence in both layers as a 3x3 block of a "
        "windy one; a state is a distinct symbol combination, a transition its step, a "
        "validated trace one tracker step compared in all cells with the closure")
ASSUMPTIONS = ["positive storages", "tracked fractions at most one half, so that no overshoot "
               "correction interferes",
               "known finding pe-area: precipitation and evaporation are divided by the cell "
               "area; any other deviation is a violation"]
preload = wam.preload


def cases(tier):
    S = [3.0, 8.0, 20.0] if tier == "thorough" else [3.0, 8.0]
    out = []
    kvfs = [0, 3] if tier == "quick" else [0, 0.5, 3, 20]
    for d, kvf, dt in itertools.product(["forward", "backward"], kvfs,
                                        [3600] if tier == "quick" else [3600, 900]):
        out.append(dict(kind="calm", direction=d, kvf=kvf, dt=dt, S=S))
        out.append(dict(kind="wind", direction=d, kvf=kvf, dt=dt, S=S))
    return out


def run_case(case, ctx):
    S = case["S"]
    dS = [0.5, 1.0, 1.3] if case["kind"] == "calm" else [0.9, 1.1]
    R = [0.0, 0.2, 0.5]
    if case["kind"] == "calm":
        P, E = [0.0, 2e-4, 1e-3], [0.0, 1e-4, 5e-4]
        axes = [S, S, dS, dS, P, E, R, R]
    else:
        C = [-0.08, 0.0, 0.05]
        axes = [S, S, dS, dS, C, C, R[1:], R[:2]]
    combos = list(itertools.product(*axes))
    step = 1 if case["kind"] == "calm" else 3
    k = int(np.ceil(np.sqrt(len(combos))))
    M = N = step * k + 2
    lat = 62 - 60.0 / M * np.arange(M)
    lon = -100 + 0.5 * np.arange(N)
    area, dy, dx = ref.geometry(lat, lon)
    sh = (M, N)
    s0 = {q: np.full(sh, 10.0) for q in ("upper", "lower")}
    s1 = {q: np.full(sh, 10.0) for q in ("upper", "lower")}
    r = {q: np.zeros(sh) for q in ("upper", "lower")}
    pr, ev = np.zeros(sh), np.zeros(sh)
    f = {q: np.zeros(sh) for q in ("fx_upper", "fy_upper", "fx_lower", "fy_lower")}
    pos = {}
    for b, c in enumerate(combos):
        j = step * (b // k) + (1 if step == 1 else 2)
        i = step * (b % k) + (1 if step == 1 else 2)
        pos[j, i] = c
        s0["upper"][j, i], s0["lower"][j, i] = c[0], c[1]
        s1["upper"][j, i], s1["lower"][j, i] = c[0] * c[2], c[1] * c[3]
        r["upper"][j, i], r["lower"][j, i] = c[6], c[7]
        if step == 1:
            pr[j, i], ev[j, i] = c[4], c[5]
        else:
            for q, x in (("upper", c[4]), ("lower", c[5])):
                g = x * 10 * area[j] / case["dt"] / dy
                f["fx_" + q][j, i - 1], f["fx_" + q][j, i + 1] = -g, 0.5 * g
                f["fy_" + q][j - 1, i] = 0.7 * g * dy / dx[j - 1]
    fields = {**{q: np.stack([v, v]) for q, v in f.items()},
              "s_upper": np.stack([s0["upper"], s1["upper"]]),
              "s_lower": np.stack([s0["lower"], s1["lower"]]),
              "precip": np.stack([pr, pr]), "evap": np.stack([ev, ev])}
    back = case["direction"] == "backward"
    start, end = (s1, s0) if back else (s0, s1)
    init = {q: r[q] * np.minimum(start[q], end[q]) for q in r}
    o, cfg = synth.one_step(ctx.tmp, lat, lon, fields, (init["upper"], init["lower"]),
                            case["direction"], dt=case["dt"], kvf=case["kvf"])
    res = {}
    c32 = lambda d: {q: v.astype("f4").astype("f8") for q, v in d.items()}
    for mode in ("balance", "listed"):
        m = ref.Model(lat, lon, case["direction"], case["dt"], case["kvf"], False, mode,
                      init=c32(init))
        m.step({**c32(f), "precip": pr.astype("f4").astype("f8"),
                "evap": ev.astype("f4").astype("f8")}, c32(s0), c32(s1), 0.0)
        res[mode] = m.A
    err = {mode: np.maximum(np.abs(o["s_track_upper_restart"] - a["upper"]),
                            np.abs(o["s_track_lower_restart"] - a["lower"]))
           for mode, a in res.items()}
    tol = 2e-5 * 20
    ctx.count("transitions", len(combos))
    ctx.count("traces_validated_against_impl")
    for c in combos:
        ctx.state(case["kind"], c, case["kvf"], case["dt"])
    ctx.sample({"symbols_SuSl_dSudSl_PE_or_divergence_rurl": combos[len(combos) // 2],
                "kind": case["kind"], "direction": case["direction"], "kvf": case["kvf"]})
    tot = o["s_track_upper_restart"] + o["s_track_lower_restart"]
    if not np.all(np.isfinite(tot)):
        ctx.fail("missing values after one step of vertical exchange")
        return
    if np.max(err["balance"]) < tol:
        return
    if np.max(err["listed"]) < tol:
        ctx.known("pe-area", "precipitation and evaporation are divided by the cell area in "
                  "the vertical closure")
        return
    j, i = np.unravel_index(np.argmax(err["listed"]), sh)
    j, i = int(j), int(i)
    near = [c for (a, b), c in pos.items() if abs(a - j) <= 1 and abs(b - i) <= 1]
    ctx.fail(f"cell {(j, i)}: tracked water {o['s_track_upper_restart'][j, i]:.6g} (upper), "
             f"{o['s_track_lower_restart'][j, i]:.6g} (lower) after one step; the closure gives "
             f"{res['balance']['upper'][j, i]:.6g}, {res['balance']['lower'][j, i]:.6g}",
             symbols=pos.get((j, i)) or near[:1])
