"""C13: model-level preprocessing puts every level's water in the right layer once."""
import itertools

import numpy as np

from mc import prep, synth, wam

ID = "C13"
LEVEL = "exploration"
RULE = ("every subset of the level alphabet x every layer boundary x with/without total "
        "column water, each on a grid whose cells enumerate all combinations of humidity "
        "profile, wind profile and surface pressure; an evaluation is one cell's eight "
        "preprocessed fields; distinct = distinct level subset, boundary and column")
ASSUMPTIONS = ["the published L137 coefficients",
               "float32 output"]
preload = wam.preload
LEVELS = [1, 40, 96, 110, 111, 112, 137]


def cases(tier):
    base = LEVELS if tier == "quick" else [1, 2, 40, 77, 96, 110, 111, 112, 136, 137]
    bounds = [111, 96] if tier == "quick" else [1, 40, 96, 110, 111, 112, 136]
    subsets = [list(s) for n in range(1, len(base) + 1)
               for s in itertools.combinations(base, n)]
    out = []
    k = 0
    size = 8
    for i in range(0, len(subsets), size):
        out.append(dict(subsets=subsets[i:i + size], bounds=bounds,
                        tcw=[bool((i // size) % 2)] if tier == "quick" else [False, True],
                        new_names=bool((i // size) % 3 == 0)))
    allv = list(range(1, 138))
    out.append(dict(subsets=["all"], bounds=[111, 60], tcw=[False, True],
                    new_names=False))
    out.append(dict(subsets=["All", allv], bounds=[111], tcw=[True], new_names=True))
    # listed in another order than top down
    for sub in ([1, 96, 112], [40, 110, 111, 137]) if tier == "quick" else \
            ([1, 96, 112], [40, 110, 111, 137], [96, 111], [2, 60, 100, 137]):
        perms = [list(p) for p in itertools.permutations(sub)][1:]
        for i in range(0, len(perms), 6):
            out.append(dict(subsets=perms[i:i + 6], bounds=[111], tcw=[bool(i % 12)],
                            new_names=bool(i % 4)))
    return out


def columns(nlev, nums):
    """Grid of columns: rows are humidity profiles, columns wind x surface pressure."""
    z = np.linspace(0, 1, nlev)
    qs = [0.001 + 0.01 * z, 0.012 - 0.01 * z, np.full(nlev, 0.004)]
    for k in sorted({0, nlev // 2, nlev - 1}):  # all water in (nearly) one level
        d = np.full(nlev, 1e-9)
        d[k] = 0.01
        qs.append(d)
    us = [np.full(nlev, 10.0), 20 - 40 * z, np.zeros(nlev), 5 * (-1.0) ** np.arange(nlev)]
    ps = [101325.0, 85000.0, 55000.0]
    cols = list(itertools.product(range(len(us)), ps))
    ny, nx = len(qs), len(cols)
    q = np.zeros((nlev, ny, nx))
    u, v, sp = np.zeros_like(q), np.zeros_like(q), np.zeros((ny, nx))
    for j, p in enumerate(qs):
        for i, (w, s) in enumerate(cols):
            q[:, j, i], u[:, j, i] = p, us[w]
            v[:, j, i] = us[(w + 1) % len(us)] * 0.7 - 1
            sp[j, i] = s
    return q, u, v, sp


def run_case(case, ctx):
    for n, lv in enumerate(case["subsets"]):
        nums = list(range(1, 138)) if lv in ("all", "All") else sorted(lv)
        stored = nums if lv in ("all", "All") else sorted(set(nums) | {5, 100, 130})
        q, u, v, sp = columns(len(nums), nums)
        ny, nx = sp.shape
        lat, lon = 50.0 - np.arange(ny), 1.0 + 2 * np.arange(nx)
        pos = [stored.index(x) for x in nums]

        def full(a, fill):
            b = np.full((1, len(stored)) + a.shape[1:], fill)
            b[0, pos] = a
            return b

        t = synth.T(2021, 7, 1, 6)
        tcw = 5.0 + 3 * np.arange(nx) + np.arange(ny)[:, None]
        f = dict(q=full(q, 0.77), u=full(u, 555.0), v=full(v, -444.0), sp=sp[None],
                 e=np.full((1, ny, nx), -1e-4), tp=np.full((1, ny, nx), 2e-4),
                 tcw=tcw[None])
        for b, w in itertools.product(case["bounds"], case["tcw"]):
            root = ctx.tmp / f"{n}-{b}-{w}"
            tpl = prep.write_era5(root / "in", [t], lat, lon, "model_levels", stored, f,
                                  new_names=case["new_names"],
                                  skip=() if w else ("tcw",))
            cfg = prep.config(root, tpl, t, t, levels=lv, level_layer_boundary=b)
            prep.run(cfg)
            got = prep.read(cfg).get("2021-07-01")
            if got is None or len(got["time"]) != 1:
                ctx.fail("no output for the time step")
                return
            want = prep.model_levels("all" if lv in ("all", "All") else nums, b, q, u, v,
                                     sp, tcw if w else None)
            if not (np.allclose(got["latitude"], lat)
                    and np.allclose(got["longitude"], lon)):
                ctx.fail("the grid changed its orientation")
            what = f"levels {lv if len(nums) < 20 else len(nums)}, boundary {b}, tcw {w}"
            total = tcw if w else (q * prep.model_thickness(
                nums if isinstance(lv, list) else "all", sp)).sum(axis=0) / prep.G
            s = got["s_upper"][0].astype("f8") + got["s_lower"][0]
            if not np.allclose(s, total, rtol=3e-5, atol=1e-6):
                ctx.fail(f"{what}: both layers hold {s.ravel()[:3]}, the column "
                         f"{total.ravel()[:3]}")
            for k, x in want.items():
                g = got[k][0]
                ctx.count("evaluations", g.size)
                tol = 5e-5 * np.maximum(np.abs(x), 1e-2 * total)
                if g.shape != x.shape or not np.all(np.abs(g - x) <= tol):
                    bad = np.unravel_index(np.nanargmax(np.abs(g - x) / tol), x.shape)
                    ctx.fail(f"{what}: {k} is {g[bad]:.6g}, summing the levels of the "
                             f"layer gives {x[bad]:.6g}", q=q[:, bad[0], bad[1]].tolist(),
                             ps=float(sp[bad]))
                    return
            for c in range(ny * nx):
                ctx.state(str(lv), b, w, c)
    ctx.sample({"levels": str(lv)[:60], "boundary": b, "tcw": w, "columns": ny * nx})
