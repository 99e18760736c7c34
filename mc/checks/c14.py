"""C14: pressure-level preprocessing integrates the column above the surface."""
import itertools

import numpy as np

from mc import prep, synth, wam

ID = "C14"
LEVEL = "exploration"
RULE = ("every order of the levels in the file and in the configuration, layer boundary and "
        "data source of the alphabets, each on a grid whose cells enumerate all combinations "
        "of surface pressure relative to the levels and boundary, humidity and wind "
        "profiles; an evaluation is one cell's six integrals; distinct = distinct order, "
        "boundary, source and column")
ASSUMPTIONS = ["surface pressure is not exactly a level (then the column is ambiguous)",
               "integer levels round the surface and boundary pressure to 1 Pa",
               "within a layer between two points, humidity and wind take the mean of both "
               "ends, so the transport is the product of these means"]
preload = wam.preload
HPA = [200, 500, 700, 850, 1000]
PS = [1030e2, 1000.5e2, 999.5e2, 925e2, 850.5e2, 849.5e2, 760e2, 600e2]


def cases(tier):
    perms = list(itertools.permutations(range(5)))
    out = []
    # (factor, offset): defaults, on a level, high, low
    bnd = [[None, None], [0.0, 70000.0], [0.5, 3.0], [0.0, 50100.0]]
    step = 3 if tier == "quick" else 1
    for n, p in enumerate(perms[::step]):
        out.append(dict(source="ERA5", order=p, config=perms[(7 * n) % len(perms)],
                        bounds=bnd[n % 4: n % 4 + 1] if tier == "quick" else bnd,
                        new=bool(n % 2), tcw=bool(n % 3 == 0)))
    for n, p in enumerate(perms[:: step * 2]):
        out.append(dict(source="ARCO", order=p, config=perms[(5 * n + 1) % len(perms)],
                        bounds=bnd[n % 4: n % 4 + 1], new=False, tcw=True))
        out.append(dict(source="CMIP", order=p, config=None,
                        bounds=bnd[(n + 1) % 4: (n + 1) % 4 + 1], new=bool(n % 2),
                        tcw=False))
    out.append(dict(source="ERA5", order=perms[0], config=None, bounds=bnd, new=True,
                    tcw=False))
    out.append(dict(source="ERA5", order=perms[-1], config="all", bounds=bnd, new=False,
                    tcw=True))
    # a subset of the stored levels
    for sub in ([0, 2, 4], [4, 1, 3], [3], [2, 0]):
        out.append(dict(source="ERA5", order=perms[0], config=sub, bounds=bnd[:2],
                        new=False, tcw=False))
        out.append(dict(source="ARCO", order=perms[0], config=sub, bounds=bnd[:1],
                        new=False, tcw=True))
        out.append(dict(source="CMIP", order=perms[5], config=sub, bounds=bnd[:2],
                        new=True, tcw=False))
    for n, src in enumerate(["ARCO", "CMIP"]):
        out.append(dict(source=src, order=perms[50 + n], config="all", bounds=bnd[:2],
                        new=False, tcw=src == "ARCO"))
    # levels that only some of the variables have
    sets = [dict(q=[0, 1, 3, 4]), dict(u=[4, 2, 1]), dict(q=[1, 2, 3], v=[3, 4, 2, 0]),
            dict(q=[0, 1], u=[1, 2], v=[3, 1, 0])]
    for n, ls in enumerate(sets):
        for config in ("all", None):
            out.append(dict(source="CMIP", order=perms[0 if n else 33], config=config,
                            bounds=bnd[n:n + 1], new=bool(n % 2), tcw=False, sets=ls))
    return out


def columns():
    p = np.array(HPA) * 100.0
    z = p / 1e5
    qs = [0.012 * z**2, 0.010 - 0.008 * z, np.array([1, 4, 2, 6, 3]) * 1e-3,
          np.full(5, 0.005)]
    us = [30 - 30 * z, np.array([5.0, -5, 10, -10, 2]), np.full(5, 8.0)]
    rows = list(itertools.product(range(len(qs)), range(len(us))))
    ny, nx = len(rows), len(PS)
    q, u, v = (np.zeros((5, ny, nx)) for _ in range(3))
    sfc = {k: np.zeros((ny, nx)) for k in ("ps", "qs", "us", "vs")}
    for j, (a, b) in enumerate(rows):
        for i, s in enumerate(PS):
            q[:, j, i], u[:, j, i] = qs[a], us[b]
            v[:, j, i] = us[(b + 1) % 3] - 4
            sfc["ps"][j, i] = s
            sfc["qs"][j, i] = 0.006 + 0.001 * (i % 3)
            sfc["us"][j, i] = 3.0 - j % 4
            sfc["vs"][j, i] = -2.0 + i % 3
    return q, u, v, sfc


def run_case(case, ctx):
    q, u, v, s = columns()
    ny, nx = s["ps"].shape
    lat, lon = 50.0 - np.arange(ny), 1.0 + 2 * np.arange(nx)
    order = list(case["order"])
    t = synth.T(2021, 7, 1, 6, cal="proleptic_gregorian" if case["source"] == "ARCO"
                else "standard")
    use = list(range(5)) if case["config"] in (None, "all") else list(case["config"])
    sets = case.get("sets")
    if sets:  # positions in the file
        for keep in sets.values():
            use = [k for k in use if k in [order[x] for x in keep]]
    tcw = 10.0 + 2 * np.arange(nx) + np.arange(ny)[:, None]
    hpa = np.array(HPA)[order]
    if case["new"]:
        hpa = hpa.astype(float)
    lv = ("all" if case["config"] == "all" else
          [HPA[k] for k in (order if case["config"] is None else case["config"])])
    if sets and case["config"] is None:
        lv = [HPA[k] for k in use]
    if case["source"] == "CMIP" and lv != "all":
        lv = [100 * x for x in lv]
    o4 = lambda a: np.asarray(a)[order][None]
    for n, (fac, off) in enumerate(case["bounds"]):
        root = ctx.tmp / str(n)
        kw = dict(level_type="pressure_levels", levels=lv)
        if fac is not None:
            kw.update(pressure_boundary_factor=fac, pressure_boundary_offset=off)
        one = np.ones((1, ny, nx))
        if case["source"] == "CMIP":
            f = dict(q=o4(q), u=o4(u), v=o4(v), sp=s["ps"][None], qs=s["qs"][None],
                     us=s["us"][None], vs=s["vs"][None], pr=np.ones((2, ny, nx)) * 1e-5,
                     hfls=np.ones((2, ny, nx)) * 50)
            t3 = [synth.T(2021, 7, 1, 1, 30), synth.T(2021, 7, 1, 4, 30)]
            tpl = prep.write_cmip(root / "in", [t], t3, lat, lon, hpa * 100.0, f,
                                  short=not case["new"], level_sets=sets)
            cfg = prep.config(root, tpl, t, t, input_frequency="6h", **kw)
            prep.run(cfg, "CMIP")
        else:
            f = dict(q=o4(q), u=o4(u), v=o4(v), sp=s["ps"][None],
                     d2m=prep.dewpoint(s["qs"], s["ps"])[None], u10=s["us"][None],
                     v10=s["vs"][None], e=-1e-4 * one, tp=2e-4 * one)
            if case["tcw"]:
                f["tcw"] = tcw[None]
            if case["source"] == "ERA5":
                tpl = prep.write_era5(root / "in", [t], lat, lon, "pressure_levels", hpa,
                                      f, new_names=case["new"])
                cfg = prep.config(root, tpl, t, t, **kw)
                prep.run(cfg)
            else:
                cfg = prep.config(root, "unused", t, t, calendar="proleptic_gregorian",
                                  **kw)
                ds = prep.arco_dataset([t], lat, lon, hpa, f)
                prep.in_child(prep.with_arco, ds, lambda: prep.run(cfg, "ARCO"))
        got = prep.read(cfg).get("2021-07-01")
        if got is None or len(got["time"]) != 1:
            ctx.fail("no output for the time step")
            return
        factor = 0.72878581 if fac is None else fac
        offset = 7438.803223 if off is None else off
        what = f"{case['source']}, levels {lv} stored as {hpa.tolist()}, boundary {fac} {off}"
        for j, i in itertools.product(range(ny), range(nx)):
            want = prep.pressure_column(
                np.array(HPA)[use] * 100.0, q[use, j, i], u[use, j, i], v[use, j, i],
                *(s[k][j, i] for k in ("ps", "qs", "us", "vs")), factor, offset,
                tcw[j, i] if case["tcw"] else None)
            ctx.count("evaluations")
            ctx.state(str(case), n, j, i)
            for k, x in want.items():
                g = float(got[k][0, j, i])
                # 3 Pa of the moistest air, plus single precision
                slack = 3 / 9.8 * 0.013 * (1 if k[0] == "s" else 40)
                if case["tcw"]:
                    slack *= 3
                if not abs(g - x) <= slack + 5e-5 * abs(x):
                    ctx.fail(f"{what}: {k} is {g:.6g}, the integral over the column is "
                             f"{x:.6g} (surface {s['ps'][j, i] / 100} hPa)",
                             q=q[:, j, i].tolist(), u=u[:, j, i].tolist())
                    return
    ctx.sample({**case, "columns": ny * nx})
