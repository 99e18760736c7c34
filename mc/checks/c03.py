"""C03: horizontal advection is an upwind, conservative exchange."""
import itertools

import numpy as np

from mc import ref, scen, synth, wam

ID = "C03"
LEVEL = "model_checking"
RULE = ("(a) every assignment of contents to a cell and its four neighbours and of fluxes to "
        "the cells they depend on, from the alphabets, laid out as disjoint 3x3 blocks of "
        "one grid and stepped by the real tracker from a restart file; (b) every assignment "
        "of face fluxes and contents on complete small grids through the advection routine; "
        "a state is one distinct block or grid assignment, a transition its advection, a "
        "validated trace one tracker step or routine call compared in all cells")
ASSUMPTIONS = ["fluxes below the stability limit and no overshoot (those are C05 and C28)"]
preload = wam.preload


def cases(tier):
    out = []
    for d, p in itertools.product(["forward", "backward"], [False, True]):
        if tier == "quick":
            out += [dict(kind="blocks", direction=d, periodic=p, flux=[-1.0, 0.0, 2.0],
                         content=[0.1, 1.0], part=k, parts=2) for k in range(2)]
        else:
            out += [dict(kind="blocks", direction=d, periodic=p, flux=f, content=c,
                         part=k, parts=12)
                    for f, c in (([-1.0, 0.0, 2.0], [0.0, 0.5, 1.0]),
                                 ([-2.0, 1.0, 2.0], [0.0, 0.2, 1.0]))
                    for k in range(12)]
    for p in (False, True):
        shapes = [(3, 3)] if tier == "quick" else [(3, 3), (3, 4), (4, 3)]
        for m, n in shapes:
            nf = faces(m, n, p)
            parts = 8 if tier == "quick" else 64
            out += [dict(kind="small", m=m, n=n, periodic=p, part=k, parts=parts)
                    for k in range(parts)]
    return out


def faces(m, n, periodic):
    nu = (m - 2) * (n if periodic else n - 1)
    nv = (m - 1) * (n if periodic else n - 2)
    return nu, nv


def run_case(case, ctx):
    (blocks if case["kind"] == "blocks" else small)(case, ctx)


def blocks(case, ctx):
    fl, co = case["flux"], case["content"]
    # neighbourhood: contents of C,N,S,W,E; fx of W,C,E; fy of N,C,S
    combos = list(itertools.product(*([co] * 5 + [fl] * 6)))
    combos = combos[case["part"]:: case["parts"]]
    k = int(np.ceil(np.sqrt(len(combos))))
    M = N = 3 * k + 2
    if case["periodic"]:
        lon = -180 + 360 / N * np.arange(N)
    else:
        lon = -100 + 0.3 * np.arange(N)
    lat = 60 - 120 / M * np.arange(M)
    r = np.full((M, N), co[-1])
    fx = np.full((M, N), fl[-1])
    fy = np.full((M, N), fl[0])
    for b, c in enumerate(combos):
        j, i = 3 * (b // k) + 2, 3 * (b % k) + 2
        r[j, i], r[j - 1, i], r[j + 1, i], r[j, i - 1], r[j, i + 1] = c[:5]
        fx[j, i - 1], fx[j, i], fx[j, i + 1] = c[5:8]
        fy[j - 1, i], fy[j, i], fy[j + 1, i] = c[8:]
    area, dy, dx = ref.geometry(lat, lon)
    S = 20.0
    # largest flux moves a tenth of a cell
    scale = 0.1 * S * np.min(area) / 3600 / dy / np.max(np.abs(fl)) / 2
    fields = {"fx_upper": fx * scale, "fx_lower": fx * scale, "fy_upper": fy * scale,
              "fy_lower": fy * scale, "s_upper": S + 0 * fx, "s_lower": S + 0 * fx,
              "precip": 0 * fx, "evap": 0 * fx}
    fields = {q: np.stack([v, v]) for q, v in fields.items()}
    A = {"upper": 0.25 * S * r, "lower": 0.5 * S * (1.1 - r)}
    o, cfg = synth.one_step(ctx.tmp, lat, lon, fields, (A["upper"], A["lower"]),
                            case["direction"], periodic=case["periodic"])
    sgn = -1 if case["direction"] == "backward" else 1
    edge = ref.edge_mask((M, N), case["periodic"])
    gx, gy = fx * scale * dy, fy * scale * dx[:, None]
    loss = 0
    tot0 = tot1 = 0
    for q in ("upper", "lower"):
        want = A[q] + 3600 * ref.advect(A[q] / S, sgn * gx, sgn * gy,
                                        case["periodic"]) / area[:, None]
        loss = loss + np.where(edge, want, 0)
        want = np.where(edge, 0, want)
        got = o[f"s_track_{q}_restart"]
        err = np.abs(got - want)
        if not np.all(err < 2e-5 * S):
            j, i = np.unravel_index(np.argmax(np.where(np.isfinite(err), err, 1e30)), (M, N))
            jj, ii = slice(max(j - 1, 0), j + 2), slice(max(i - 1, 0), i + 2)
            ctx.fail(f"{q} layer, cell {(int(j), int(i))}: {got[j, i]:.6g} after one step, "
                     f"upwind exchange gives {want[j, i]:.6g}",
                     contents=(A[q] / S)[jj, ii].round(4).tolist(),
                     fx=(sgn * fx)[jj, ii].tolist(), fy=(sgn * fy)[jj, ii].tolist())
        tot0 += np.sum(A[q] * area[:, None])
        tot1 += np.sum(got * area[:, None])
    if not np.all(np.abs(o["losses"] - loss) < 3e-5 * S):
        ctx.fail("water removed at the edge differs from what was advected there")
    tot1 += np.sum(o["losses"] * area[:, None])
    if not abs(tot1 - tot0) < 2e-6 * tot0:
        ctx.fail(f"advection changed the total water from {tot0:.8g} to {tot1:.8g}")
    for c in combos:
        ctx.state(c)
    ctx.count("transitions", len(combos))
    ctx.count("traces_validated_against_impl")
    ctx.sample({"block": dict(zip("rC rN rS rW rE uW uC uE vN vC vS".split(),
                                  combos[len(combos) // 3])), **case})


def small(case, ctx):
    adv = wam.same_signature("tracking.core", "horizontal_advection",
                             ["s", "u", "v", "periodic_x"])
    if adv is None:
        ctx.count("routine_probes_skipped")
        return
    m, n, per = case["m"], case["n"], case["periodic"]
    nu, nv = faces(m, n, per)
    cells = m * n
    if cells <= 9 and not per:
        contents = list(itertools.product([0.0, 1.0], repeat=cells))
    else:  # every single cell and every pair of cells filled, and all
        contents = [np.eye(cells)[k] for k in range(cells)]
        contents += [np.ones(cells)]
        contents += [np.eye(cells)[a] + 0.5 * np.eye(cells)[b]
                     for a in range(cells) for b in range(a)][:: 1 if not per else 4]
    contents = np.array(contents, float).reshape(-1, m, n)
    alph = [-1.0, 0.0, 1.0]
    total = 3 ** (nu + nv)
    cap = 3**9
    idx = range(case["part"], total, case["parts"])
    if total > cap * 4:  # too many: one or two faces at a time differ from a base wind
        idx = [q for q in idx if sum(1 for d in digits(q, nu + nv) if d != 2) <= 2]
        ctx.count("two_face_assignments", len(idx))
    for q in idx:
        f = np.array([alph[d] for d in digits(q, nu + nv)])
        u, v = f[:nu].reshape(m - 2, -1), f[nu:].reshape(m - 1, -1)
        if per:
            uu = np.concatenate([u[:, -1:], u], axis=1)  # first and last face coincide
        else:
            uu = u
        for s in contents if total <= 3**7 else contents[:: max(1, len(contents) // 5)]:
            got = adv(s, uu, v, per)
            want = naive(s, u, v, per)
            ctx.count("transitions")
            if np.shape(got) != want.shape or not np.allclose(got, want, atol=1e-12):
                ctx.fail("advection of a small grid differs from the upwind exchange",
                         s=s.tolist(), u=uu.tolist(), v=v.tolist(),
                         got=np.asarray(got).tolist(), want=want.tolist())
                return
        ctx.state(m, n, per, tuple(f))
        ctx.count("traces_validated_against_impl")


def digits(q, n):
    out = []
    for _ in range(n):
        out.append(q % 3)
        q //= 3
    return out


def naive(s, u, v, per):
    m, n = s.shape
    out = np.zeros((m, n))
    for j in range(1, m - 1):
        for f in range(u.shape[1]):
            w, e = f, (f + 1) % n
            x = u[j - 1, f]
            q = x * (s[j, w] if x > 0 else s[j, e])
            out[j, w] -= q
            out[j, e] += q
    for j in range(m - 1):
        for f in range(v.shape[1]):
            i = f if per else f + 1
            x = v[j, f]
            q = x * (s[j + 1, i] if x > 0 else s[j, i])
            out[j + 1, i] -= q
            out[j, i] += q
    return out
