import contextlib
import copy
import io
import numpy as np
from vlib import gen, plasma
from vlib.oracle import loop, sint, ppm, BIG, MU0

TRACE = "SolutionTrace"
RULE = ("every recorded history of freegs.solve calls is a behaviour of spec/Solution.tla: each call ends in an equilibrium that "
        "satisfies the equation, its boundary and everything asked for, and is the one answer its request has in every history")
TRACE_CFG = gen.trace_cfg(done="TraceDone")
LIMIT = 600
MESH = {1: (33, 33), 2: (65, 33), 3: (33, 65)}
D = (0.1, 2.0, -1.0, 1.0)
XP = {1: dict(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.6)]),
      2: dict(xpoints=[(1.1, -0.6), (1.1, 0.6)], isoflux=[(1.1, -0.6, 1.1, 0.6)]),
      4: dict(xpoints=[(1.0, -0.6)], isoflux=[(1.0, -0.6, 1.4, 0.2), (1.0, -0.6, 0.7, 0.1)])}
FV = 2.0
# conductors of the two machines, which are equivalent: R, Z
POS = [(1.0, -1.1), (1.0, 1.1), (1.75, -0.6), (1.75, 0.6)]


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS AnswersAgree SignIrrelevant Scales\nPROPERTY LearntForGood\nCONSTRAINT Few\nCHECK_DEADLOCK FALSE\n")
    return [{"name": "Solution", "module": "Solution", "cfg": cfg}]


def scenarios(tier, seed):
    n, d = (26, 6) if tier == "quick" else (260, 9)
    out, st = gen.simulate("SolutionGen", "CONSTANT Depth = %d\n" % d, n, d, seed, "sol")
    for m in (1, 2):
        for x in XP:
            out.append({"id": "sol-fix-%d-%d" % (m, x), "hist": [
                {"op": "make", "mesh": m, "bnd": 1, "m": 1}, {"op": "solve", "x": x, "prof": "pax", "ip": 2, "par": 8, "bl": 0}, {"op": "again"}, {"op": "freeze"},
                {"op": "make", "mesh": m, "bnd": 1, "m": 2}, {"op": "solve", "x": x, "prof": "pax", "ip": -1, "par": 2, "bl": 0}, {"op": "kick", "k": x},
                {"op": "solve", "x": x, "prof": "pax", "ip": 2, "par": 8, "bl": 3}]})
    return out, st


def machine(m):
    from freegs.machine import Machine, Coil, Circuit, ShapedCoil, FilamentCoil
    if m == 1:
        return Machine([("P%d" % i, Coil(*p)) for i, p in enumerate(POS)]), [lambda t, i=i: t["P%d" % i].current for i in range(4)]
    a = 0.005
    R, Z = POS[0]
    t = Machine([("P0", ShapedCoil([(R - a, Z - a), (R - a, Z + a), (R + a, Z + a), (R + a, Z - a)])),
                 ("P1", Coil(*POS[1], turns=7)),
                 ("P2", Circuit([("a", Coil(*POS[2], turns=2), 0.5)])),
                 ("P3", FilamentCoil([POS[3][0] - 0.002, POS[3][0] + 0.002], [POS[3][1]] * 2, turns=2))])
    return t, [lambda t: t["P0"].current, lambda t: 7 * t["P1"].current, lambda t: t["P2"].current, lambda t: 2 * t["P3"].current]


def profile(h, eq, fv=FV):
    from freegs import jtor
    ip = h["ip"] * 1e5
    if h["prof"] == "pax":
        return jtor.ConstrainPaxisIp(eq, 125.0 * h["par"], ip, fv)
    return jtor.ConstrainBetapIp(eq, h["par"] / 100.0, ip, fv)


def delstar(p, R, dR, dZ):
    """fourth order, two points in from the edge"""
    c = slice(2, -2)
    d2r = (-p[4:, c] + 16 * p[3:-1, c] - 30 * p[c, c] + 16 * p[1:-3, c] - p[:-4, c]) / (12 * dR ** 2)
    d1r = (-p[4:, c] + 8 * p[3:-1, c] - 8 * p[1:-3, c] + p[:-4, c]) / (12 * dR)
    d2z = (-p[c, 4:] + 16 * p[c, 3:-1] - 30 * p[c, c] + 16 * p[c, 1:-3] - p[c, :-4]) / (12 * dZ ** 2)
    return d2r - d1r / R[c, c] + d2z


def observe(eq, h, get, prof):
    from freegs import critical
    ip = h["ip"] * 1e5
    R, Z = eq.R, eq.Z
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    psi = eq.psi()
    x = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    ax = eq.magneticAxis()
    # the core, found anew: below the boundary flux and connected to the axis
    from scipy.ndimage import label, binary_erosion
    inn = x < 1
    # cut at the X-points, which join the core to the private region
    for c in XP[h["x"]]["xpoints"]:
        s = -1 if c[1] < 0 else 1
        inn &= s * (Z - c[1]) < 0
    lab, _ = label(inn)
    i0, j0 = int(round((ax[0] - D[0]) / dR)), int(round((ax[1] - D[2]) / dZ))
    core = lab == lab[i0, j0]
    xx = np.clip(x, 0, 1)
    pp = np.array(eq.pprime(xx.ravel())).reshape(x.shape)
    ff = np.array(eq.ffprime(xx.ravel())).reshape(x.shape)
    J = np.where(core, R * pp + ff / (MU0 * R), 0.0)
    lhs = delstar(eq.plasma_psi, R, dR, dZ)
    rhs = -MU0 * (R * J)[2:-2, 2:-2]
    # away from the edge of the core, where the current ends at a mesh point
    c = core[2:-2, 2:-2]
    far = binary_erosion(c, iterations=3) | binary_erosion(~c, iterations=3, border_value=1)
    top = np.max(np.abs(rhs))
    res = ppm((lhs - rhs)[far], top)
    # the flux along the edge is that of the plasma current
    edge = [(0, j) for j in range(0, Z.shape[1], 4)] + [(-1, j) for j in range(0, Z.shape[1], 4)] + [(i, k) for i in range(0, R.shape[0], 4) for k in (0, -1)]
    er, ez = np.array([R[e] for e in edge]), np.array([Z[e] for e in edge])
    g = np.zeros(len(edge))
    m = np.abs(J) > 0
    for rc, zc, w in zip(R[m], Z[m], J[m]):
        g += w * dR * dZ * loop(rc, zc, er, ez)[0]
    tot = np.sum(J) * dR * dZ
    g *= ip / tot
    grn = ppm(np.array([eq.plasma_psi[e] for e in edge]) - g, np.max(np.abs(g)))
    # what was asked for
    par = ppm(eq.pressure(0.0) / (125.0 * h["par"]) - 1) if h["prof"] == "pax" else None
    if par is None:
        pr = np.array(eq.pressure(xx.ravel())).reshape(x.shape)
        B2 = eq.Br(R, Z) ** 2 + eq.Bz(R, Z) ** 2
        par = ppm((2 * MU0 * np.sum((pr * R)[core]) / np.sum((B2 * R)[core])) / (h["par"] / 100.0) - 1)
        # summed over mesh points of the core: no better than its edge
        par = max(0, par - 10000)
    span = abs(eq.psi_bndry - eq.psi_axis)
    bref = span / 0.3
    xpt = max(np.hypot(float(eq.Br(*c)), float(eq.Bz(*c))) for c in XP[h["x"]]["xpoints"])
    iso = max(abs(float(eq.psiRZ(*c[:2])) - float(eq.psiRZ(*c[2:]))) for c in XP[h["x"]]["isoflux"])
    bnd = abs(float(eq.psiRZ(*XP[h["x"]]["xpoints"][0])) - eq.psi_bndry)
    a = [sint(ax[0], 1e4), sint(ax[1], 1e4), sint(eq.psi_axis / ip, 1e6 / 4.5e-7), sint(eq.psi_bndry / ip, 1e6 / 4.5e-7)] + \
        [sint(f(eq.tokamak) / ip, 1e6) for f in get]
    return {"done": True, "res": res, "grn": grn, "ip": ppm(eq.plasmaCurrent() / ip - 1), "par": par, "xpt": ppm(xpt, bref), "iso": ppm(iso, span),
            "bnd": ppm(bnd, span), "a": a}


def execute(scn):
    import freegs
    from freegs import jtor, control, boundary
    out = []
    try:
        eq = None
        last = None
        for h in scn["hist"]:
            op = h["op"]
            if op == "make":
                t, get = machine(h["m"])
                nx, ny = MESH[h["mesh"]]
                eq = freegs.Equilibrium(t, *D, nx=nx, ny=ny, boundary={1: boundary.freeBoundary, 2: boundary.freeBoundaryHagenow}[h["bnd"]])
                out.append({"ev": "make", "mesh": h["mesh"], "bnd": h["bnd"]})
                last, fresh = None, True
                continue
            if op == "kick":
                rng = np.random.RandomState(h["k"])
                for _, c in eq.tokamak.coils:
                    c.current = float(rng.uniform(-1, 1) * 1e5)
                if h["k"] % 2:
                    eq.solve(None, Jtor=1e5 * plasma.blob(1 + h["k"] // 2, eq.R, eq.Z))
                out.append({"ev": "kick"})
                last, fresh = None, False
                continue
            if op == "again" or op == "freeze":
                if last is None:
                    continue
                h = dict(last, op="solve", bl=0)
            frozen = op == "freeze"
            if frozen:
                xs = np.linspace(0, 1, 201)
                pp, ff = [np.array([float(f(v)) for v in xs]) for f in (eq.pprime, eq.ffprime)]
                prof = jtor.ProfilesPprimeFfprime(lambda v: np.interp(v, xs, pp), lambda v: np.interp(v, xs, ff), FV)
            else:
                prof = profile(h, eq)
            ev = {"ev": "solve", "x": h["x"], "prof": h["prof"], "ipu": h["ip"], "paru": h["par"], "again": op != "solve", "frozen": frozen, "done": False,
                  "its": 0, "rep": True, "fresh": fresh, "bl": h["bl"]}
            con = control.constrain(**copy.deepcopy(XP[h["x"]]))
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = freegs.solve(eq, prof, con, rtol=3e-5, maxits=250, blend=0.1 * h["bl"], convergenceInfo=True)
                ev["its"] = len(r[0])
                ev["rep"] = bool(len(r[0]) == len(r[1]) and r[1][-1] < 3e-5)
                ev.update(observe(eq, h, get, prof))
                last = h
            except (RuntimeError, ValueError) as x:
                # not converged, or the plasma was lost on the way
                if isinstance(x, ValueError) and "O-point" not in str(x):
                    raise
                last = None
            fresh = False
            out.append(ev)
        return out
    except Exception as x:
        return out + [gen.crash(x)]
