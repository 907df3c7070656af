import contextlib
import io
import numpy as np
from vlib import gen, plasma
from vlib.oracle import sint, ppm, BIG

TRACE = "MultigridTrace"
RULE = ("restriction and interpolation of the real code are the exact ones of the specification on integer arrays, and every "
        "V-cycle contracts the error towards the direct solution as the specification bounds it")
TRACE_CFG = gen.trace_cfg(done="TraceDone")
SCALE = {1: 1.0, 2: 1e-9, 3: 1e5}
DOM = {1: (0.4, 1.8, -0.9, 0.9), 2: (0.1, 2.0, -1.0, 1.0), 3: (0.6, 2.2, -0.5, 1.3)}


def models(tier):
    cfg = "SPECIFICATION Spec\nINVARIANTS Adjoint KeepsConstants KeepsNodes\nCHECK_DEADLOCK FALSE\n"
    return [{"name": "Multigrid", "module": "Multigrid", "cfg": cfg, "kw": {"workers": 2}}]


def scenarios(tier, seed):
    n = 160 if tier == "quick" else 1500
    return gen.cases("MultigridGen", n, seed, "mg", keep=ok)


def ok(c):
    # points that are roughly as far apart in both directions
    D = DOM[c["dom"]]
    a = ((D[1] - D[0]) / (c["n"][0] - 1)) / ((D[3] - D[2]) / (c["n"][1] - 1))
    return 0.45 < a < 2.2


def problem(c):
    D = DOM[c["dom"]]
    nx, ny = c["n"]
    R, Z = np.meshgrid(np.linspace(D[0], D[1], nx), np.linspace(D[2], D[3], ny), indexing="ij")
    x, y = (R - D[0]) / (D[1] - D[0]), (Z - D[2]) / (D[3] - D[2])
    b = {1: -R * np.exp(-((x - .5) ** 2 + (y - .5) ** 2) / .05), 2: np.ones_like(R), 3: np.sin(7 * x + 3) * np.cos(5 * y) * 4,
         4: np.where((x > .3) & (x < .6) & (y > .4), -3.0, 0.2)}[c["rhs"]].copy()
    e = {1: 0.1 + 0 * R, 2: 0.1 * R + 0.2 * Z, 3: 0.05 * np.sin(6 * x) + 0.1 * y, 4: 0 * R}[c["rhs"]]
    for sl in ((0, slice(None)), (-1, slice(None)), (slice(None), 0), (slice(None), -1)):
        b[sl] = e[sl]
    g = {0: 0 * R, 1: 0.3 + 0 * R, 2: 0.2 * np.sin(3 * x + 2 * y), 3: 0.1 * (x - y) ** 2}[c["guess"]]
    s = SCALE[c["scale"]]
    return D, nx, ny, b * s, g * s


def execute(scn):
    from freegs import multigrid as mg
    from freegs.gradshafranov import GSsparse
    c = scn["c"]
    try:
        if c["kind"] == "transfer":
            f, k = np.array(c["fine"], float), np.array(c["coarse"], float)
            f0, k0 = f.copy(), k.copy()
            r, s, p = mg.restrict(f, avg=True), mg.restrict(f), mg.interpolate(k)

            def ints(a, m):
                return [[sint(v, m) for v in row] for row in np.asarray(a)]
            return [{"ev": "transfer", "fine": c["fine"], "coarse": c["coarse"], "r": ints(r, 16), "s": ints(s, 16), "p": ints(p, 4),
                     "same": bool(np.array_equal(f, f0) and np.array_equal(k, k0))}]
        D, nx, ny, b, g = problem(c)
        gs = GSsparse(*D)
        if c["kind"] == "solve":
            x0 = mg.createVcycle(nx, ny, gs, nlevels=1)(g.copy(), b.copy())
            e0 = np.max(np.abs(x0 - g))
            A = gs(nx, ny)
            res = np.max(np.abs(A.dot(x0.ravel()) - b.ravel())) / np.max(np.abs(b)) if c["levels"] == 1 else 0.0
            gi, bi = g.copy(), b.copy()

            def run(n, guess):
                return mg.createVcycle(nx, ny, gs, nlevels=c["levels"], ncycle=n, niter=c["sweeps"])(guess, bi)
            x = run(c["cycles"], gi)
            same = np.array_equal(gi, g) and np.array_equal(bi, b)
            x2 = run(c["cycles"] + 2, g.copy())
            xf = run(c["cycles"], x0.copy())
            edge = max(np.max(np.abs((x - b)[sl])) for sl in ((0, slice(None)), (-1, slice(None)), (slice(None), 0), (slice(None), -1)))
            return [{"ev": "solve", "direct": c["levels"] == 1, "cycles": c["cycles"], "err": max(ppm(x - x0, e0), ppm(res)),
                     "more": ppm(x2 - x0, e0), "edge": ppm(edge, SCALE[c["scale"]]), "same": bool(same), "fixed": ppm(xf - x0, e0)}]
        if c["kind"] == "op":
            # the operator form, with the Laplacian: zero boundary values
            nx = ny = 33 if c["n"][0] > 17 else 17
            h = 1.0 / (nx - 1)
            xx, yy = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny), indexing="ij")
            k = 1 + c["rhs"] % 3
            b = np.sin(k * np.pi * xx) * np.sin(np.pi * yy) * 3 * SCALE[c["scale"]]
            b[0] = b[-1] = 0
            b[:, 0] = b[:, -1] = 0
            # eigenfunction of the discrete operator
            lam = -(4 / h ** 2) * (np.sin(k * np.pi * h / 2) ** 2 + np.sin(np.pi * h / 2) ** 2)
            x0 = b / lam
            lv = min(c["levels"], 3) if c["levels"] > 1 else 2
            bi, gi = b.copy(), np.zeros_like(b)

            def run(n, guess):
                with contextlib.redirect_stdout(io.StringIO()):
                    return mg.smoothMG(mg.LaplacianOp(), guess, bi, h, h, niter=c["sweeps"], sublevels=lv, ncycle=n)
            x = run(c["cycles"], gi)
            same = np.array_equal(bi, b) and not gi.any()
            edge = max(np.max(np.abs(x[0])), np.max(np.abs(x[-1])), np.max(np.abs(x[:, 0])), np.max(np.abs(x[:, -1])))
            # the coarsest level is only smoothed: a contraction, but a slow one on few levels
            n = max(1, c["cycles"])
            return [{"ev": "solve", "direct": False, "cycles": 0 if nx // 2 ** lv > 4 else n, "err": ppm(x - x0, np.max(np.abs(x0))),
                     "more": ppm(run(n + 2, np.zeros_like(b)) - x0, np.max(np.abs(x0))), "edge": ppm(edge, SCALE[c["scale"]]), "same": bool(same),
                     "fixed": ppm(run(n, x0.copy()) - x0, np.max(np.abs(x0)))}]
        import freegs
        out = []
        for mode in (0, 1):
            eq = freegs.Equilibrium(freegs.machine.TestTokamak(), Rmin=0.45, Rmax=1.85, Zmin=-0.9, Zmax=0.9, nx=33, ny=33, order=2,
                                    psi=np.zeros((33, 33)))
            if mode:
                eq.setSolverVcycle(nlevels=max(2, c["levels"]), ncycle=c["cycles"], niter=c["sweeps"], direct=True)
            eq.solve(None, Jtor=1e5 * SCALE[c["scale"]] * plasma.blob(1 + c["rhs"] % 2, eq.R, eq.Z))
            out.append((eq.plasma_psi.copy(), eq.plasmaCurrent()))
        return [{"ev": "eq", "cycles": c["cycles"], "dpsi": ppm(out[1][0] - out[0][0], np.ptp(out[0][0])),
                 "dcur": ppm(out[1][1] - out[0][1], out[0][1]), "used": not np.array_equal(out[0][0], out[1][0])}]
    except Exception as x:
        return [gen.crash(x)]
