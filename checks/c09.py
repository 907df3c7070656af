import functools
import numpy as np
from scipy.integrate import simpson
from vlib import plasma, gen
from vlib.oracle import sint, ppm, BIG, MU0

TRACE = "GSTrace"
RULE = ("every recorded sequence of linear solves is a behaviour of spec/GS.tla: the flux returned is the polynomial, "
        "bubble or free-space flux which the specification's state says")
CONSTS = """CONSTANTS Confs <- %sConfs
 MaxTerms = 3
 Coefs <- %sCoefs
 Amps <- %sAmps
"""
TRACE_CFG = gen.trace_cfg(CONSTS % (("Small",) * 3))
DOMS = {1: (0.6, 1.7, -0.8, 0.7), 2: (0.1, 2.1, -1.3, 1.5), 3: (1.2, 2.8, 0.2, 1.1), 4: (0.45, 1.85, -0.9, 0.9)}


def models(tier):
    cfg = "SPECIFICATION Spec\nINVARIANTS DegreeDrops Vacuum Doubling\nCHECK_DEADLOCK FALSE\n" + CONSTS % (("Small",) * 3)
    return [{"name": "GS", "module": "GS", "cfg": cfg}]


def scenarios(tier, seed):
    n, d = (200, 3) if tier == "quick" else (2500, 4)
    return gen.simulate("GSGen", CONSTS % (("Big",) * 3) + " Depth = %d\n" % d, n, d, seed, "gs")


def edges(n):
    s = slice(None)
    return ((0, s), (-1, s), (s, 0), (s, -1))


def peval(terms, R, Z):
    v = np.zeros(np.shape(R))
    for m, n, c in terms:
        v = v + c * np.asarray(R, float) ** m * np.asarray(Z, float) ** n
    return v


@functools.lru_cache(None)
def free_oracle(s, nx, ny):
    R0, R1, Z0, Z1 = DOMS[4]
    R, Z = np.meshgrid(np.linspace(R0, R1, nx), np.linspace(Z0, Z1, ny), indexing="ij")
    sel = plasma.outside(s, R, Z, 1.1)
    sub = np.zeros_like(sel)
    sub[::3, ::3] = True
    edge = np.zeros_like(sel)
    for e in edges(0):
        edge[e] = True
    sel = sel & (sub | edge)
    out = np.full(R.shape, np.nan)
    out[sel] = plasma.flux(s, R[sel], Z[sel])[0]
    return out, sel, edge


def execute(scn):
    import freegs
    from freegs import machine, boundary, gradshafranov
    hist = scn["hist"]
    c = hist[0]["c"]
    D = DOMS[c["dom"]]
    nx, ny = c["nx"], c["ny"]
    want = {}

    def given(eq, J, psi):
        for e in edges(0):
            psi[e] = want["u"][e]
    bnd = {"given": given, "fixed": boundary.fixedBoundary, "free": boundary.freeBoundary,
           "hagenow": boundary.freeBoundaryHagenow}[c["bnd"]]
    eq = freegs.Equilibrium(machine.EmptyTokamak(), Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=nx, ny=ny,
                            boundary=bnd, order=c["order"])
    # the mesh itself, independently of the code's own arrays
    R, Z = np.meshgrid(np.linspace(D[0], D[1], nx), np.linspace(D[2], D[3], ny), indexing="ij")
    dR, dZ = (D[1] - D[0]) / (nx - 1), (D[3] - D[2]) / (ny - 1)
    # other equilibria of the same shape live (and are solved) in the same process: what one is given is nothing to another
    others = []
    if c["bnd"] != "given":
        h = 0.37 * (D[3] - D[2])
        for q in ((D[0], D[1], D[2] - h, D[3] + h), (D[0], D[1], D[2] + 0.3, D[3] + 0.3), (D[0], D[1] + 0.41, D[2], D[3])):
            others.append(freegs.Equilibrium(machine.EmptyTokamak(), Rmin=q[0], Rmax=q[1], Zmin=q[2], Zmax=q[3], nx=nx, ny=ny,
                                             boundary=bnd, order=c["order"]))
    ev = [{"ev": "start", "c": c}]
    for nth, op in enumerate(hist[1:]):
        if op["op"] == "end":
            continue
        if others:
            e2 = others[nth % 3]
            e2.solve(None, Jtor=3e5 * np.exp(-((e2.R - 1.1) ** 2 + e2.Z ** 2) / 0.05))
        d = {k: v for k, v in op.items() if k not in ("op", "rhs")}
        d["ev"] = op["op"]
        o = {}
        if op["op"] == "poly":
            want["u"] = peval(op["p"], R, Z)
            rhs = peval(op["rhs"], R, Z)
            J = -rhs / (MU0 * R)
            xr, wr = np.polynomial.legendre.leggauss(40)
            gr, gz = 0.5 * (D[0] + D[1]) + 0.5 * (D[1] - D[0]) * xr, 0.5 * (D[2] + D[3]) + 0.5 * (D[3] - D[2]) * xr
            GR, GZ = np.meshgrid(gr, gz, indexing="ij")
            W = np.outer(wr, wr) * (D[1] - D[0]) * (D[3] - D[2]) / 4
            Iref = np.sum(W * -peval(op["rhs"], GR, GZ) / (MU0 * GR))
            Isize = np.sum(W * np.abs(peval(op["rhs"], GR, GZ)) / (MU0 * GR))
            # the mesh can only resolve the integral so well: what Simpson's rule misses bounds it
            o["iptol"] = 50 + 2 * ppm(simpson(simpson(J, dx=dZ), dx=dR) - Iref, Isize + 1e-30) if Isize > 0 else 50
        elif op["op"] == "fixed":
            R0, R1, Z0, Z1 = D
            u = (R ** 2 - R0 ** 2) * (R ** 2 - R1 ** 2) * (Z - Z0) * (Z - Z1)
            # DeltaStar(R^4) = 8 R^2
            L = 8 * R ** 2 * (Z - Z0) * (Z - Z1) + (R ** 2 - R0 ** 2) * (R ** 2 - R1 ** 2) * 2
            J = -op["a"] * L / (MU0 * R)
            want["u"] = op["a"] * u
            bubble = u
            xr, wr = np.polynomial.legendre.leggauss(40)
            gr, gz = 0.5 * (D[0] + D[1]) + 0.5 * (D[1] - D[0]) * xr, 0.5 * (D[2] + D[3]) + 0.5 * (D[3] - D[2]) * xr
            GR, GZ = np.meshgrid(gr, gz, indexing="ij")
            W = np.outer(wr, wr) * (D[1] - D[0]) * (D[3] - D[2]) / 4
            gl = 8 * GR ** 2 * (GZ - Z0) * (GZ - Z1) + (GR ** 2 - R0 ** 2) * (GR ** 2 - R1 ** 2) * 2
            Iref, Isize = -op["a"] * np.sum(W * gl / GR) / MU0, np.sum(W * np.abs(gl) / GR) / MU0
            o["iptol"] = 50 + 2 * ppm(simpson(simpson(J, dx=dZ), dx=dR) - Iref, Isize + 1e-30)
        else:
            J = op["a"] * 1e5 * plasma.blob(op["s"], R, Z)
            Iref, Isize = op["a"] * 1e5, 1e5 * max(1, abs(op["a"]))
            o["iptol"] = 2000
        Jin = np.array(J)
        eq.solve(None, Jtor=J)
        u = np.asarray(eq.psi(), float)
        if u.shape != (nx, ny):
            ev.append({"ev": "crash", "exc": "shape", "info": str(u.shape)})
            break
        o["inputs"] = bool(np.array_equal(J, Jin))
        o["jtor"] = ppm(np.asarray(eq.Jtor) - Jin, np.max(np.abs(Jin)) + 1e-30)
        o["ip"] = ppm(eq.plasmaCurrent() - Iref, Isize + 1e-30) if Isize > 0 else ppm(eq.plasmaCurrent(), 1.0)
        if op["op"] == "poly":
            mm, nn = (2, 3) if c["order"] == 2 else (4, 5)
            cols = [(m, n) for m in range(mm + 1) for n in range(nn + 1)]
            # scaled variables for conditioning, then shifted back to (R, Z) powers through exact evaluation:
            # the difference from the expected polynomial is what is projected
            size = np.max(np.abs(want["u"])) + 1e-30
            dif = (u - want["u"]).ravel()
            A = np.array([(R ** m * Z ** n).ravel() for m, n in cols]).T
            sc = np.max(np.abs(A), axis=0)
            if np.all(np.isfinite(dif)):
                x = np.linalg.lstsq(A / sc, dif, rcond=1e-10)[0] / size * 1.0
            else:
                x = np.full(len(cols), np.inf)
            full = [[0] * 6 for _ in range(5)]
            coef = {(m, n): cc for m, n, cc in op["p"]}
            for (m, n), v in zip(cols, x):
                full[m][n] = sint(coef.get((m, n), 0) + v, 1000)
            o["rec"] = full
            o["err"] = ppm(dif, size)
            o["bnd"] = max(ppm((u - want["u"])[e], size) for e in edges(0))
            if c["order"] == 2:
                L = gradshafranov.GSElliptic(R[0, 0])(want["u"], dR, dZ)
                o["oper"] = ppm((L - rhs)[1:-1, 1:-1], np.max(np.abs(rhs)) + size / min(dR, dZ) ** 2 * 1e-6 + 1e-30)
            else:
                o["oper"] = 0
        elif op["op"] == "fixed":
            o["bnd"] = max(ppm(u[e], np.max(np.abs(bubble))) for e in edges(0))
            o["amp"] = sint(np.sum(u * bubble) / np.sum(bubble * bubble), 1e5)
            o["err"] = ppm(u - want["u"], np.max(np.abs(bubble)))
        else:
            ref, sel, edge = free_oracle(op["s"], nx, ny)
            size = np.nanmax(np.abs(ref)) * 1e5 * max(1, abs(op["a"]))
            dif = u - op["a"] * 1e5 * ref
            o["bnd"] = ppm(dif[edge], size)
            o["err"] = ppm(dif[sel], size)
        d["obs"] = o
        ev.append(d)
    return ev
