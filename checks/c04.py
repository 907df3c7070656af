import functools
import hashlib
import numpy as np
from vlib import tlc, plasma
from vlib.oracle import loops, rect_quad, sint, ppm, BIG

TRACE = "EquilTrace"
RULE = ("every recorded history of an equilibrium (currents set or adjusted, plasma solved) is a behaviour of "
        "spec/Equil.tla, its flux and field being the superposition the specification's state says")
CHUNK = 1
MESH = {1: (65, 65), 2: (65, 129), 3: (129, 65), 4: (33, 65)}
DOM = {1: (0.45, 1.85, -0.9, 0.9), 2: (0.5, 1.9, -1.0, 0.9), 3: (0.4, 1.7, -0.8, 0.9), 4: (0.45, 1.85, -0.9, 0.9)}
CONSTS = """CONSTANTS CurVals <- %sCur
 AmpVals <- %sAmp
 Shapes = {1, 2}
 Configs <- %sConfigs
"""
TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Finished\nCHECK_DEADLOCK FALSE\n" + CONSTS % (("Small",) * 3)
UNIT = 1e5
FVAC = 2.0


def models(tier):
    cfg = """SPECIFICATION Spec
INVARIANTS CurrentIsLastSolve OnePlasma
PROPERTIES PlasmaOnlyBySolve CoilsOnlyByCurrents UncontrolledKept
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
""" + CONSTS % (("Small",) * 3)
    return [{"name": "Equil", "module": "Equil", "cfg": cfg}]


def scenarios(tier, seed):
    n, depth = (64, 6) if tier == "quick" else (600, 10)
    cfg = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n" + CONSTS % (("Big",) * 3) + " Depth = %d\n" % depth
    items, r = tlc.generate("EquilGen", cfg, workers=1, args=(
        "-simulate", "num=%d" % n, "-depth", str(depth + 3), "-seed", str(seed)))
    out, seen = [], set()
    for h in items:
        k = hashlib.sha1(repr(h).encode()).hexdigest()
        if k not in seen:
            seen.add(k)
            out.append({"hist": h, "id": "equil-" + k[:10]})
    return out, {"states": r["distinct"], "transitions": r["states"]}


def coil_fils():
    """filaments (per ampere of element current) of the three elements"""
    return [[(2.3, 0.7, 2.0)],
            [(2.2 + a, -0.95 + b, w) for a, b, w in rect_quad(-0.04, 0.04, -0.05, 0.05)],
            [(0.9, 1.5, 1.0), (0.9, -1.5, -0.5)]]


@functools.lru_cache(None)
def setup(mesh):
    nx, ny = MESH[mesh]
    R0, R1, Z0, Z1 = DOM[mesh]
    R, Z = np.meshgrid(np.linspace(R0, R1, nx), np.linspace(Z0, Z1, ny), indexing="ij")
    sel = plasma.outside(1, R, Z) & plasma.outside(2, R, Z)
    sel[::2, :] = False
    sel[:, 1::2] = False
    g = np.random.RandomState(3)
    pts = []
    while len(pts) < 120:
        a, b = g.uniform(R0 + .03, R1 - .03), g.uniform(Z0 + .03, Z1 - .03)
        if plasma.outside(1, a, b) and plasma.outside(2, a, b):
            pts.append((a, b))
    pts = np.array(pts)

    def basis(Rp, Zp):
        cols = [loops(f, Rp, Zp) for f in coil_fils()] + [plasma.flux(s, Rp, Zp) for s in (1, 2)]
        return [np.array([c[i] for c in cols]).T for i in range(3)]
    return sel, basis(R[sel], Z[sel]), pts, basis(pts[:, 0], pts[:, 1])


def recover(A, y, UNIT):
    try:
        y = np.asarray(y, float).ravel()
        if y.shape[0] != A.shape[0] or not np.all(np.isfinite(y)):
            raise ValueError
        x, _, _, _ = np.linalg.lstsq(A, y, rcond=1e-14)
        size = np.max(np.abs(y))
        res = np.max(np.abs(A @ x - y))
        return [sint(v, 1000.0 / UNIT) for v in x], (ppm(res, size) if size > 0 else (0 if res == 0 else BIG))
    except Exception:
        return [BIG] * A.shape[1], BIG


class Prof:
    """profiles of the toroidal field only: the current is given"""

    def fpol(self, psin):
        return FVAC * (1.0 + 0.1 * (1.0 - psin) ** 2)

    def fvac(self):
        return FVAC

    def pressure(self, psin):
        return 0.0 * psin

    def pprime(self, psin):
        return 0.0 * psin

    def ffprime(self, psin):
        return 0.0 * psin


def execute(scn):
    import freegs
    from freegs import machine as M
    hist = scn["hist"]
    c = hist[0]["c"]
    nx, ny = MESH[c["mesh"]]
    D = DOM[c["mesh"]]
    UNIT = 1e5 * (1, 1e-4, 100)[c["scale"] - 1]
    cur = [v * UNIT for v in hist[0]["cur"]]
    ctl = hist[0]["ctl"]
    a, b = 0.04, 0.05
    R, Z = 2.2, -0.95
    tok = M.Machine([
        ("A", M.Coil(2.3, 0.7, current=cur[0], turns=2, control=ctl[0])),
        ("B", M.ShapedCoil([(R - a, Z - b), (R + a, Z - b), (R + a, Z + b), (R - a, Z + b)], current=cur[1], control=ctl[1])),
        ("C", M.Circuit([("u", M.Coil(0.9, 1.5), 1.0), ("l", M.Coil(0.9, -1.5), -0.5)], current=cur[2], control=ctl[2]))])
    eq = freegs.Equilibrium(tok, Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=nx, ny=ny, order=c["order"],
                            psi=np.zeros((nx, ny)))
    # another equilibrium around the same coils, asked and solved in between
    eq2 = freegs.Equilibrium(tok, Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3] + 0.1, nx=33, ny=33)
    prof = Prof()
    sel, A, pts, B = setup(c["mesh"])

    def observe():
        o = {}
        p = eq.psi()
        r, z = pts[:, 0], pts[:, 1]
        ok = np.shape(p) == (nx, ny)
        o["psi"], o["psires"] = recover(A[0], p[sel] if ok else np.zeros(1), UNIT)
        q = eq.psiRZ(r, z)
        br, bz = eq.Br(r, z), eq.Bz(r, z)
        o["psirz"], o["psirzres"] = recover(B[0], q, UNIT)
        o["br"], o["brres"] = recover(B[1], br, UNIT)
        o["bz"], o["bzres"] = recover(B[2], bz, UNIT)
        size = np.max(np.abs(p)) + 1e-30
        bsize = np.max(np.hypot(br, bz)) + 1e-30
        o["gridpt"] = ppm(eq.psiRZ(eq.R.ravel(), eq.Z.ravel()).reshape(nx, ny) - p, size) if ok else BIG
        h = 1e-5
        o["gradr"] = ppm(br + (eq.psiRZ(r, z + h) - eq.psiRZ(r, z - h)) / (2 * h * r), bsize)
        o["gradz"] = ppm(bz - (eq.psiRZ(r + h, z) - eq.psiRZ(r - h, z)) / (2 * h * r), bsize)
        o["bpol"] = ppm(eq.Bpol(r, z) ** 2 - br ** 2 - bz ** 2, bsize ** 2)
        o["scal"] = max(ppm(float(f(float(r[i]), float(z[i]))) - F[i], S)
                        for i in (0, 50) for f, F, S in ((eq.psiRZ, q, size), (eq.Br, br, bsize), (eq.Bz, bz, bsize)))
        o["btor"] = o["btot"] = o["psin"] = 0
        ax, bd = getattr(eq, "psi_axis", None), getattr(eq, "psi_bndry", None)
        if getattr(eq, "_profiles", None) is not None and ax is not None and bd is not None and abs(bd - ax) > 1e-9 * size:
            pn = (p - ax) / (bd - ax)
            ps = np.max(np.abs(pn)) + 1.0
            o["psin"] = max(ppm(eq.psiN() - pn, ps), ppm(eq.psiNRZ(r, z) - (q - ax) / (bd - ax), ps))
            # on mesh points the core mask is exactly 0 or 1
            i, j = np.arange(3, nx - 3, 7), np.arange(2, ny - 2, 5)
            I, J = np.meshgrid(i, j, indexing="ij")
            I, J = I.ravel(), J.ravel()
            rr, zz = eq.R[I, J], eq.Z[I, J]
            core = np.ones(len(I)) if eq.mask is None else np.asarray(eq.mask)[I, J]
            want = np.where(core > 0.5, prof.fpol(pn[I, J]), FVAC) / rr
            bt = eq.Btor(rr, zz)
            ts = np.max(np.abs(want))
            o["btor"] = ppm(bt - want, ts)
            o["btot"] = ppm(eq.Btot(rr, zz) ** 2 - bt ** 2 - eq.Bpol(rr, zz) ** 2, ts ** 2)
        o["ip"] = sint(eq.plasmaCurrent(), 1000.0 / UNIT)
        return o

    ev = [{"ev": "start", "c": c, "cur": hist[0]["cur"], "ctl": ctl, "obs": observe()}]
    names = ["A", "B", "C"]
    for op in hist[1:]:
        d = {k: v for k, v in op.items() if k != "op"}
        d["ev"] = op["op"]
        if op["op"] == "end":
            continue
        try:
            if op["op"] == "setcur":
                tok[names[op["i"] - 1]].current = op["v"] * UNIT
            elif op["op"] == "setctl":
                tok[names[op["i"] - 1]].control = op["v"]
            elif op["op"] == "adjust":
                tok.controlAdjust(np.array([x for x, n in zip(op["d"], names) if tok[n].control], float) * UNIT)
            else:
                J = op["a"] * UNIT * plasma.blob(op["s"], eq.R, eq.Z)
                eq.solve(prof, Jtor=J)
                eq2.solve(prof, Jtor=-0.5 * UNIT * plasma.blob(3 - op["s"], eq2.R, eq2.Z))
            if op["op"] == "adjust":
                eq2.psi()
            d["obs"] = observe()
        except Exception as x:
            import traceback
            ev.append({"ev": "crash", "exc": type(x).__name__, "info": traceback.format_exc()[-800:]})
            break
        ev.append(d)
    return ev
