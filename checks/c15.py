import functools
import hashlib
import numpy as np
from vlib import gen, tlc
from vlib.fluxes import Flux
from vlib.oracle import sint, BIG, MU0

TRACE = "BoundaryTrace"
RULE = ("every recorded history of solves, with limiter checking switched on and off, gives the axis, boundary flux, "
        "limited flag, contact point and core which spec/Boundary.tla selects from the facts of the flux map")
TRACE_CFG = gen.trace_cfg("CONSTANTS Vals <- SmallVals\n")
NONE = 2000000001
NFLUX = 8
MESH = {1: (65, 65), 2: (65, 33), 3: (33, 65)}
DOM = (0.35, 1.75, -1.05, 1.1)
# walls (closed or not); 0: none
WALLS = {1: ([0.62, 1.42, 1.42, 0.62], [-0.95, -0.95, 0.95, 0.95]),
         2: ([0.80, 1.62, 1.62, 0.80], [-0.9, -0.9, 1.0, 1.0]),
         3: ([0.45, 0.45, 1.3, 1.68, 1.68, 1.3], [-0.95, 0.95, 0.95, 0.3, -0.3, -0.95]),
         4: ([0.50, 1.05, 1.60, 1.60, 1.05, 0.5, 0.50], [-0.6, -0.98, -0.6, 0.6, 0.98, 0.6, -0.6])}


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS SignSymmetric InsideSeparatrix LimitedMeansContact\nPROPERTY LimitedNeedsWall\n"
           "CHECK_DEADLOCK FALSE\nCONSTANTS Vals <- SmallVals\n")
    return [{"name": "Boundary", "module": "Boundary", "cfg": cfg}]


def flux(k, s):
    """the maps, by number"""
    p = {1: dict(v2=0.62), 2: dict(v2=0.55, theta=0.12), 3: dict(v1=0.66), 4: dict(), 5: dict(v1=0.7, v2=0.58),
         6: dict(v2=0.75), 7: dict(theta=0.3), 8: dict(v1=0.6, theta=-0.15)}[k]
    R0, Z0 = {1: (1.02, 0.013), 2: (1.1, 0.02), 3: (0.97, -0.03), 4: (1.03, 0.04), 5: (1.05, 0.01), 6: (1.12, 0.05),
              7: (0.93, -0.02), 8: (1.06, -0.04)}[k]
    return Flux(R0, Z0, 0.45 + 0.03 * k, 0.75, A=2.0, s=s, **p)


@functools.lru_cache(None)
def facts(k, s, w):
    """(facts record, tolerance) or None when the case is too close to call"""
    f = flux(k, s)
    R0, R1, Z0, Z1 = DOM
    ax = float(f.psi(f.R0, f.Z0))
    xs = sorted([c for c in f.critical() if c[3] == "X" and R0 + .1 < c[0] < R1 - .1 and Z0 + .1 < c[1] < Z1 - .1],
                key=lambda c: abs(c[2] - ax))
    if len([c for c in f.critical() if c[3] == "X"]) != len(xs):
        return None
    pl, tol, contact = 0.0, 0.0, None
    if w:
        WR, WZ = [np.array(x) for x in WALLS[w]]
        WR, WZ = np.append(WR, WR[0]), np.append(WZ, WZ[0])
        seg = np.hypot(np.diff(WR), np.diff(WZ))
        ds = np.sum(seg) / 499
        pr = np.concatenate([np.linspace(WR[i], WR[i + 1], 800) for i in range(len(seg)) if seg[i] > 0])
        pz = np.concatenate([np.linspace(WZ[i], WZ[i + 1], 800) for i in range(len(seg)) if seg[i] > 0])
        if xs:
            ok = np.abs(pz) < 0.75 * abs(xs[0][1])
            pr, pz = pr[ok], pz[ok]
        pv = f.psi(pr, pz)
        d = np.abs(pv - ax)
        i = int(np.argmin(d))
        pl, contact = float(pv[i]), (pr[i], pz[i])
        # sampling: the best of 500 wall points may be half a spacing away along the wall
        near = np.hypot(pr - pr[i], pz - pz[i]) <= 1.01 * ds
        tol = float(np.max(np.abs(pv[near] - pv[i]))) + 1e-4
        if xs and abs(abs(pl - ax) - abs(xs[0][2] - ax)) < 2 * tol + 1e-3:
            return None
    rec = {"ax": sint(ax, 1e5), "hasx": bool(xs), "px": sint(xs[0][2], 1e5) if xs else 0, "pl": sint(pl, 1e5),
           "edge": sint(float(f.psi(R0, Z0)), 1e5)}
    return rec, tol, contact, xs


def scenarios(tier, seed):
    n, d = (400, 4) if tier == "quick" else (2500, 5)
    cfg = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n NFlux = %d\n" % (d, NFLUX)
    items, r = tlc.generate("BoundaryGen", cfg, workers=1, args=("-simulate", "num=%d" % n, "-depth", str(d + 3), "-seed", str(seed)))
    out, seen = [], set()
    for it in items:
        c = it["conf"]
        w, ks = c["wall"], [(c["f0"], c["wall"])]
        for h in it["hist"]:
            w = h["w"] if h["op"] == "wall" else w
            if h["op"] == "solve":
                ks.append((h["f"], w))
        key = hashlib.sha1(repr(it).encode()).hexdigest()
        if key in seen or any(facts(k, c["s"], v) is None for k, v in ks):
            continue
        seen.add(key)
        out.append({"conf": c, "hist": it["hist"], "id": "bndry-" + key[:10]})
    return out, {"states": r["states"], "transitions": r["states"]}


def execute(scn):
    import freegs
    from freegs import machine
    c = scn["conf"]
    nx, ny = MESH[c["mesh"]]
    R, Z = np.meshgrid(np.linspace(DOM[0], DOM[1], nx), np.linspace(DOM[2], DOM[3], ny), indexing="ij")
    wall = machine.Wall(*[list(x) for x in WALLS[c["wall"]]]) if c["wall"] else None
    tok = machine.Machine([], wall=wall)
    now, wn = {}, [c["wall"]]

    def given(eq, J, psi):
        s = slice(None)
        for e in ((0, s), (-1, s), (s, 0), (s, -1)):
            psi[e] = now["psi"][e]

    def rhs(f):
        """DeltaStar of the map: exact, from second derivatives of the additive polynomial"""
        def d2(x, a, x1, x2):
            return -(2 / a ** 2) * (1 + 2 * x * (1 / x2 - 1 / x1) - 3 * x ** 2 / (x1 * x2))
        u, v = f.uv(R, Z)
        guu, hvv = d2(u, f.a, f.u1, f.u2), d2(v, f.b, f.v1, f.v2)
        lap = f.s * f.A * (guu + hvv)
        return lap - f.grad(R, Z)[0] / R

    f0 = flux(c["f0"], c["s"])
    eq = freegs.Equilibrium(tok, Rmin=DOM[0], Rmax=DOM[1], Zmin=DOM[2], Zmax=DOM[3], nx=nx, ny=ny, boundary=given,
                            psi=f0.psi(R, Z), order=4, check_limited=c["chk0"])

    def observe(k):
        f = flux(k, c["s"])
        rec, tol, contact, xs = facts(k, c["s"], wn[0])
        b = getattr(eq, "psi_bndry", None)
        o = {"ax": sint(eq.psi_axis, 1e5), "b": NONE if b is None else sint(b, 1e5), "lim": bool(eq.is_limited),
             "tol": sint(tol, 1e5) + 5, "contact": True, "mask": True}
        if eq.is_limited and contact is not None:
            try:
                ok = abs(float(f.psi(eq.Rlim, eq.Zlim)) - float(b)) < 1e-4
                WR, WZ = [np.append(x, x[0]) for x in WALLS[wn[0]]]
                dist = min(segdist(eq.Rlim, eq.Zlim, WR[i], WZ[i], WR[i + 1], WZ[i + 1]) for i in range(len(WR) - 1))
                o["contact"] = bool(ok and dist < 1e-6)
            except Exception:
                o["contact"] = False
        # the core: below the boundary flux, on the axis side of every X-point
        if b is not None and eq.mask is not None:
            u, v = f.uv(R, Z)
            pn = (f.psi(R, Z) - f.psi(f.R0, f.Z0)) / (float(b) - f.psi(f.R0, f.Z0))
            core = (pn < 1) & (v > -f.v2) & (v < f.v1) & (u > -f.u2) & (u < f.u1)
            sure = np.abs(pn - 1) > 0.01
            for x in xs:
                sure &= (np.abs(R - x[0]) > 2.2 * (R[1, 0] - R[0, 0])) | (np.abs(Z - x[1]) > 2.2 * (Z[0, 1] - Z[0, 0]))
            m = np.asarray(eq.mask)
            o["mask"] = bool(m.shape == R.shape and np.array_equal(m[sure] > 0.5, core[sure]))
        elif b is not None and (xs or eq.is_limited):
            o["mask"] = False
        return o

    ev = [{"ev": "start", "wall": bool(c["wall"]), "fixed": False, "check": c["chk0"],
           "flux": facts(c["f0"], c["s"], c["wall"])[0], "obs": observe(c["f0"])}]
    last = c["f0"]
    for op in scn["hist"]:
        try:
            if op["op"] == "check":
                eq.check_limited = op["b"]
                ev.append({"ev": "check", "b": op["b"]})
            elif op["op"] == "wall":
                wn[0] = op["w"]
                tok.wall = machine.Wall(*[list(x) for x in WALLS[wn[0]]]) if wn[0] else None
                ev.append({"ev": "wall", "b": bool(wn[0])})
            elif op["op"] == "solve":
                last = op["f"]
                f = flux(last, c["s"])
                now["psi"] = f.psi(R, Z)
                eq.solve(None, Jtor=-rhs(f) / (MU0 * R))
                ev.append({"ev": "solve", "flux": facts(last, c["s"], wn[0])[0], "obs": observe(last)})
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev


def segdist(x, y, x0, y0, x1, y1):
    L = (x1 - x0) ** 2 + (y1 - y0) ** 2
    t = 0 if L == 0 else min(1, max(0, ((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / L))
    return np.hypot(x - x0 - t * (x1 - x0), y - y0 - t * (y1 - y0))
