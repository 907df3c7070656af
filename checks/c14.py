import functools
import numpy as np
from vlib import gen
from vlib.surfaces import Surf
from vlib.oracle import sint, ppm, BIG, MU0
from checks import c15
from checks.c15 import flux, facts, DOM, WALLS

TRACE = "ShapeTrace"
RULE = ("every recorded sequence of solves and questions gives boundary points, safety factors, toroidal fluxes and shape "
        "parameters which spec/Shape.tla and the closed form of the flux map allow, and asking changes nothing")
TRACE_CFG = gen.trace_cfg(done="TraceDone")
MESH = {1: (65, 65), 2: (129, 65), 3: (65, 129)}
FVAC, P0 = 2.0, 3.0e4
QARGS = {1: 0.5, 2: 0.05, 3: [0.2, 0.5, 0.9], 4: np.array([0.1, 0.3, 0.7]), 5: None, 6: [0.005, 0.4, 0.8], 7: (0.35, 0.6), 8: [0.45], 9: np.array([[0.3], [0.6]])[:, 0]}
RARGS = {1: [0.0, 0.25, 0.5, 0.75, 0.9], 2: [0.6], 3: [0.3, 0.7], 4: [0.9, 0.2]}
LIMIT = 240


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Halves Mirrored Moved StartIrrelevant Positive\nPROPERTY AskingChangesNothing\nCHECK_DEADLOCK FALSE\n")
    return [{"name": "Shape", "module": "Shape", "cfg": cfg}]


def scen(what, n, d, seed, prefix):
    out, st = gen.simulate("ShapeGen", 'CONSTANTS Depth = %d\n NFlux = 8\n What = "%s"\n' % (d, what), n, d, seed, prefix)
    keep = []
    for s in out:
        h0 = s["hist"][0]
        ks = [h0["f"]] + [h["f"] for h in s["hist"] if h["op"] == "solve"]
        if all(facts(k, h0["s"], h0["wall"]) is not None for k in ks):
            keep.append(s)
    return keep, st


def scenarios(tier, seed):
    n, d = (90, 5) if tier == "quick" else (1100, 9)
    out, st = scen("surf", n, d, seed, "shape")
    ask = [{"op": "sep", "n": 64}, {"op": "shape", "n": 180}] + [{"op": "q", "a": a} for a in QARGS] + [{"op": "rho", "a": a} for a in RARGS]
    ask += [{"op": "inout", "z": z} for z in (-1, 0, 1)] + [{"op": "wall"}]
    for k, w, s, c in ((1, 0, 1, False), (4, 1, -1, True), (2, 2, 1, True), (5, 3, -1, False), (7, 2, 1, True)):
        if facts(k, s, w) is not None:
            for i in range(0, len(ask), 3):
                out.append({"id": "shape-all-%d-%d-%d" % (k, w, i), "hist": [
                    {"op": "make", "mesh": 1 + k % 3, "wall": w, "s": s, "f": k, "chk": c, "fs": -s}] + ask[i:i + 3]})
    return out, st


class P:
    """profiles with closed forms"""

    def __init__(self, fs):
        self.fs = fs

    def f(self, x):
        return self.fs * FVAC * (1 + 0.08 * (1 - np.asarray(x, float)))

    def p(self, x):
        return P0 * (1 - np.asarray(x, float)) ** 2


class Real:
    def __init__(self, h0):
        import freegs
        from freegs import machine
        nx, ny = MESH[h0["mesh"]]
        self.s, self.wall, self.pr = h0["s"], h0["wall"], P(h0["fs"])
        R, Z = np.meshgrid(np.linspace(DOM[0], DOM[1], nx), np.linspace(DOM[2], DOM[3], ny), indexing="ij")
        self.R, self.Z = R, Z
        wall = machine.Wall(*[list(x) for x in WALLS[self.wall]]) if self.wall else None
        self.now = None
        self.eq = freegs.Equilibrium(machine.Machine([], wall=wall), Rmin=DOM[0], Rmax=DOM[1], Zmin=DOM[2], Zmax=DOM[3], nx=nx, ny=ny,
                                     boundary=self.given, psi=flux(h0["f"], self.s).psi(R, Z), order=4)
        self.prof = freegs.jtor.ProfilesPprimeFfprime(lambda x: 0 * x, lambda x: 0 * x, h0["fs"] * FVAC, p_func=self.pr.p, f_func=self.pr.f)
        self.solve(h0["f"], h0["chk"])

    def given(self, eq, J, psi):
        s = slice(None)
        for e in ((0, s), (-1, s), (s, 0), (s, -1)):
            psi[e] = self.now[e]

    def solve(self, k, chk):
        f = flux(k, self.s)
        self.f = f
        self.now = f.psi(self.R, self.Z)
        self.eq.check_limited = chk

        self.eq.solve(self.prof, Jtor=self.jtor(self.R, self.Z))
        b = self.eq.psi_bndry
        self.sf = None if b is None else Surf(f, b)
        self.xs = [c for c in f.critical() if c[3] == "X"]

    def jtor(self, R, Z):
        f = self.f

        def d2(x, a, x1, x2):
            return -(2 / a ** 2) * (1 + 2 * x * (1 / x2 - 1 / x1) - 3 * x ** 2 / (x1 * x2))
        u, v = f.uv(R, Z)
        lap = f.s * f.A * (d2(u, f.a, f.u1, f.u2) + d2(v, f.b, f.v1, f.v2))
        return -(lap - f.grad(R, Z)[0] / R) / (MU0 * R)

    def state(self):
        e = self.eq
        return (e.plasma_psi.copy(), None if e.mask is None else np.array(e.mask), e.psi_bndry, e.psi_axis, e.is_limited, e.plasmaCurrent())

    def unchanged(self, a):
        b = self.state()
        return bool(np.array_equal(a[0], b[0]) and (a[1] is None) == (b[1] is None) and (a[1] is None or np.array_equal(a[1], b[1])) and a[2:] == b[2:])


def execute(scn):
    r = Real(scn["hist"][0])
    ev = [{"ev": "make"}]
    for h in scn["hist"][1:]:
        try:
            if h["op"] == "solve":
                r.solve(h["f"], h["chk"])
                ev.append({"ev": "solve"})
                continue
            if r.sf is None:
                continue            # no X-point and no limiter: there is no boundary to ask about
            before = r.state()
            e = globals()["ask_" + h["op"]](r, h)
            if e is not None:
                e["ev"], e["same"] = h["op"], r.unchanged(before)
                ev.append(e)
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev


def ask_sep(r, h):
    p = np.asarray(r.eq.separatrix(npoints=h["n"]), float)
    f = r.f
    if p.ndim != 2 or p.shape[1] != 2 or not np.all(np.isfinite(p)):
        return {"n": h["n"], "len": -1, "psierr": BIG, "angerr": BIG}
    th = np.unwrap(np.arctan2(p[:, 1] - f.Z0, p[:, 0] - f.R0))
    st = np.abs(np.diff(th)) * len(p) / (2 * np.pi)
    mono = np.all(np.diff(th) > 0) or np.all(np.diff(th) < 0)
    return {"n": h["n"], "len": len(p), "psierr": ppm(r.sf.norm(p[:, 0], p[:, 1]) - 1), "angerr": ppm(st - 1) if mono else BIG}


def ask_shape(r, h):
    e, n = r.eq, h["n"]
    p = np.asarray(e.separatrix(npoints=n), float)
    ax = e.geometricAxis(npoints=n)
    m = e.magneticAxis()
    sh = e.shafranovShift(npoints=n)
    L, K = 1e4, 1e4
    return {"pts": [[sint(a, L), sint(b, L)] for a, b in p], "R0": sint(e.Rgeometric(npoints=n), L), "Z0": sint(e.Zgeometric(npoints=n), L),
            "axR": sint(ax[0], L), "axZ": sint(ax[1], L), "a": sint(e.minorRadius(npoints=n), L), "A": sint(e.aspectRatio(npoints=n), K),
            "iA": sint(e.inverseAspectRatio(npoints=n), K), "k": sint(e.elongation(npoints=n), K), "ku": sint(e.elongationUpper(npoints=n), K),
            "kl": sint(e.elongationLower(npoints=n), K), "du": sint(e.triangularityUpper(npoints=n), K), "dl": sint(e.triangularityLower(npoints=n), K),
            "d": sint(e.triangularity(npoints=n), K), "sR": sint(sh[0], L), "sZ": sint(sh[1], L), "magR": sint(m[0], L), "magZ": sint(m[1], L),
            "trueR": sint(r.f.R0, L), "trueZ": sint(r.f.Z0, L)}


def ask_q(r, h):
    a = QARGS[h["a"]]
    arg = a.copy() if isinstance(a, np.ndarray) else (list(a) if isinstance(a, list) else a)
    if a is None:
        x, q = r.eq.q()
        x, q = np.asarray(x, float), np.asarray(q, float)
        kind = x.ndim == 1 and len(x) > 10 and bool(np.all(np.diff(x) > 0)) and x[0] > 0 and x[-1] < 1 and q.shape == x.shape
        sel = np.linspace(2, len(x) - 12, 6).astype(int)
        x, q = x[sel], q[sel]
    else:
        q = r.eq.q(arg)
        x = np.atleast_1d(np.asarray(a, float))
        kind = (np.ndim(q) == 0) if x.size == 1 else np.shape(q) == x.shape
        kind = bool(kind and (a == arg if not isinstance(a, np.ndarray) else np.array_equal(a, arg)))
        q = np.atleast_1d(np.asarray(q, float))
    # next to the axis the analytic surface is too small for the interpolation: its neighbour will do
    want = np.array([r.sf.q(max(y, 0.01), float(r.pr.f(max(y, 0.01)))) for y in x])
    return {"err": ppm(q / want - 1) if q.shape == want.shape else BIG, "kind": bool(kind)}


def ask_rho(r, h):
    x = np.array(RARGS[h["a"]])
    psi = r.sf.ax + x * (r.sf.b - r.sf.ax)
    t = np.atleast_1d(r.eq.tor_flux(psi))
    rho = np.atleast_1d(r.eq.rhotor(psi))

    def phi(y):
        return r.sf.integral(lambda R, Z, p: r.pr.f(p) / R, x=y) if y > 0 else 0.0
    full = phi(1.0)
    want = np.array([phi(y) for y in x])
    return {"err": ppm(t - want, full) if t.shape == want.shape else BIG,
            "rerr": ppm(rho - np.sqrt(want / full)) if rho.shape == want.shape else BIG}


def ask_inout(r, h):
    f = r.f
    zz = r.Z[0]
    up, dn = r.sf.points(1.0)[1].max(), r.sf.points(1.0)[1].min()
    z = f.Z0 + h["z"] * 0.3 * (up - f.Z0 if h["z"] > 0 else f.Z0 - dn)
    z = float(zz[np.argmin(np.abs(zz - z))])
    got = r.eq.innerOuterSeparatrix(z)
    R, Z, _, _ = r.sf.points(1.0, 20000)
    near = []
    for lo in (True, False):
        # crossings of the boundary with this height
        i = np.nonzero((Z - z) * (np.roll(Z, -1) - z) <= 0)[0]
        c = [R[k] + (R[(k + 1) % len(R)] - R[k]) * (0 if Z[(k + 1) % len(R)] == Z[k] else (z - Z[k]) / (Z[(k + 1) % len(R)] - Z[k])) for k in i]
        near.append(min(c) if lo else max(c))
    # the row of the mesh has to pass the axis on both sides
    if not near[0] < f.R0 - 0.05 or not near[1] > f.R0 + 0.05:
        return None
    return {"err": ppm(np.asarray(got, float) - np.array(near))}


def ask_wall(r, h):
    if not r.wall:
        return None
    R, Z, _, _ = r.sf.points(1.0, 2000)
    WR, WZ = [np.append(x, x[0]) for x in WALLS[r.wall]]
    d = np.min([[c15.segdist(a, b, WR[i], WZ[i], WR[i + 1], WZ[i + 1]) for a, b in zip(R[::4], Z[::4])] for i in range(len(WR) - 1)])
    from checks.c05 import inside
    inn = inside(list(zip(WR[:-1], WZ[:-1])), R, Z)
    want = bool(np.any(inn) and np.any(~inn))
    if want:
        # how deep it goes through the wall
        out = max(min(c15.segdist(a, b, WR[i], WZ[i], WR[i + 1], WZ[i + 1]) for i in range(len(WR) - 1)) for a, b in zip(R[~inn][::4], Z[~inn][::4]))
        if out < 0.03:
            return None
    elif d < 0.01:
        return None
    return {"got": bool(r.eq.intersectsWall()), "want": want}
