import contextlib
import functools
import io
import numpy as np
from scipy.interpolate import RectBivariateSpline
from vlib import gen, plasma
from vlib.oracle import ppm, sint, BIG

TRACE = "GridTrace"
RULE = ("every recorded history of refining, coarsening, changing the domain and solving is a behaviour of spec/Grid.tla: each "
        "equilibrium made has the mesh, settings, current and flux the specification derives, and no other one changes")
TRACE_CFG = gen.trace_cfg("CONSTANT MaxN = 3\n", done="TraceDone")
DOM = {1: (0.4, 1.8, -0.9, 0.9), 2: (0.6, 1.7, -0.7, 0.8)}
TDOM = {1: (0.1, 2.0, -1.0, 1.0), 2: (0.05, 2.2, -1.2, 1.1), 3: (0.15, 1.9, -0.9, 1.0), 4: (0.1, 2.1, -1.1, 1.15)}
UP = {0: 0.0, 1: 1.2, 2: -1.1}     # the whole tokamak shifted, so that the domain can end at Z = 0
# order, boundary, check_limited
SET = {1: (2, "free", False), 2: (4, "free", False), 3: (4, "fixed", True), 4: (2, "hagenow", False), 5: (4, "own", False), 6: (2, "own", True)}
TSET = {1: (2, "free", False), 2: (4, "free", False), 3: (4, "hagenow", False)}
XS = np.array([0.1, 0.5, 0.8])


def models(tier):
    n = 3 if tier == "quick" else 4
    cfg = ("SPECIFICATION Spec\nINVARIANTS CoarsenUndoesRefine SettingsKept NeverBetterThanItsSource\nPROPERTY OneAtATime\n"
           "CHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\n" % n)
    return [{"name": "Grid", "module": "Grid", "cfg": cfg}]


def scenarios(tier, seed):
    n, d, m, e = (120, 8, 24, 5) if tier == "quick" else (1200, 12, 200, 7)
    a, st = gen.simulate("GridGen", 'CONSTANTS Depth = %d\n What = "map"\n MaxN = 3\n' % d, n, d, seed, "grid")
    b, st2 = gen.simulate("GridGen", 'CONSTANTS Depth = %d\n What = "tok"\n MaxN = 3\n' % e, m, e, seed + 1, "gtok")
    return a + b, {"states": (st["states"] or 0) + (st2["states"] or 0), "transitions": st["transitions"] + st2["transitions"]}


def field(k, R, Z):
    return {1: 0.3 * np.sin(2 * R) * np.cos(1.5 * Z + 0.2) + 0.1 * R, 2: np.exp(-((R - 1.1) ** 2 + (Z - 0.1) ** 2) / 0.25),
            3: 0.2 * R ** 2 - 0.1 * Z ** 2 * R + 0.05 * Z}[k]


def own(eq, Jtor, psi):
    """a boundary condition of the caller's"""
    v = 0.01 * eq.R + 0.02 * eq.Z
    for sl in ((0, slice(None)), (-1, slice(None)), (slice(None), 0), (slice(None), -1)):
        psi[sl] = v[sl]


def bnd(name):
    import freegs.boundary as b
    return {"free": b.freeBoundary, "fixed": b.fixedBoundary, "hagenow": b.freeBoundaryHagenow, "own": own}[name]


def jtor(k, eq):
    return 1e5 * (k - 3) * (-1 if k == 6 else 1) * plasma.blob(1 + k % 2, eq.R, eq.Z)


def wall():
    from freegs.machine import Wall
    return Wall([0.3, 1.9, 1.9, 0.3], [-0.95, -0.95, 0.95, 0.95])


@functools.lru_cache(None)
def machine_currents():
    return {"P1L": 1e4, "P1U": 1e4, "P2L": -5e4, "P2U": -5e4}


def shifted(D, up):
    return D[0], D[1], round(D[2] + UP[up], 9), round(D[3] + UP[up], 9)


def solved(nx, ny, s, up):
    import freegs
    order, b, lim = TSET[s]
    t = freegs.machine.TestTokamak()
    h = UP[up]
    if h:
        for _, c in t.coils:
            c.Z += h
        t.wall.Z = [z + h for z in t.wall.Z]
    eq = freegs.Equilibrium(t, *shifted(TDOM[1], up), nx=nx, ny=ny, boundary=bnd(b), order=order, check_limited=lim)
    prof = freegs.jtor.ConstrainPaxisIp(eq, 1e3, 2e5, 2.0)
    con = freegs.control.constrain(xpoints=[(1.1, -0.6 + h), (1.1, 0.8 + h)], isoflux=[(1.1, -0.6 + h, 1.1, 0.6 + h)])
    with contextlib.redirect_stdout(io.StringIO()):
        freegs.solve(eq, prof, con, maxits=60, rtol=1e-4)
    return eq, prof


def settings(eq, table, dom):
    for d, v in dom.items():
        if (eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax) == v and abs(eq.R[-1, 0] - v[1]) < 1e-9 and abs(eq.R[0, 0] - v[0]) < 1e-9 and \
                abs(eq.Z[0, 0] - v[2]) < 1e-9 and abs(eq.Z[0, -1] - v[3]) < 1e-9:
            return d
    return 0


def execute(scn):
    import freegs
    from freegs.equilibrium import refine, coarsen, newDomain, Equilibrium
    out = []
    try:
        h0 = scn["hist"][0]
        tok = h0["how"] == "tok"
        dom, table = ({k: shifted(v, h0["up"]) for k, v in TDOM.items()}, TSET) if tok else (DOM, SET)
        unit = 1.0 if not tok else 100.0
        given = arr = None
        if tok:
            eq, profiles = solved(h0["nx"], h0["ny"], h0["set"], h0["up"])
        else:
            mach = freegs.machine.TestTokamak()
            mach.wall = wall()
            for c, v in machine_currents().items():
                mach[c].current = v
            D = dom[h0["dom"]]
            R, Z = np.meshgrid(np.linspace(D[0], D[1], h0["nx"]), np.linspace(D[2], D[3], h0["ny"]), indexing="ij")
            given = field(h0["f"], R, Z)
            arr = given.copy()
            o_, b_, l_ = SET[h0["set"]]
            eq = Equilibrium(mach, *D, nx=h0["nx"], ny=h0["ny"], boundary=bnd(b_), psi=given, current=1234.0, order=o_, check_limited=l_)
        mach0 = eq.tokamak
        set0 = table[h0["set"]]
        cur0 = [c.current for _, c in mach0.coils if hasattr(c, "current")]
        objs, src, prev = [eq], [None], [None]
        # the flux each one should hold: a function of (R, Z)
        if tok:
            f0 = RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.plasma_psi)
            ref = [lambda R, Z: f0(R, Z, grid=False)]
            ax = eq.magneticAxis()
            p0 = (np.array(eq.pressure(XS)), np.array(eq.fpol(XS)))
        else:
            ref = [lambda R, Z: field(h0["f"], R, Z)]

        def seen(j):
            e = objs[j]
            s = h0["set"] if (e.order, e.check_limited) == (set0[0], set0[2]) and e.tokamak is mach0 and \
                [c.current for _, c in mach0.coils if hasattr(c, "current")] == cur0 else 0
            st = (e.plasma_psi.copy(), e.plasmaCurrent(), e.R.copy(), e.Z.copy(),
                  [getattr(e, k, None) for k in ("psi_axis", "psi_bndry")], np.array(getattr(e, "mask", None), dtype=float).copy())
            same = prev[j] is None or (np.array_equal(prev[j][0], st[0]) and prev[j][1] == st[1] and np.array_equal(prev[j][2], st[2]) and np.array_equal(prev[j][3], st[3])
                                       and prev[j][4] == st[4] and np.array_equal(prev[j][5], st[5], equal_nan=True))
            prev[j] = st
            nx, ny = e.plasma_psi.shape
            if (e.nx, e.ny) != (nx, ny) or e.R.shape != (nx, ny) or e.Z.shape != (nx, ny) or e.psi().shape != (nx, ny):
                nx = ny = 0
            return {"nx": nx, "ny": ny, "dom": settings(e, table, dom), "set": s, "ip": sint(e.plasmaCurrent() / unit), "same": bool(same)}

        def obs():
            return {"o": [seen(j) for j in range(len(objs))], "given": bool(given is None or np.array_equal(given, arr))}

        def far(e, f):
            a = e.plasma_psi
            sc = np.ptp(f(e.R, e.Z))
            # also between the points
            rr = np.linspace(e.R[0, 0], e.R[-1, 0], 24)[1:-1]
            zz = np.linspace(e.Z[0, 0], e.Z[0, -1], 22)[1:-1]
            RR, ZZ = np.meshgrid(rr, zz, indexing="ij")
            b = e.psiRZ(RR, ZZ) - e.tokamak.psi(RR, ZZ)
            return a - f(e.R, e.Z), b - f(RR, ZZ), sc, RR, ZZ

        def prof(e):
            if not tok:
                return True
            p = (np.array(e.pressure(XS)), np.array(e.fpol(XS)))
            return bool(max(np.max(np.abs(p[0] - p0[0]) / p0[0][0]), np.max(np.abs(p[1] / p0[1] - 1))) < 0.03)

        def near(R, Z):
            return ((R - ax[0]) / 0.35) ** 2 + ((Z - ax[1]) / 0.5) ** 2 < 1

        def own_ref(j):
            sp = RectBivariateSpline(objs[j].R[:, 0], objs[j].Z[0, :], objs[j].plasma_psi)
            ref[j] = lambda R, Z: sp(R, Z, grid=False)

        ev = {"ev": "make", "nx": h0["nx"], "ny": h0["ny"], "dom": h0["dom"], "set": h0["set"], "f": 9 if tok else h0["f"], "ip": sint(eq.plasmaCurrent() / unit)}
        ev.update(obs())
        out.append(ev)
        for h in scn["hist"][1:]:
            i = h["i"] - 1
            ev = dict(h, ev=h["op"])
            del ev["op"]
            e = objs[i]
            if h["op"] == "step":
                e.solve(profiles if h["whose"] == 0 else e._profiles)
                a, b, sc, RR, ZZ = far(e, ref[i])
                ev["far"] = max(ppm(a[near(e.R, e.Z)], sc), ppm(b[near(RR, ZZ)], sc))
                ev["prof"] = prof(e)
                own_ref(i)
            elif h["op"] == "solve":
                e.solve(None, Jtor=jtor(h["f"], e))
                fresh = Equilibrium(mach0, e.Rmin, e.Rmax, e.Zmin, e.Zmax, nx=e.nx, ny=e.ny, boundary=bnd(set0[1]), order=set0[0], check_limited=set0[2],
                                    psi=prev[i][0])
                fresh.solve(None, Jtor=jtor(h["f"], fresh))
                sp = RectBivariateSpline(fresh.R[:, 0], fresh.Z[0, :], fresh.plasma_psi)
                ref[i] = (lambda sp: lambda R, Z: sp(R, Z, grid=False))(sp)
                sc = np.ptp(fresh.plasma_psi)
                ev["far"] = max(ppm(e.plasma_psi - fresh.plasma_psi, sc), ppm(e.psi() - mach0.psi(e.R, e.Z) - fresh.plasma_psi, sc))
                ev["ip"] = sint(fresh.plasmaCurrent() / unit)
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    if h["op"] == "refine":
                        g = refine(e)
                    elif h["op"] == "refineto":
                        g = refine(e, **{k: h[k] for k in ("nx", "ny") if h[k]})
                    elif h["op"] == "coarsen":
                        g = coarsen(e)
                    else:
                        d = dict(zip(("Rmin", "Rmax", "Zmin", "Zmax"), dom[h["dom"]]))
                        old = dict(zip(d, (e.Rmin, e.Rmax, e.Zmin, e.Zmax)))
                        d = {k: v for k, v in d.items() if v != old[k]}
                        g = newDomain(e, **d, **{k: h[k] for k in ("nx", "ny") if h[k]})
                objs.append(g)
                src.append(i)
                prev.append(None)
                ref.append(ref[i])
                a, b, sc, RR, ZZ = far(g, ref[i])
                if h["op"] == "domain":
                    ev["far"] = max(ppm(a[near(g.R, g.Z)], sc), ppm(b[near(RR, ZZ)], sc))
                    own_ref(len(objs) - 1)
                else:
                    ev["far"] = max(ppm(a, sc), ppm(b, sc))
                    n = 0.0
                    A, B = e.plasma_psi, g.plasma_psi
                    ia = {round(x, 7): k for k, x in enumerate(e.R[:, 0])}
                    ja = {round(x, 7): k for k, x in enumerate(e.Z[0, :])}
                    for p, x in enumerate(g.R[:, 0]):
                        for q, y in enumerate(g.Z[0, :]):
                            u, v = ia.get(round(x, 7)), ja.get(round(y, 7))
                            if u is not None and v is not None:
                                n = max(n, abs(A[u, v] - B[p, q]))
                    ev["node"] = ppm(n, sc)
                ev["prof"] = prof(g)
            ev.update(obs())
            out.append(ev)
        return out
    except Exception as x:
        return out + [gen.crash(x)]
