import functools
import hashlib
import io
import contextlib
import numpy as np
from vlib import gen, plasma
from vlib.oracle import loops, rect_quad, sint, BIG

TRACE = "SensorsTrace"
RULE = ("every recorded history of currents, moves, solves, switching and measuring leaves the sensors showing what "
        "spec/Sensors.tla computes from its own state: the linear response at the last measurement taken while on")
TRACE_CFG = gen.trace_cfg(done="TraceDone")
D = (0.45, 1.85, -0.9, 0.9)
NX, NY = 33, 65
UNIT0 = UNIT = 1e4
AMP0 = AMP = 1e5
SCALES = [1.0, 1.0, 1e-7, 30.0]
BASE = {1: [3, -2, 1, 2, -1, 4], 2: [0, 0, 0, 0, 0, 0]}
APOS = {1: (2.2, 0.6), 2: (2.6, 1.4)}
# polygons of the Rogowski sensors
POLY = [
    [(0.5, -0.8), (1.75, -0.8), (1.75, 0.8), (0.5, 0.8)],                       # the plasma, no coil
    [(2.0, 0.3), (2.0, 1.0), (2.4, 1.0), (2.4, 0.3)],                           # coil A (clockwise) when at position 1
    [(2.1, -0.9), (2.25, -0.9), (2.25, -0.2), (2.1, -0.2)],                     # half of B
    [(0.1, -2.0), (3.0, -2.0), (3.0, 2.0), (0.1, 2.0)],                         # everything
    # a C: part of the solenoid, two lower filaments of E, part of the plasma
    [(0.2, -1.7), (1.6, -1.7), (1.6, -1.35), (0.9, -1.35), (0.9, -0.3), (1.2, -0.3), (1.2, 0.3), (0.2, 0.3)],
    [(0.5, 1.9), (1.8, 1.9), (1.15, 1.2)],                                      # a triangle with the upper coil of C
]
PROBES = [(0.6, 0.7, 0.0), (1.7, -0.7, np.pi / 2), (1.65, 0.6, 2.1)]
LOOPS = [(0.55, -0.6), (1.7, 0.75)]
KIND = ["rog"] * 6 + ["probe"] * 3 + ["loop"] * 2


def models(tier):
    cfg = "SPECIFICATION Spec\nINVARIANTS Superposition Enclosing\nPROPERTIES OffKeeps OnlyTake\nCHECK_DEADLOCK FALSE\n"
    return [{"name": "Sensors", "module": "Sensors", "cfg": cfg, "kw": {"workers": 4}}]


def scenarios(tier, seed):
    n, d = (120, 9) if tier == "quick" else (1200, 16)
    out, st = gen.simulate("SensorsGen", "CONSTANT Depth = %d\n" % d, n, d, seed, "sens")
    # every sensor on, everything live, measured with and without plasma
    for b in (1, 2):
        out.append({"id": "sens-all-%d" % b, "hist": [{"op": "make", "base": b, "off": [False] * 11}]
                    + [{"op": "cur", "j": j, "v": j} for j in range(1, 7)]
                    + [{"op": "take", "how": "none"}, {"op": "solve", "a": 3, "s": 1}, {"op": "take", "how": "eq"},
                       {"op": "move", "p": 2}, {"op": "take", "how": "print"}, {"op": "solve", "a": -2, "s": 2},
                       {"op": "take", "how": "eq"}, {"op": "cur", "j": 3, "v": -4}, {"op": "take", "how": "printnone"},
                       {"op": "take", "how": "eq"}]})
    return out, st


EFIL = [(1.0, 1.45), (1.1, 1.5), (1.35, 1.55)]
CFIL = [(2.55 + a, 0.1 + b) for a in (-0.02, 0.02) for b in (-0.03, 0.0, 0.03)]


def fils(pos):
    return [[(*APOS[pos], 3.0)],
            [(2.25 + a, -0.55 + b, 2 * w) for a, b, w in rect_quad(-0.05, 0.05, -0.06, 0.06)],
            [(1.15, 1.6, 2.0)] + [(r, z, -0.5 * 4 / 6) for r, z in CFIL],
            [(0.3, z, 1.0) for z in np.linspace(-0.85, 0.75, 10)],
            [(r, z, 1.0) for r, z in EFIL] + [(r, -z, -1.0) for r, z in EFIL],
            [(2.4, -1.3, 5.0)]]


def inside(poly, R, Z):
    R, Z = np.asarray(R, float), np.asarray(Z, float)
    c = np.zeros(R.shape, bool)
    n = len(poly)
    for k in range(n):
        (x1, y1), (x2, y2) = poly[k], poly[(k + 1) % n]
        if y1 == y2:
            continue
        cr = ((y1 > Z) != (y2 > Z)) & (R < (x2 - x1) * (Z - y1) / (y2 - y1) + x1)
        c ^= cr
    return c


@functools.lru_cache(None)
def tables():
    """response of each sensor per unit; scaled to integers; exact forms, no code of the project"""
    G = np.zeros((2, 11, 6))
    P = np.zeros((2, 11))
    g = 1500
    dr, dz = (D[1] - D[0]) / g, (D[3] - D[2]) / g
    RR, ZZ = np.meshgrid(D[0] + dr * (np.arange(g) + 0.5), D[2] + dz * (np.arange(g) + 0.5), indexing="ij")
    for p in (1, 2):
        F = fils(p)
        for j, f in enumerate(F):
            for i, poly in enumerate(POLY):
                if j == 1:
                    # the block is cut along R = 2.25 by sensor 3 and lies completely in 4
                    frac = {2: 0.5, 3: 1.0}.get(i, 0.0)
                    G[p - 1, i, j] = 2 * frac
                else:
                    G[p - 1, i, j] = sum(w for r, z, w in f if inside(poly, r, z))
            for i, (r, z, th) in enumerate(PROBES):
                v = loops(f, r, z)
                G[p - 1, 6 + i, j] = v[1] * np.cos(th) + v[2] * np.sin(th)
            for i, (r, z) in enumerate(LOOPS):
                G[p - 1, 9 + i, j] = loops(f, r, z)[0]
    for s in (1, 2):
        J = plasma.blob(s, RR, ZZ)
        for i, poly in enumerate(POLY):
            P[s - 1, i] = np.sum(J * inside(poly, RR, ZZ)) * dr * dz
        for i, (r, z, th) in enumerate(PROBES):
            v = plasma.flux(s, r, z)
            P[s - 1, 6 + i] = v[1] * np.cos(th) + v[2] * np.sin(th)
        for i, (r, z) in enumerate(LOOPS):
            P[s - 1, 9 + i] = plasma.flux(s, r, z)[0]
    G *= UNIT
    P *= AMP
    scale = np.maximum(np.max(np.abs(G), axis=(0, 2)), np.max(np.abs(P), axis=0))
    k = 1e6 / scale
    tol = [12000 if KIND[i] != "rog" else 8000 for i in range(11)]
    tol = [int(t * max(1e-9, np.max(np.abs(P[:, i])) / scale[i])) for i, t in enumerate(tol)]
    return k, {"G": [[[sint(G[p, i, j] * k[i]) for j in range(6)] for i in range(11)] for p in range(2)],
               "P": [[sint(P[s, i] * k[i]) for i in range(11)] for s in range(2)], "tol": tol, "kind": KIND}


def execute(scn):
    import freegs
    from freegs import machine as M
    h0 = scn["hist"][0]
    base = BASE[h0["base"]]
    off = h0["off"]
    k, tab = tables()
    # everything is linear: the same history at another scale of currents
    sc = SCALES[int(hashlib.sha1(scn["id"].encode()).hexdigest(), 16) % len(SCALES)]
    k = k / sc
    UNIT, AMP = UNIT0 * sc, AMP0 * sc
    b = (2.25, -0.55, 0.05, 0.06)
    given = 2.5
    sens = [M.RogowskiSensor([r for r, z in q], [z for r, z in q], name="rog%d" % i if i % 2 else None, status=not off[i],
                             measurement=None if i % 2 else given) for i, q in enumerate(POLY)]
    sens += [M.PoloidalFieldSensor(r, z, th, name="probe%d" % i, status=not off[6 + i]) for i, (r, z, th) in enumerate(PROBES)]
    sens += [M.FluxLoopSensor(r, z, status=not off[9 + i], weight=2) for i, (r, z) in enumerate(LOOPS)]
    A = M.Coil(*APOS[1], current=base[0] * UNIT, turns=3)
    tok = M.Machine([
        ("A", A),
        ("B", M.ShapedCoil([(b[0] - b[2], b[1] - b[3]), (b[0] + b[2], b[1] - b[3]), (b[0] + b[2], b[1] + b[3]), (b[0] - b[2], b[1] + b[3])],
                           current=base[1] * UNIT, turns=2)),
        ("C", M.Circuit([("u", M.Coil(1.15, 1.6, turns=2), 1.0), ("f", M.FilamentCoil([r for r, z in CFIL], [z for r, z in CFIL], turns=4), -0.5)],
                        current=base[2] * UNIT)),
        ("D", M.Solenoid(0.3, -0.85, 0.75, 10, current=base[3] * UNIT)),
        ("E", M.MultiCoil([r for r, z in EFIL], [z for r, z in EFIL], mirror=True, polarity=[1.0, -1.0], current=base[4] * UNIT)),
        ("F", M.MultiCoil(2.4, -1.3, turns=5, current=base[5] * UNIT))], sensors=sens)
    names = "ABCDEF"
    eq = freegs.Equilibrium(tok, Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=NX, ny=NY, psi=np.zeros((NX, NY)))
    R, Z = np.meshgrid(np.linspace(D[0], D[1], NX), np.linspace(D[2], D[3], NY), indexing="ij")
    state = {"solved": False}

    def val():
        return [-BIG if s.measurement is None else sint(s.measurement, k[i]) for i, s in enumerate(sens)]

    def icur():
        return [sint(tok[x].current / UNIT) if abs(tok[x].current / UNIT - round(tok[x].current / UNIT)) < 1e-6 else BIG for x in names]
    ev = [{"ev": "make", "cur": icur(), "on": [bool(s.status) for s in sens], "v": val(), "tab": tab}]
    for h in scn["hist"][1:]:
        op = h["op"]
        try:
            if op == "cur":
                tok[names[h["j"] - 1]].current = h["v"] * UNIT
                ev.append({"ev": "cur", "j": h["j"], "v": h["v"]})
            elif op == "move":
                A.R, A.Z = APOS[h["p"]]
                ev.append({"ev": "move", "p": h["p"]})
                # the equilibrium tabulates the coils' flux when it is made
                ps = eq.plasma_psi.copy()
                J = getattr(eq, "Jtor", None)
                cur = eq.plasmaCurrent() if state["solved"] else 0.0
                eq = freegs.Equilibrium(tok, Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=NX, ny=NY, psi=ps, current=cur)
                if state["solved"]:
                    eq.solve(None, Jtor=J)
            elif op == "solve":
                eq.solve(None, Jtor=h["a"] * AMP * plasma.blob(h["s"], R, Z))
                state["solved"] = True
                ev.append({"ev": "solve", "a": h["a"], "s": h["s"]})
            elif op == "switch":
                sens[h["i"] - 1].status = h["b"]
                ev.append({"ev": "switch", "i": h["i"], "b": h["b"], "v": val()})
            elif op in ("take", "one"):
                w = h["how"] in ("eq", "print") if op == "take" else h["w"]
                w = w and state["solved"]
                i = 0 if op == "take" else h["i"]
                before = eq.psi().copy()
                q = eq if w else None
                printed = True
                if i:
                    sens[i - 1].get_measure(tok, q)
                elif h["how"].startswith("print"):
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        tok.printMeasurements(eq=q)
                    t = buf.getvalue()
                    printed = all(str(s.measurement) in t and (s.name is None or s.name in t) for s in sens)
                elif w:
                    tok.takeMeasurements(eq)
                else:
                    tok.takeMeasurements()
                ev.append({"ev": "take", "i": i, "w": w, "v": val(), "cur": icur(), "printed": bool(printed),
                           "same": bool(np.array_equal(before, eq.psi()))})
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev
