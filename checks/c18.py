import contextlib
import functools
import io
import re
import numpy as np
from vlib import gen, plasma
from vlib.oracle import loops, rect_quad, sint, BIG, MU0

TRACE = "ForcesTrace"
RULE = ("in every recorded history of currents, moves and solves, the forces reported are those spec/Forces.tla computes from "
        "its own state: each conductor's current times the field of everything else, plus its hoop force")
TRACE_CFG = gen.trace_cfg(done="TraceDone")
D = (0.15, 3.0, -1.9, 1.9)
NX, NY = 65, 65
UNIT = 2e4          # half of it is the unit of conductor current in the specification
AMP = 3e5
JC = 3.5e9
BASE = {1: [3, -2, 1, 2, -1, 4], 2: [0, 0, 0, 0, 0, 0]}
APOS = {1: (2.2, 0.6), 2: (2.7, 0.0)}
EFIL = [(1.0, 1.45), (1.1, 1.5), (1.35, 1.55)]
CFIL = [(2.55 + a, 0.1 + b) for a in (-0.02, 0.02) for b in (-0.03, 0.0, 0.03)]


def models(tier):
    cfg = "SPECIFICATION Spec\nINVARIANTS ActionIsReaction NoCurrentNoForce HoopOutward\nPROPERTY ReversalSymmetric\nCHECK_DEADLOCK FALSE\n"
    return [{"name": "Forces", "module": "Forces", "cfg": cfg, "kw": {"workers": 2}}]


def scenarios(tier, seed):
    n, d = (110, 9) if tier == "quick" else (1200, 16)
    out, st = gen.simulate("ForcesGen", "CONSTANT Depth = %d\n" % d, n, d, seed, "force")
    for y in (1, 2):
        out.append({"id": "force-all-%d" % y, "hist": [{"op": "make", "base": 1, "lay": y}] + [
            x for s, a in ((1, 3), (2, -2)) for x in (
                {"op": "ask", "how": "machine"}, {"op": "solve", "a": a, "s": s}, {"op": "ask", "how": "eq"}, {"op": "ask", "how": "max"},
                {"op": "move", "p": 3 - s}, {"op": "ask", "how": "print"}, {"op": "cur", "j": 3, "v": -3}, {"op": "ask", "how": "eqarg"})]})
    for w in ("outside", "polarity", "mirror"):
        out.append({"id": "force-" + w, "plain": w, "hist": []})
    return out, st


# conductors: (element, twice its multiplier, centre, filaments with turns, area or None for the current limit, feels)
def conductors(lay, pos):
    A = APOS[pos]
    if lay == 1:
        return [
            (1, 2, A, [(*A, 3.0)], None, True),
            (2, 2, (2.25, -0.55), [(2.25 + a, -0.55 + b, 2 * w) for a, b, w in rect_quad(-0.05, 0.05, -0.06, 0.06)], 0.012, True),
            (3, 2, (1.15, 1.7), [(1.15, 1.7, 2.0)], None, True),
            (3, -1, (2.55, 0.1), [(r, z, 4 / 6) for r, z in CFIL], 0.04 * 0.06, True),
            (4, 2, None, [(0.3, z, 1.0) for z in np.linspace(-0.85, 0.75, 10)], None, False),
            (5, 2, (np.mean([r for r, z in EFIL]), np.mean([z for r, z in EFIL])), [(r, z, 1.0) for r, z in EFIL], 0.02, True),
            (6, 2, (2.4, -1.3), [(2.4, -1.3, 5.0)], 0.03, True)]
    # points only: action is reaction
    return [(1, 2, A, [(*A, 3.0)], None, True),
            (2, 2, (2.25, -0.55), [(2.25, -0.55, 1.0)], 0.01, True),
            (3, 2, (1.15, 1.7), [(1.15, 1.7, 2.0)], None, True),
            (3, -1, (1.15, -1.7), [(1.15, -1.7, 2.0)], None, True),
            (3, 2, (0.4, 0.0), [(0.4, 0.0, 1.0)], 0.005, True),
            (4, 2, (0.5, -1.2), [(0.5, -1.2, 4.0)], None, True),
            (5, 2, (1.7, 1.3), [(1.7, 1.3, 6.0)], None, True),
            (6, 2, (2.4, -1.3), [(2.4, -1.3, 5.0)], 0.03, True)]


@functools.lru_cache(None)
def tables(lay):
    n = len(conductors(lay, 1))
    h = UNIT / 2
    T = np.zeros((2, 2, n, n))
    P = np.zeros((2, 2, 2, n))
    H = np.zeros((2, n, 11))
    for p in (1, 2):
        C = conductors(lay, p)
        for k, (el, m, c, fil, area, feels) in enumerate(C):
            if not feels:
                continue
            t = sum(w for _, _, w in fil)
            L = 2 * np.pi * c[0]
            for j, cj in enumerate(C):
                if j != k:
                    _, br, bz = loops(cj[3], *c)
                    T[p - 1, 0, k, j] = t * bz * L * h * h
                    T[p - 1, 1, k, j] = -t * br * L * h * h
            for s in (1, 2):
                _, br, bz = plasma.flux(s, *c)
                P[p - 1, s - 1, 0, k] = t * bz * L * h * AMP
                P[p - 1, s - 1, 1, k] = -t * br * L * h * AMP
            for i in range(1, 11):
                tot = i * h * t
                a = np.sqrt((area if area is not None else tot / JC) / np.pi)
                H[p - 1, k, i] = MU0 * tot ** 2 / (4 * np.pi * c[0]) * (np.log(8 * c[0] / a) - 0.75) * L
    scale = np.maximum(np.max(np.abs(T), axis=(0, 1, 3)), np.max(np.abs(P), axis=(0, 1, 2)))
    scale[scale == 0] = 1.0
    f = 1e5 / scale
    tab = {"elem": [c[0] for c in conductors(lay, 1)], "mult": [c[1] for c in conductors(lay, 1)],
           "feels": [c[5] for c in conductors(lay, 1)],
           "T": [[[[sint(T[p, x, k, j] * f[k]) for j in range(n)] for k in range(n)] for x in range(2)] for p in range(2)],
           "P": [[[[sint(P[p, s, x, k] * f[k]) for k in range(n)] for x in range(2)] for s in range(2)] for p in range(2)],
           "H": [[[sint(v * f[k]) for v in H[p, k]] for k in range(n)] for p in range(2)],
           "ptol": [int(np.max(np.hypot(P[:, :, 0, k], P[:, :, 1, k])) * f[k] * 0.03) + 1 for k in range(n)]}
    return f, tab


def build(lay, base):
    from freegs import machine as M
    A = M.Coil(*APOS[1], current=base[0] * UNIT, turns=3)
    if lay == 1:
        b = (2.25, -0.55, 0.05, 0.06)
        els = [("A", A),
               ("B", M.ShapedCoil([(b[0] - b[2], b[1] - b[3]), (b[0] + b[2], b[1] - b[3]), (b[0] + b[2], b[1] + b[3]), (b[0] - b[2], b[1] + b[3])],
                                  current=base[1] * UNIT, turns=2)),
               ("C", M.Circuit([("u", M.Coil(1.15, 1.7, turns=2), 1.0),
                                ("f", M.FilamentCoil([r for r, z in CFIL], [z for r, z in CFIL], turns=4), -0.5)], current=base[2] * UNIT)),
               ("D", M.Solenoid(0.3, -0.85, 0.75, 10, current=base[3] * UNIT)),
               ("E", M.MultiCoil([r for r, z in EFIL], [z for r, z in EFIL], current=base[4] * UNIT, area=0.02)),
               ("F", M.Coil(2.4, -1.3, turns=5, current=base[5] * UNIT, area=0.03))]
    else:
        els = [("A", A), ("B", M.Coil(2.25, -0.55, current=base[1] * UNIT, area=0.01)),
               ("C", M.Circuit([("u", M.Coil(1.15, 1.7, turns=2), 1.0), ("l", M.Coil(1.15, -1.7, turns=2), -0.5),
                                ("c", M.Coil(0.4, 0.0, area=0.005), 1.0)], current=base[2] * UNIT)),
               ("D", M.Coil(0.5, -1.2, turns=4, current=base[3] * UNIT)),
               ("E", M.MultiCoil(1.7, 1.3, turns=6, current=base[4] * UNIT)),
               ("F", M.Coil(2.4, -1.3, turns=5, current=base[5] * UNIT, area=0.03))]
    return M.Machine(els), A


WHERE = {1: ["A", "B", ("C", "u"), ("C", "f"), None, "E", "F"], 2: ["A", "B", ("C", "u"), ("C", "l"), ("C", "c"), "D", "E", "F"]}


def pick(F, lay):
    """forces of the conductors in order; None when the set of labels is not the machine's"""
    want = {w if isinstance(w, str) else w[0] for w in WHERE[lay] if w} | ({"D"} if lay == 1 else set())
    if set(F) != want:
        return None
    out = []
    for w in WHERE[lay]:
        if w is None:
            if F["D"]:
                return None
            out.append((0.0, 0.0))
        elif isinstance(w, str):
            out.append((float(F[w][0]), float(F[w][1])))
        else:
            out.append((float(F[w[0]][w[1]][0]), float(F[w[0]][w[1]][1])))
    n = sum(isinstance(w, tuple) for w in WHERE[lay])
    return out if len(F["C"]) == n else None


def execute(scn):
    if scn.get("plain"):
        return plain(scn["plain"])
    import freegs
    from freegs import optimise
    h0 = scn["hist"][0]
    lay = h0["lay"]
    f, tab = tables(lay)
    tok, A = build(lay, BASE[h0["base"]])
    eq = freegs.Equilibrium(tok, Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=NX, ny=NY, psi=np.zeros((NX, NY)))
    R, Z = np.meshgrid(np.linspace(D[0], D[1], NX), np.linspace(D[2], D[3], NY), indexing="ij")
    solved = False
    names = "ABCDEF"

    def icur():
        out = []
        for x in names:
            v = tok[x].current / UNIT
            out.append(int(round(v)) if abs(v - round(v)) < 1e-9 else BIG)
        for _, c, m in tok["C"].coils:
            if abs(c.current - m * tok["C"].current) > 1e-6:
                out.append(BIG)
        return out
    ev = [{"ev": "make", "cur": icur(), "tab": tab}]
    for h in scn["hist"][1:]:
        op = h["op"]
        try:
            if op == "cur":
                tok[names[h["j"] - 1]].current = h["v"] * UNIT
                ev.append({"ev": "cur", "j": h["j"], "v": h["v"]})
            elif op == "move":
                A.R, A.Z = APOS[h["p"]]
                ev.append({"ev": "move", "p": h["p"]})
            elif op == "solve":
                eq.solve(None, Jtor=h["a"] * AMP * plasma.blob(h["s"], R, Z))
                solved = True
                ev.append({"ev": "solve", "a": h["a"], "s": h["s"]})
            else:
                how = h["how"]
                before = (eq.plasma_psi.copy(), list(tok.coils), [tuple(c) for c in tok["C"].coils])
                printed, w = True, how in ("eq", "eqarg", "print", "max") and solved
                buf = io.StringIO()
                if how == "eq" and solved:
                    F = eq.getForces()
                elif how == "eqarg" and solved:
                    F = tok.getForces(eq)
                elif how in ("print", "max") and solved:
                    F = eq.getForces()
                    with contextlib.redirect_stdout(buf):
                        eq.printForces()
                else:
                    F = tok.getForces()
                fs = pick(F, lay)
                same = bool(np.array_equal(before[0], eq.plasma_psi) and before[1] == list(tok.coils)
                            and before[2] == [tuple(c) for c in tok["C"].coils])
                ev.append({"ev": "ask", "w": w, "labels": fs is not None, "newton": lay == 2, "cur": icur(), "same": same,
                           "sum": sint(sum(v[1] for v in fs), 1e4 / max(1.0, sum(abs(v[1]) for v in fs))) if fs else 0,
                           "f": [[sint(v[0] * f[k]), sint(v[1] * f[k])] for k, v in enumerate(fs or [])]})
                if how in ("print", "max") and w and fs:
                    num = [(float(a), float(b)) for a, b in re.findall(r"R = (\S+) kN , Z = (\S+) kN", buf.getvalue())]
                    want = [v for v, x in zip(fs, WHERE[lay]) if x]
                    ok = len(num) == len(want) and all(
                        abs(a - x / 1e3) < 0.0051 + 1e-9 * abs(x) and abs(b - y / 1e3) < 0.0051 + 1e-9 * abs(y)
                        for (a, b), (x, y) in zip(sorted(num), sorted((round(x), round(y)) and (x, y) for x, y in want)))
                    ok = ok and all(x in buf.getvalue() for x in "ABCEF")
                    big = max(np.hypot(*v) for v in fs)
                    k = 1e6 / max(1.0, big)
                    ev.append({"ev": "meas", "fmax": sint(optimise.max_coil_force(eq), k), "fbig": sint(big, k), "printed": bool(ok),
                               "cmax": sint(optimise.max_abs_coil_current(eq) / UNIT), "cur": icur(), "same": same})
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev


def plain(what):
    """single cases the tables do not cover"""
    import freegs
    from freegs import machine as M
    if what == "outside":
        # a coil outside the domain of the equilibrium feels the plasma's field where it is
        c = M.Coil(1.15, 1.6, current=1e5, area=0.01)
        tok = M.Machine([("P", c)])
        n = 65
        eq = freegs.Equilibrium(tok, Rmin=0.45, Rmax=1.85, Zmin=-0.9, Zmax=0.9, nx=n, ny=n, psi=np.zeros((n, n)))
        eq.solve(None, Jtor=AMP * plasma.blob(1, eq.R, eq.Z))
        fz = eq.getForces()["P"][1]
        _, br, bz = plasma.flux(1, 1.15, 1.6)
        want = -1e5 * br * AMP * 2 * np.pi * 1.15
        return [{"ev": "plain", "what": "ForceOfThePlasmaOutsideTheDomain", "got": sint(fz / want, 1000), "want": 1000, "tol": 20}]
    if what == "polarity":
        tok = M.Machine([("P", M.MultiCoil(1.5, 0.5, current=1e5, turns=2, polarity=[-1.0, 1.0], area=0.01)), ("Q", M.Coil(1.2, -0.5, current=1e5, area=0.01))])
        F = tok.getForces()
        return [{"ev": "plain", "what": "ActionIsReaction", "got": sint((F["P"][1] + F["Q"][1]) / abs(F["Q"][1]), 1000), "want": 0, "tol": 2}]
    tok = M.Machine([("P", M.MultiCoil(1.5, 0.5, current=1e5, turns=2, mirror=True, area=0.01))])
    F = tok.getForces()["P"]
    want = -2e5 * loops([(1.5, -0.5, 2e5)], 1.5, 0.5)[1] * 2 * np.pi * 1.5
    return [{"ev": "plain", "what": "MirrorImageActsOnMultiCoil", "got": sint(F[1] / want, 1000), "want": 1000, "tol": 2}]
