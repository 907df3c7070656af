import hashlib
import os
import shutil
import tempfile
import numpy as np
from vlib import gen, plasma
from vlib.oracle import loops, loop, rect_quad, sint, ppm, BIG

TRACE = "StoreTrace"
RULE = ("every recorded history of changes, solves, writes and reads is a behaviour of spec/Store.tla: what is read back is "
        "what the specification says the file holds")
CONSTS = 'CONSTANTS Files = {1, 2}\n Unsupported = {"precalc", "circuitshaped", "circuitsol"}\n'
TRACE_CFG = gen.trace_cfg(CONSTS, done="TraceDone")
MESH = {1: (33, 33), 2: (33, 65), 3: (65, 17)}
DOM = {1: (0.45, 1.85, -0.9, 0.9), 2: (0.4, 1.9, -1.1, 0.95), 3: (0.5, 1.8, -0.8, 0.85)}
WALL = {1: ([0.5, 1.75, 1.75, 0.5], [-0.75, -0.75, 0.8, 0.8]), 2: ([0.55, 1.2, 1.7, 1.4, 0.55], [-0.7, -0.8, 0.1, 0.7, -0.7])}
ODD = {1: "precalc", 2: "circuitshaped", 3: "circuitsol"}
LABELS = ["P2", "P10", "a 1", "Z\u00e9", "odd"]
BASES = [(0.7, 1.5), (2.4, 0.9), (2.5, -0.8), (1.2, -1.6), (0.9, 1.8)]
SHIFT = {1: (0.0, 0.0), 2: (0.11, -0.07), 3: (-0.06, 0.13)}
UNIT, AMP = 1e4, 1e5
SH = [(-0.03, -0.02), (0.04, 0.01), (0.0, 0.05)]
TRI = [(-0.05, -0.04), (0.06, -0.03), (0.01, 0.07)]
TURNS = 3
CLASS = {"coil": "Coil", "shaped": "ShapedCoil", "triangle": "ShapedCoil", "filament": "FilamentCoil", "filament1": "FilamentCoil",
         "multi1": "MultiCoil", "multilist": "MultiCoil", "multimir": "MultiCoil", "solenoid": "Solenoid", "precalc": "PreCalcCoil"}
MEMBERS = {"circuit": [(0.0, 0.0, 2, 1.0), (0.1, 0.3, 1, -0.5)], "circuit0": [(0.0, 0.0, 1, 0.0), (0.1, 0.3, 2, 1.5)],
           "circuit1": [(0.0, 0.0, 4, -2.0)], "circuitshaped": [(0.0, 0.0, 1, 1.0), (0.2, 0.2, 1, 0.5)],
           "circuitsol": [(0.0, 0.0, 1, 1.0), (0.2, 0.2, 1, 0.5)]}
LIMIT = 240


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Idempotent NeverForeign\nPROPERTY FilesIndependent\nCHECK_DEADLOCK FALSE\n"
           'CONSTANTS Files = {1, 2}\n Unsupported = {"precalc"}\n')
    return [{"name": "Store", "module": "Store", "cfg": cfg}]


def scenarios(tier, seed):
    n, d = (140, 8) if tier == "quick" else (1500, 14)
    out, st = gen.simulate("StoreGen", "CONSTANT Depth = %d\n" % d, n, d, seed, "store")
    # every kind, away from its first position, with current, written, changed, read and used again
    ks = sorted(CLASS.keys() - {"precalc"}) + ["circuit", "circuit0", "circuit1"]
    for i in range(0, len(ks), 4):
        four = (ks + ks)[i:i + 4]
        for m, b in ((2, "free"), (3, "fixed")):
            out.append({"id": "store-kinds-%d-%d" % (i, m), "hist": [{"op": "make", "mesh": m, "bnd": b, "wall": 2, "odd": 0, "turns": 3, "ip0": 12345, "kinds": four}]
                        + [{"op": "move", "i": k, "p": 1 + k % 3} for k in range(1, 5)] + [{"op": "cur", "i": k, "v": k + 1} for k in range(1, 5)]
                        + [{"op": "ctl", "i": 2, "b": False}, {"op": "solve", "a": 1, "s": 1}, {"op": "write", "f": 1}]
                        + [{"op": "cur", "i": k, "v": -1} for k in range(1, 5)]
                        + [{"op": "read", "f": 1}, {"op": "cur", "i": 1, "v": 4}, {"op": "write", "f": 2}, {"op": "read", "f": 1},
                           {"op": "read", "f": 2}, {"op": "solve", "a": -2, "s": 2}, {"op": "write", "f": 1}, {"op": "read", "f": 1}]})
    return out, st


def centre(i, p):
    return BASES[i][0] + SHIFT[p][0], BASES[i][1] + SHIFT[p][1]


def tri_quad(v, n=7):
    """filaments averaging over a triangle (collapsed Gauss rule)"""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = 0.5 * (x + 1), 0.5 * w
    out = []
    for a, wa in zip(x, w):
        for b, wb in zip(x, w):
            u, t = a, b * (1 - a)
            out.append((v[0][0] + u * (v[1][0] - v[0][0]) + t * (v[2][0] - v[0][0]),
                        v[0][1] + u * (v[1][1] - v[0][1]) + t * (v[2][1] - v[0][1]), wa * wb * (1 - a) * 2))
    return out


def fils(kind, i, p):
    R, Z = centre(i, p)
    n = TURNS
    if kind in ("coil", "filament1", "multi1", "precalc"):
        return [(R, Z, n)]
    if kind == "shaped":
        return [(R + a, Z + b, n * w) for a, b, w in rect_quad(-0.04, 0.04, -0.05, 0.05)]
    if kind == "triangle":
        return [(R + a, Z + b, n * w) for a, b, w in tri_quad(TRI)]
    if kind == "filament":
        return [(R + a, Z + b, n / 3.0) for a, b in SH]
    if kind == "multilist":
        return [(R + a, Z + b, 1.0) for a, b in SH]
    if kind == "multimir":
        return [(R, Z, n * 1.0), (R, -Z, -1.0 * n)]
    if kind == "solenoid":
        return [(R, z, 1.0) for z in np.linspace(Z, Z + 0.6, 7)]
    return [(R + a, Z + b, t * m) for a, b, t, m in MEMBERS[kind]]


def make(M, kind, i, p, cur, ctl):
    R, Z = centre(i, p)
    kw = dict(current=cur, turns=TURNS, control=ctl)
    if kind == "coil":
        return M.Coil(R, Z, **kw)
    if kind == "shaped":
        return M.ShapedCoil([(R - 0.04, Z - 0.05), (R + 0.04, Z - 0.05), (R + 0.04, Z + 0.05), (R - 0.04, Z + 0.05)], **kw)
    if kind == "triangle":
        return M.ShapedCoil([(R + a, Z + b) for a, b in TRI], **kw)
    if kind == "filament":
        return M.FilamentCoil([R + a for a, b in SH], [Z + b for a, b in SH], **kw)
    if kind == "filament1":
        return M.FilamentCoil(R, Z, **kw)
    if kind == "multi1":
        return M.MultiCoil(R, Z, **kw)
    if kind == "multilist":
        return M.MultiCoil([R + a for a, b in SH], [Z + b for a, b in SH], current=cur, control=ctl)
    if kind == "multimir":
        return M.MultiCoil(R, Z, mirror=True, polarity=[1.0, -1.0], **kw)
    if kind == "solenoid":
        return M.Solenoid(R, Z, Z + 0.6, 7, current=cur, control=ctl)
    if kind == "precalc":
        r1, z1 = np.linspace(0.02, 3.6, 80), np.linspace(-3.3, 3.3, 81)
        Rg, Zg = np.meshgrid(r1, z1)
        psi, br, bz = loop(R, Z, Rg + 1e-4, Zg)
        return M.PreCalcCoil([(R - .05, Z - .05), (R + .05, Z - .05), (R + .05, Z + .05), (R - .05, Z + .05)], Rg, Zg, br, bz, psi, **kw)
    mem = []
    for k, (a, b, t, m) in enumerate(MEMBERS[kind]):
        c = M.Coil(R + a, Z + b, turns=t)
        if k == 0 and kind == "circuitshaped":
            c = M.ShapedCoil([(R - .05, Z - .05), (R + .05, Z - .05), (R + .05, Z + .05)])
        if k == 0 and kind == "circuitsol":
            c = M.Solenoid(R, Z, Z + 0.6, 7)
        mem.append(("m%d" % k, c, m))
    return M.Circuit(mem, current=cur, control=ctl)


def move(kind, coil, i, p):
    R, Z = centre(i, p)
    if kind == "solenoid":
        coil.Rs, coil.Zsmin, coil.Zsmax = R, Z, Z + 0.6
    elif kind in MEMBERS:
        for (a, b, t, m), (label, c, _) in zip(MEMBERS[kind], coil.coils):
            c.R, c.Z = R + a, Z + b
    elif kind == "triangle":
        coil.R, coil.Z = R + sum(a for a, b in TRI) / 3, Z + sum(b for a, b in TRI) / 3
    elif kind == "filament":
        coil.R, coil.Z = coil.R + R - move.at[i][0], coil.Z + Z - move.at[i][1]
    elif kind == "multilist":
        coil.R, coil.Z = R + sum(a for a, b in SH) / 3, Z + sum(b for a, b in SH) / 3
    else:
        coil.R, coil.Z = R, Z
    move.at[i] = (R, Z)


PR = np.array([0.6, 1.0, 1.5, 1.8, 2.0, 0.8])
PZ = np.array([0.1, -0.5, 0.4, -0.2, 0.0, 0.9])


def project(kind, i, coil):
    """what the element is, from its field"""
    k = "other"
    if kind in MEMBERS:
        if type(coil).__name__ == "Circuit" and [(l, m) for l, c, m in coil.coils] == [("m%d" % j, q[3]) for j, q in enumerate(MEMBERS[kind])]:
            k = kind
    elif type(coil).__name__ == CLASS[kind]:
        k = kind
    best = (BIG, 1)
    try:
        y = np.array([np.broadcast_to(f(PR, PZ), PR.shape) for f in (coil.controlPsi, coil.controlBr, coil.controlBz)], float)
        for p in (1, 2, 3):
            x = np.array(loops(fils(kind, i, p), PR, PZ))
            e = max(ppm(y[j] - x[j], np.max(np.abs(x[j]))) for j in range(3))
            best = min(best, (e, p))
        x = np.array(loops(fils(kind, i, best[1]), PR, PZ))[0]
        v = np.asarray(coil.psi(PR, PZ), float)
        f = float(np.dot(v, x) / np.dot(x, x)) / UNIT
        # a flux that is not a multiple of the response has no current
        if ppm(v - f * UNIT * x, np.max(np.abs(x)) * UNIT) > 200:
            f = 1e9
    except Exception:
        f = 1e9
    c = float(coil.current) / UNIT
    if not np.isfinite(c):
        c = 1e9
    if not np.isfinite(f):
        f = 1e9
    return {"kind": k, "resp": best[0], "pos": best[1], "fld": sint(f) if abs(f - round(f)) < 1e-3 else BIG,
            "cur": sint(c) if abs(c - round(c)) < 1e-6 else BIG, "ctl": bool(coil.control)}


def execute(scn):
    tmp = tempfile.mkdtemp(prefix="vc06_")
    try:
        return _execute(scn, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _execute(scn, tmp):
    import freegs
    import h5py
    from freegs import machine as M, boundary as B
    global TURNS
    h0 = scn["hist"][0]
    TURNS = h0["turns"]
    kinds = list(h0["kinds"]) + ([ODD[h0["odd"]]] if h0["odd"] in ODD else [])
    m = h0["mesh"]
    (nx, ny), dom = MESH[m], DOM[m]
    bnd = {"free": B.freeBoundary, "fixed": B.fixedBoundary, "hagenow": B.freeBoundaryHagenow}[h0["bnd"]]
    wall = WALL.get(h0["wall"])
    move.at = {i: centre(i, 1) for i in range(5)}
    tok = M.Machine([(LABELS[i], make(M, k, i, 1, 0.0, True)) for i, k in enumerate(kinds)], M.Wall(*wall) if wall else None)
    R, Z = np.meshgrid(np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny), indexing="ij")

    def build(psi, current):
        return freegs.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny, psi=psi, current=current, boundary=bnd)
    seen = {}

    def pid(a):
        return seen.setdefault(hashlib.sha1(np.ascontiguousarray(np.asarray(a, float)).tobytes()).hexdigest(), len(seen) + 1)
    psi0 = 0.01 * np.sin(3 * R) * np.cos(2 * Z)
    eq = build(psi0.copy(), float(h0["ip0"]))
    # positions, for the moves of element kinds moved relative to where they are; kept with each file
    at_file, kinds_pos = {}, {i: 1 for i in range(5)}
    ev = [{"ev": "make", "live": {"els": [{"kind": k, "cur": 0, "ctl": True, "pos": 1} for k in kinds], "pid": pid(psi0), "ip": h0["ip0"], "conf": 1}}]

    def coil_flux():
        return sum(tok[LABELS[i]].current * loops(fils(k, i, kinds_pos[i]), R, Z)[0] for i, k in enumerate(kinds) if k not in ("precalc", "circuitshaped", "circuitsol"))
    for h in scn["hist"][1:]:
        op = h["op"]
        try:
            if op == "cur":
                tok[LABELS[h["i"] - 1]].current = h["v"] * UNIT
                ev.append({"ev": "cur", "i": h["i"], "v": h["v"]})
            elif op == "ctl":
                tok[LABELS[h["i"] - 1]].control = h["b"]
                ev.append({"ev": "ctl", "i": h["i"], "b": h["b"]})
            elif op == "move":
                i = h["i"] - 1
                move(kinds[i], tok[LABELS[i]], i, h["p"])
                kinds_pos[i] = h["p"]
                # the equilibrium tabulates the coils' flux when it is made
                eq = build(eq.plasma_psi.copy(), eq.plasmaCurrent())
                ev.append({"ev": "move", "i": h["i"], "p": h["p"]})
            elif op == "solve":
                eq.solve(None, Jtor=h["a"] * AMP * plasma.blob(h["s"], R, Z))
                e = np.concatenate([eq.plasma_psi[0], eq.plasma_psi[-1], eq.plasma_psi[:, 0], eq.plasma_psi[:, -1]])
                er, ez = [np.concatenate([x[0], x[-1], x[:, 0], x[:, -1]]) for x in (R, Z)]
                if h0["bnd"] == "fixed":
                    edge = ppm(e, AMP * 1e-7)
                else:
                    x = h["a"] * AMP * plasma.flux(h["s"], er, ez)[0]
                    edge = ppm(e - x, np.max(np.abs(x)) or AMP * 1e-7)
                ev.append({"ev": "solve", "pid": pid(eq.plasma_psi), "ip": sint(eq.plasmaCurrent()), "edge": edge})
            elif op == "write":
                path = os.path.join(tmp, "f%d.h5" % h["f"])
                before = eq.psi().copy(), eq.plasma_psi.copy(), [project(k, i, tok[LABELS[i]]) for i, k in enumerate(kinds[:4])]
                try:
                    with freegs.OutputFile(path, "w") as f:
                        f.write_equilibrium(eq)
                    ok = True
                except Exception:
                    ok = False
                raw = False
                if ok:
                    with h5py.File(path, "r") as f:
                        g = f["equilbrium"]
                        raw = bool(np.allclose(g["psi"][()], before[0], rtol=1e-12, atol=1e-14) and np.array_equal(g["plasma_psi"][()], before[1])
                                   and np.allclose(g["R"][()], R) and np.allclose(g["Z"][()], Z) and np.allclose(g["R_1D"][()], R[:, 0])
                                   and np.allclose(g["Z_1D"][()], Z[0]))
                same = bool(np.array_equal(before[0], eq.psi()) and np.array_equal(before[1], eq.plasma_psi)
                            and before[2] == [project(k, i, tok[LABELS[i]]) for i, k in enumerate(kinds[:4])])
                at_file[h["f"]] = (dict(move.at), dict(kinds_pos)) if ok else None
                ev.append({"ev": "write", "f": h["f"], "ok": ok, "raw": raw, "same": same})
            elif op == "read":
                path = os.path.join(tmp, "f%d.h5" % h["f"])
                if at_file.get(h["f"]) is None:
                    ev.append({"ev": "read", "f": h["f"], "ok": False})
                    continue
                dig = hashlib.sha1(open(path, "rb").read()).hexdigest()
                try:
                    with freegs.OutputFile(path, "r") as f:
                        eq = f.read_equilibrium()
                except Exception as x:
                    ev.append({"ev": "read", "f": h["f"], "ok": False, "info": repr(x)})
                    break
                tok = eq.tokamak
                move.at, kinds_pos = dict(at_file[h["f"]][0]), dict(at_file[h["f"]][1])
                labels = [l for l, c in tok.coils]
                els = [project(k, i, tok[LABELS[i]]) for i, k in enumerate(kinds)] if sorted(labels) == sorted(LABELS[:len(kinds)]) else []
                mesh = (eq.R.shape == (nx, ny) and np.allclose(eq.R, R, atol=1e-12) and np.allclose(eq.Z, Z, atol=1e-12)
                        and (eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax) == dom and np.shape(eq.plasma_psi) == (nx, ny))
                if wall:
                    wl = tok.wall is not None and np.array_equal(tok.wall.R, wall[0]) and np.array_equal(tok.wall.Z, wall[1]) and tok.limit_points_R is not None
                else:
                    wl = tok.wall is None
                x = coil_flux() + eq.plasma_psi if mesh and els else np.zeros(R.shape)
                ev.append({"ev": "read", "f": h["f"], "ok": True, "o": {
                    "els": els, "pid": pid(eq.plasma_psi), "ip": sint(eq.plasmaCurrent()), "mesh": bool(mesh), "wall": bool(wl),
                    "total": ppm(eq.psi() - x, np.max(np.abs(x)) + 1e-6) if mesh and els else BIG},
                    "file": bool(hashlib.sha1(open(path, "rb").read()).hexdigest() == dig)})
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev
