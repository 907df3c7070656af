import numpy as np
from vlib import gen
from vlib.fluxes import Flux, Snow
from vlib.oracle import sint, BIG

TRACE = "CriticalTrace"
RULE = ("for every analytic flux map, the points reported by the real analysis are exactly the critical points the "
        "specification selects, in its order")
CONSTS = "CONSTANTS Lattice = {0, 100, 200}\n FluxVals = {0, 3}\n"
TRACE_CFG = gen.trace_cfg(CONSTS, done="TraceDone")
MESH = {1: (65, 65, (0.3, 1.9, -1.1, 1.1)), 2: (65, 129, (0.25, 1.95, -1.3, 1.2)), 3: (97, 65, (0.2, 2.0, -1.0, 1.2)),
        4: (49, 57, (0.4, 1.8, -1.2, 1.0)),
        5: (65, 33, (0.4, 1.7, -1.1, 1.1)), 6: (33, 97, (0.3, 1.9, -1.1, 1.1))}
CHUNK = 8


def models(tier):
    cfg = "SPECIFICATION Spec\nINVARIANT Answer\nCHECK_DEADLOCK FALSE\nCONSTANTS Lattice = {0, 100}\n FluxVals = {0, 3}\n"
    return [{"name": "Critical", "module": "Critical", "cfg": cfg}]


def scenarios(tier, seed):
    n = 1600 if tier == "quick" else 12000
    return gen.cases("CriticalGen", n, seed, "crit", keep=lambda c: valid(c) is not None)


OFF = {1: (0.0123, -0.0071), 2: (-0.0317, 0.0203), 3: (0.0579, 0.0611), 4: (-0.0713, -0.0433), 5: (0.0971, 0.0237),
       6: (0.0049, -0.0917)}


def build(c):
    nx, ny, D = MESH[c["mesh"]]
    R0 = 0.5 * (D[0] + D[1]) + OFF[c["off"]][0]
    Z0 = 0.5 * (D[2] + D[3]) + OFF[c["off"]][1]
    if "fam" in c:
        return Snow(R0, Z0, c["d"] / 100.0, 0.55, np.radians(c["th"]), float(c["amp"]), c["s"]), nx, ny, D
    f = Flux(R0, Z0, 0.5, 0.6, *[(c[k] / 100.0 or None) for k in ("u1", "u2", "v1", "v2")],
             theta=np.radians(c["th"]), A=float(c["amp"]), s=c["s"])
    return f, nx, ny, D


def resolved(f, nx, ny, D, pts):
    """the mesh tells the critical points apart: the field has a clear minimum near each of them among the mesh points"""
    R, Z = np.meshgrid(np.linspace(D[0], D[1], nx), np.linspace(D[2], D[3], ny), indexing="ij")
    B = f.bmag(R, Z) ** 2
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    used = set()
    for q in pts:
        i, j = int(round((q[0] - D[0]) / dR)), int(round((q[1] - D[2]) / dZ))
        ok = None
        for a in range(i - 1, i + 2):
            for b in range(j - 1, j + 2):
                nb = np.delete(B[a - 1:a + 2, b - 1:b + 2].ravel(), 4)
                if np.all(nb > 1.15 * B[a, b]) and np.hypot((R[a, b] - q[0]) / dR, (Z[a, b] - q[1]) / dZ) < 0.8:
                    ok = (a, b)
        if ok is None or ok in used:
            return False
        used.add(ok)
    return True


def valid(c):
    """the map's critical points inside the domain, with the monotonicity fact; None when ambiguous"""
    f, nx, ny, D = build(c)
    dR, dZ = (D[1] - D[0]) / (nx - 1), (D[3] - D[2]) / (ny - 1)
    pts = []
    for R, Z, p, t in f.critical():
        m = max((D[0] - R) / dR, (R - D[1]) / dR, (D[2] - Z) / dZ, (Z - D[3]) / dZ)
        if m < -4.5:
            pts.append((R, Z, p, t))
        elif m < 3.5:
            return None      # too close to the edge of the mesh to say
    ops = [q for q in pts if q[3] == "O"]
    if not ops:
        return None
    if "fam" in c and not resolved(f, nx, ny, D, pts):
        return None
    mid = (0.5 * (D[0] + D[1]), 0.5 * (D[2] + D[3]))
    ds = sorted(np.hypot(q[0] - mid[0], q[1] - mid[1]) for q in ops)
    if any(b - a < 0.01 for a, b in zip(ds, ds[1:])):
        return None
    ax = min(ops, key=lambda q: np.hypot(q[0] - mid[0], q[1] - mid[1]))
    out = []
    for R, Z, p, t in pts:
        mono = False
        if t == "X":
            x = np.linspace(0, 1, 2001)
            line = f.psi(ax[0] + x * (R - ax[0]), ax[1] + x * (Z - ax[1]))
            line = (line - ax[2]) / (p - ax[2]) if p != ax[2] else line * np.nan
            if not np.all(np.isfinite(line)):
                return None
            over, under = np.max(line) - 1.0, -np.min(line)
            # the code allows 0.1% beyond the X-point; and measures the minimum's distance from the axis
            if over <= 1e-5 and under <= 1e-5:
                mono = True
            elif over > 4e-3 or under > 4e-3:
                mono = False
            else:
                return None
        out.append((R, Z, p, t, mono))
    return out


def execute(scn):
    from freegs import critical
    c = scn["c"]
    f, nx, ny, D = build(c)
    R, Z = np.meshgrid(np.linspace(D[0], D[1], nx), np.linspace(D[2], D[3], ny), indexing="ij")
    psi = f.psi(R, Z)
    keep = psi.copy()
    pts = valid(c)
    # |B| < 1e-3 is the code's own definition of a null: the position is as good as that allows
    lam = 2 * c["amp"] * min(1 / 0.5 ** 2, 1 / 0.6 ** 2) * 0.5
    if "fam" in c:
        lam = 2 * c["amp"] * c["d"] / 100.0
    quart = "fam" in c or (c["u1"] and c["u2"]) or (c["v1"] and c["v2"])
    tol = 1e-3 * D[1] / lam * 1.6 + (4e-4 if quart else 1e-5)
    ev = []
    for discard in (True, False):
        try:
            op, xp = critical.find_critical(R, Z, psi, discard_xpoints=discard) if not discard else \
                critical.find_critical(R, Z, psi)
        except Exception as x:
            ev.append(gen.crash(x))
            continue

        def enc(lst):
            return [{"r": sint(q[0], 1e5), "z": sint(q[1], 1e5), "p": sint(q[2], 1e6)} for q in lst]
        b = [float(f.bmag(q[0], q[1])) for q in list(op) + list(xp)]
        slack = c["amp"] * (3e-3 if quart else 1e-6)
        ev.append({"ev": "case", "discard": discard,
                   "mid": {"r": sint(0.5 * (D[0] + D[1]), 1e5), "z": sint(0.5 * (D[2] + D[3]), 1e5)},
                   "map": [{"r": sint(q[0], 1e5), "z": sint(q[1], 1e5), "p": sint(q[2], 1e6), "t": q[3], "mono": bool(q[4])}
                           for q in pts],
                   "tol": sint(tol, 1e5) + 1, "ptol": sint(2e-6 * (1 + c["amp"]) + tol * tol * c["amp"] * 6, 1e6) + 2,
                   "o": {"op": enc(op), "xp": enc(xp), "bmax": sint(max([max(0.0, x - slack) for x in b] or [0]), 1e6),
                         "same": bool(np.array_equal(psi, keep))}})
    return ev
