import numpy as np
from vlib import gen

TRACE = "CoreMaskTrace"
RULE = ("for every pattern of mesh points inside the boundary flux, every axis point and X-points, the mask the code "
        "returns is the core the specification defines")
TRACE_CFG = gen.trace_cfg(done="TraceDone")
CHUNK = 100


def models(tier):
    cfg = "SPECIFICATION Spec\nINVARIANTS FillIsCore CoreInside\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS NX = %d\n NY = %d\n"
    out = [{"name": "CoreMask 2x3", "module": "CoreMask", "cfg": cfg % (2, 3)}]
    if tier != "quick":
        out.append({"name": "CoreMask 3x3", "module": "CoreMask", "cfg": cfg % (3, 3), "kw": {"workers": 6, "heap": "8g"}})
    return out


def scenarios(tier, seed):
    con = "CONSTANTS NX = %d\n NY = %d\n MaxX = %d\n Dense = %d\n"
    out, st, tr = [], 0, 0
    # exhaustive: all patterns of a 3 x 3 mesh, all axis points, none or one X-point
    plan = [(2, 3, 1, 0, None, "ASpec")]
    if tier == "quick":
        plan += [(4, 5, 2, 2, 500, "GSpec"), (5, 4, 1, 3, 500, "GSpec"), (7, 6, 2, 3, 2000, "GSpec"), (9, 9, 2, 3, 1200, "GSpec")]
    else:
        plan += [(3, 3, 1, 0, None, "ASpec"), (5, 6, 2, 3, 6000, "GSpec"), (8, 7, 2, 3, 6000, "GSpec"), (9, 9, 2, 2, 3000, "GSpec")]
    for nx, ny, mx, dense, num, spec in plan:
        a, s = gen.cases("CoreMaskGen", num, seed, "mask%dx%d" % (nx, ny), con % (nx, ny, mx, dense), spec=spec)
        out += a
        st += s["states"]
        tr += s["transitions"]
    return out, {"states": st, "transitions": tr}


def execute(scn):
    from freegs import critical
    c = scn["c"]
    nx, ny = c["nx"], c["ny"]
    rng = np.random.RandomState(int(scn["id"].rsplit("-", 1)[1], 16) % (2 ** 31))
    R, Z = np.meshgrid(np.linspace(0.5, 1.5 + rng.rand(), nx), np.linspace(-1.0, 1.2, ny), indexing="ij")
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    inside = np.zeros((nx, ny), bool)
    for i, j in c["inn"]:
        inside[i - 1, j - 1] = True
    # normalised flux: below one inside (down to below zero), at or above one outside
    psin = np.where(inside, rng.choice([0.999, 0.5, 0.0, -0.3], (nx, ny)), rng.choice([1.0, 1.001, 2.5], (nx, ny)))

    ax, bd = 2.0, 1.0
    psi = ax + psin * (bd - ax)
    i, j = c["s"]

    def near(i, j):
        return R[i - 1, j - 1] + dR * 0.3 * (rng.rand() - .5), Z[i - 1, j - 1] + dZ * 0.3 * (rng.rand() - .5)
    xs = sorted(c["x"])
    rz = near(i, j)
    xp = [near(*x) + (bd if n == 0 else 0.2,) for n, x in enumerate(xs)]
    keep = psi.copy()
    if xp:
        m = critical.core_mask(R, Z, psi, [rz + (ax,)], xp)
    else:
        m = critical.core_mask(R, Z, psi, [rz + (ax,)], [], bd)
    neg = critical.core_mask(R, Z, -psi, [rz + (-ax,)], [x[:2] + (-x[2],) for x in xp], -bd)
    # the boundary given explicitly takes precedence over the X-point's flux
    giv = critical.core_mask(R, Z, psi, [rz + (ax,)], [x[:2] + (bd - 0.5,) for x in xp], bd)
    m = np.asarray(m)
    return [{"ev": "case", "nx": nx, "ny": ny, "inn": c["inn"], "s": c["s"], "x": c["x"],
             "got": [[int(a) + 1, int(b) + 1] for a, b in np.argwhere(m > 0.5)],
             "binary": bool(m.shape == (nx, ny) and np.all((m == 0) | (m == 1))),
             "neg": bool(np.array_equal(m, neg)), "given": bool(np.array_equal(m, giv)),
             "same": bool(np.array_equal(psi, keep))}]
