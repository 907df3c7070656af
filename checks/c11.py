import copy
import numpy as np
from vlib import gen, plasma
from vlib.oracle import loops, rect_quad, sint, ppm, BIG

TRACE = "ControlTrace"
RULE = ("every recorded history of control system runs (currents, control flags and plasma changed in between) leaves "
        "the currents spec/Control.tla allows: the least-squares change within the limits, uncontrolled elements untouched")
CONSTS = "CONSTANTS N = 3\n Vals <- SmallVals\n MaxC = %d\n"
TRACE_CFG = gen.trace_cfg(CONSTS % 2, done="TraceDone")
D = (0.45, 1.85, -0.9, 0.9)
XP = {1: [(1.0, -0.65)], 2: [(1.1, 0.6)], 3: [(1.0, -0.65), (1.1, 0.6)]}
ISO = {1: [(1.0, -0.65, 1.1, 0.6)], 2: [(0.6, 0.1, 1.6, 0.0), (1.0, -0.65, 1.6, 0.2)]}
PSI = {1: [(0.7, 0.5, 0.05)], 2: [(0.7, 0.5, -0.02), (1.5, -0.6, 0.08)]}
LIMS = {"wide": [(-4e7, 5e7)] * 6,
        "tight": [(-3e4, 4e4), (-2e4, 6e4), (-6e4, 5e4), (-1e5, 1e5), (-5e4, 5e4), (-8e3, 9e3)]}
BASE = {1: [3e4, -2e4, -4e4, 4e4, 3e4, 1e3], 2: [0.0] * 6, 3: [1e4, 3e4, 2e4, -5e4, -1e4, -5e3]}
UNIT = 1e4


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Settled Solvable\nPROPERTY UncontrolledUntouched\nCHECK_DEADLOCK FALSE\n" + CONSTS)
    return [{"name": "Control", "module": "Control", "cfg": cfg % 3, "kw": {"workers": 4}}]


def scenarios(tier, seed):
    n, d = (150, 5) if tier == "quick" else (1500, 8)
    out, st = gen.simulate("ControlGen", "CONSTANTS Depth = %d\n" % d, n, d, seed, "ctrl")
    out.append({"id": "ctrl-empty", "hist": [{"op": "make", "ctl": [True] * 6, "base": 1}, {"op": "run", "x": 0, "iso": 0, "psi": 0, "g": 12, "lim": "none"}]})
    # limits bind at the unlimited solution, but the constraint can be met within them
    out.append({"id": "ctrl-feasible-within-limits", "hist": [{"op": "make", "ctl": [True] * 6, "base": 2}, {"op": "plasma", "a": 3, "s": 1},
                {"op": "run", "x": 0, "iso": 1, "psi": 0, "g": 12, "lim": "inside"}]})
    return out, st


def fils():
    return [[(0.7, 1.4, 1.0)], [(2.2, 0.7, 2.0)], [(2.2 + a, -0.75 + b, w) for a, b, w in rect_quad(-0.04, 0.04, -0.05, 0.05)],
            [(1.2, 1.6, 1.0), (1.2, -1.6, -0.5)], [(0.7, -1.4, 1.0)],
            [(0.3, z, 1.0) for z in np.linspace(-0.8, 0.8, 10)]]


def execute(scn):
    import freegs
    from freegs import machine as M, control
    h0 = scn["hist"][0]
    base = BASE[h0["base"]]
    ctl = list(h0["ctl"])
    a, b, Rc, Zc = 0.04, 0.05, 2.2, -0.75
    tok = M.Machine([
        ("A", M.Coil(0.7, 1.4, current=base[0], control=ctl[0])),
        ("B", M.Coil(2.2, 0.7, current=base[1], turns=2, control=ctl[1])),
        ("C", M.ShapedCoil([(Rc - a, Zc - b), (Rc + a, Zc - b), (Rc + a, Zc + b), (Rc - a, Zc + b)], current=base[2], control=ctl[2])),
        ("D", M.Circuit([("u", M.Coil(1.2, 1.6), 1.0), ("l", M.Coil(1.2, -1.6), -0.5)], current=base[3], control=ctl[3])),
        ("E", M.Coil(0.7, -1.4, current=base[4], control=ctl[4])),
        ("F", M.Solenoid(0.3, -0.8, 0.8, 10, current=base[5], control=ctl[5]))])
    names = "ABCDEF"
    n = 33
    eq = freegs.Equilibrium(tok, Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=n, ny=n, psi=np.zeros((n, n)))
    R, Z = np.meshgrid(np.linspace(D[0], D[1], n), np.linspace(D[2], D[3], n), indexing="ij")
    F = fils()

    def cur():
        return np.array([float(tok[k].current) for k in names])

    def icur():
        return [sint(x) for x in cur()]
    ev = [{"ev": "make", "cur": icur(), "ctl": ctl[:]}]
    for h in scn["hist"][1:]:
        op = h["op"]
        try:
            if op == "cur":
                tok[names[h["i"] - 1]].current = h["v"] * UNIT
                ev.append({"ev": "cur", "i": h["i"], "v": sint(h["v"] * UNIT)})
            elif op == "nudge":
                tok[names[h["i"] - 1]].current += h["v"]
                ev.append({"ev": "cur", "i": h["i"], "v": sint(tok[names[h["i"] - 1]].current)})
            elif op == "ctl":
                ctl[h["i"] - 1] = h["b"]
                tok[names[h["i"] - 1]].control = h["b"]
                ev.append({"ev": "ctl", "i": h["i"], "b": h["b"]})
            elif op == "plasma":
                eq.solve(None, Jtor=h["a"] * 1e5 * plasma.blob(h["s"], R, Z))
                ev.append({"ev": "plasma", "p": h["a"]})
            elif op == "run":
                ev.append(run(h, eq, tok, ctl, cur, F, control))
            elif op == "fit2d":
                ev.append(fit(h, eq, tok, ctl, cur, F, control, R, Z))
            elif op == "adv":
                ev.append(adv(h, eq, tok, ctl, cur, control, R, Z))
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev


def run(h, eq, tok, ctl, cur, F, control):
    xs, iso, ps = XP.get(h["x"], []), ISO.get(h["iso"], []), PSI.get(h["psi"], [])
    gamma = 10.0 ** -h["g"]
    idx = [i for i in range(6) if ctl[i]]
    A, b = [], []
    # responses from the closed forms; what the constraints see now from the equilibrium (its own property)
    for x in xs:
        f = [loops(F[i], *x) for i in idx]
        A += [[float(g[1]) for g in f], [float(g[2]) for g in f]]
        b += [-float(eq.Br(*x)), -float(eq.Bz(*x))]
    for q in iso:
        A.append([float(loops(F[i], *q[:2])[0] - loops(F[i], *q[2:])[0]) for i in idx])
        b.append(float(eq.psiRZ(*q[2:]) - eq.psiRZ(*q[:2])))
    for q in ps:
        A.append([float(loops(F[i], *q[:2])[0]) for i in idx])
        b.append(q[2] - float(eq.psiRZ(*q[:2])))
    i0 = cur()
    before = eq.plasma_psi.copy()
    tot = 2.5e5 if h["lim"] in ("total", "both") else None
    lims = {"wide": LIMS["wide"], "tight": LIMS["tight"], "both": LIMS["wide"]}.get(h["lim"])
    n, nc = len(idx), len(b)
    A, b = np.array(A).reshape(nc, n), np.array(b)
    A2 = np.vstack([A, gamma * np.eye(n)])
    b2 = np.concatenate([b, np.zeros(n)])
    x = np.linalg.lstsq(A2, b2, rcond=None)[0] if n and nc else np.zeros(n)
    if h["lim"] == "inside":
        # the element that would change most may not change; the others can do it
        k = int(np.argmax(np.abs(x)))
        lims = [(-5e6, 5e6)] * 6
        lims[idx[k]] = (i0[idx[k]] - 1.0, i0[idx[k]] + 1.0)
    args = (list(xs), list(iso), list(ps), list(lims) if lims else None)
    keep = copy.deepcopy(args)
    c = control.constrain(xpoints=args[0], isoflux=args[1], psivals=args[2], gamma=gamma, current_lims=args[3], max_total_current=tot)
    if nc == 0:
        try:
            c(eq)
            return {"ev": "empty", "raised": False}
        except ValueError:
            return {"ev": "empty", "raised": True}
    c(eq)
    i1 = cur()
    d = (i1 - i0)[idx]
    new = i0[idx] + x
    lo = np.array([(lims[i][0] if lims else -1.9e9) for i in range(6)])
    hi = np.array([(lims[i][1] if lims else 1.9e9) for i in range(6)])
    free = bool(np.all(new >= lo[idx] - 1e-6) and np.all(new <= hi[idx] + 1e-6) and (tot is None or np.sum(np.abs(new)) <= tot - 1))

    def obj(y):
        return float(np.sum((A2 @ y - b2) ** 2))
    big = np.max(np.abs(x)) if n else 0.0
    e = {"ev": "run", "cur": [sint(v) for v in i1], "lims": lims is not None, "lo": [sint(v) for v in lo], "hi": [sint(v) for v in hi],
         "tot": -1 if tot is None or n == 0 else sint(tot), "free": free,
         "solvable": bool(n >= nc and gamma <= 1e-10 and nc > 0), "res": 0, "dx": 0, "clip": 0, "best": False, "gap": 0,
         "plasma": bool(np.array_equal(before, eq.plasma_psi)), "inputs": keep == args}
    if n:
        s = np.linalg.svd(A, compute_uv=False)
        # constraints a well-conditioned system can meet
        e["solvable"] = e["solvable"] and bool(s[-1] > 300 * gamma)
        e["res"] = ppm(A @ d - b, np.max(np.abs(b)) + 1e-9)
        # small corrections: what the constraints do not determine is as good as the optimiser's tolerance
        m = np.max(np.abs(i0))
        e["dx"] = ppm(d - x, big + 1.0 + (0.03 * m if big < 0.01 * m else 0.0))
        if lims and tot is None:
            cl = np.clip(new, lo[idx], hi[idx]) - i0[idx]
            e["clip"] = ppm(obj(d), obj(cl) + 1e-9 * obj(np.zeros(n)) + 1e-13)
        if tot is not None and np.sum(np.abs(i0[idx])) <= tot and not lims:
            e["clip"] = ppm(obj(d), obj(np.zeros(n)) * 1.0001 + 1e-13)
    if lims and tot is None and n:
        from scipy.optimize import lsq_linear
        S = 1e5
        y = lsq_linear(A2 * S, b2, bounds=((np.minimum(lo, i0)[idx] - i0[idx]) / S - 1e-12, (np.maximum(hi, i0)[idx] - i0[idx]) / S + 1e-12), tol=1e-14).x * S
        if np.all(i0[idx] >= lo[idx]) and np.all(i0[idx] <= hi[idx]):
            e["best"], e["gap"] = True, ppm(obj(d), obj(y) + 1e-4 * obj(np.zeros(n)) + 1e-13)
    return e


def weight(w, shape):
    if w in ("none",):
        return None
    if w == "float":
        return 2.0
    g = np.random.RandomState(5).uniform(0.2, 1.5, shape)
    if w == "zeros":
        g[: shape[0] // 4, :] = 0.0
    return g


def target(k, R, Z, F):
    I = {1: [2e4, -3e4, 1e4, 4e4, -2e4, 2e3], 2: [-1e4, -5e4, 3e4, 1e4, 5e4, -1e3]}[k]
    t = sum(i * loops(f, R, Z)[0] for i, f in zip(I, F))
    # something the coils cannot do
    return t + 0.01 * np.sin(3 * R) * np.cos(2 * Z)


def fit(h, eq, tok, ctl, cur, F, control, R, Z):
    idx = [i for i in range(6) if ctl[i]]
    i0 = cur()
    T = target(h["tgt"], R, Z, F) + 0.1 * h["off"] + eq.plasma_psi
    w = weight(h["w"], R.shape)
    keepT, keepw = T.copy(), None if w is None else np.copy(w)
    before = eq.plasma_psi.copy()
    W = np.broadcast_to(1.0 if w is None else w, R.shape)

    def demean(x):
        return ((x - np.sum(x * W) / np.sum(W)) * W).ravel()
    fixed = eq.plasma_psi + sum(i0[i] * loops(F[i], R, Z)[0] for i in range(6) if not ctl[i])
    if idx:
        A = np.array([demean(loops(F[i], R, Z)[0]) for i in idx]).T
        b = demean(np.broadcast_to(T - fixed, R.shape))
        x = np.linalg.lstsq(A, b, rcond=None)[0]
        r0 = np.sum((A @ i0[idx] - b) ** 2)
        control.ConstrainPsi2D(T, weights=w)(eq)
        i1 = cur()
        dx = ppm(A @ (i1[idx] - x), np.max(np.abs(b)) + 1e-12)
        gain = ppm(np.sum((A @ i1[idx] - b) ** 2), r0 + 1e-20)
    else:
        i1, dx, gain = cur(), 0, 0
    return {"ev": "fit2d", "cur": [sint(v) for v in i1], "lims": False, "lo": [0] * 6, "hi": [0] * 6, "dx": dx, "gain": gain,
            "plasma": bool(np.array_equal(before, eq.plasma_psi)),
            "inputs": bool(np.array_equal(T, keepT) and (w is None or np.array_equal(w, keepw)))}


def adv(h, eq, tok, ctl, cur, control, R, Z):
    idx = [i for i in range(6) if ctl[i]]
    i0 = cur()
    F = fils()
    T = target(1, R, Z, F)
    T = T - np.mean(T)
    w = weight(h["w"], R.shape)
    before = eq.plasma_psi.copy()
    kw = {} if w is None else {"weights": w}
    lims = LIMS.get(h["lim"])
    e = {"ev": "adv", "lims": lims is not None, "lo": [sint(LIMS[h["lim"]][i][0]) if lims else 0 for i in range(6)],
         "hi": [sint(LIMS[h["lim"]][i][1]) if lims else 0 for i in range(6)], "dx": 0, "inputs": True}
    W = np.broadcast_to(1.0 if w is None else w, R.shape)

    def value(I):
        p = eq.plasma_psi + sum(i * loops(f, R, Z)[0] for i, f in zip(I, F))
        return np.sum(((p - np.sum(p * W) / np.sum(W) - T) * W) ** 2)
    if idx:
        # one pair of limits per controlled element
        control.ConstrainPsi2DAdvanced(T, current_lims=[lims[i] for i in idx] if lims else None, **kw)(eq)
    i1 = cur()
    s = i0.copy()
    if lims:
        for i in idx:
            s[i] = min(max(s[i], lims[i][0]), lims[i][1])
    e["gain"] = ppm(value(i1), value(s) + 1e-20) if idx else 0
    e["cur"] = [sint(v) for v in i1]
    e["plasma"] = bool(np.array_equal(before, eq.plasma_psi))
    return e
