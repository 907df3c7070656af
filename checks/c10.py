import hashlib
import numpy as np
from vlib import gen, tlc
from vlib.oracle import sint, BIG, MU0
from checks import c15

TRACE = "ProfileTrace"
RULE = ("every recorded history of evaluating a profile object on flux maps, changing its parameters in between, gives "
        "the current density, pressure and f which spec/Profile.tla says")
CONSTS = "CONSTANTS Ms = {%s}\n Ns = {%s}\n Ips = {%s}\n Paxs = {%s}\n Maps = {%s}\n"
TRACE_CFG = gen.trace_cfg(CONSTS % ("1", "1", "1", "1", "1"))
XS = [0.0, 0.125, 0.25, 0.5, 0.75, 0.9, 1.0]
U = 30000


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS EdgeAndAxis Decreasing MeanValue\nPROPERTY FitIsLastEvaluation\n"
           "CHECK_DEADLOCK FALSE\n")
    return [{"name": "Profile", "module": "Profile", "cfg": cfg + CONSTS % ("1, 2, 3", "1, 2, 3", "2, 5", "1, 4", "1, 2")}]


def scenarios(tier, seed):
    n, d = (170, 3) if tier == "quick" else (2000, 6)
    con = CONSTS % ("1, 2, 3", "1, 2, 3", "1000, 2500, 6000", "10, 40", "1, 2, 3, 4, 5, 6, 7, 8") + " Depth = %d\n" % d
    cfg = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n" + con
    items, r = tlc.generate("ProfileGen", cfg, workers=1,
                            args=("-simulate", "num=%d" % n, "-depth", str(d + 3), "-seed", str(seed)))
    out, seen = [], set()
    for it in items:
        c = it["conf"]
        ks = [h["map"] for h in it["hist"] if h["op"] == "eval"]
        key = hashlib.sha1(repr(it).encode()).hexdigest()
        if not ks or key in seen or any(c15.facts(k, c["s"], c["wall"]) is None for k in ks):
            continue
        # a boundary given by the caller (part of the way to the X-point); constrained profiles: see known findings
        if it["hist"][0]["kind"] != "table":
            c["ov"] = 0
        seen.add(key)
        out.append({"conf": c, "hist": it["hist"], "id": "prof-" + key[:10]})
    for kind in ("paxis", "betap"):
        for a, b in ((-1, 2), (2, -1), (-2, -2)):
            out.append({"conf": {"wall": 0, "mesh": 1, "s": 1, "chk": False, "raxis": 100, "fvac": 3, "ov": 0},
                        "hist": [{"op": "make", "kind": kind, "m": a, "n": b, "ip": 1000, "pax": 10}], "id": "prof-bad-%s%d%d" % (kind, a, b)})
        # the boundary flux handed to the solve is the plasma boundary
        out.append({"conf": {"wall": 0, "mesh": 1, "s": 1, "chk": False, "raxis": 100, "fvac": 3, "ov": 60},
                    "hist": [{"op": "make", "kind": kind, "m": 1, "n": 2, "ip": 2500, "pax": 10}, {"op": "eval", "map": 1}],
                    "id": "prof-override-" + kind})
    return out, {"states": r["states"], "transitions": r["states"]}


def build(mk, c, eq):
    from freegs import jtor
    fv = c["fvac"] * 4.1
    sh = lambda x: (1 - np.clip(x, 0, 1) ** mk["m"]) ** mk["n"]
    if mk["kind"] == "paxis":
        return jtor.ConstrainPaxisIp(eq, mk["pax"] * 100.0, mk["ip"] * 1e3 * c["s"], fv, alpha_m=mk["m"], alpha_n=mk["n"], Raxis=c["raxis"] / 100)
    if mk["kind"] == "betap":
        return jtor.ConstrainBetapIp(eq, mk["pax"] / 100.0, mk["ip"] * 1e3 * c["s"], fv, alpha_m=mk["m"], alpha_n=mk["n"], Raxis=c["raxis"] / 100)
    return jtor.ProfilesPprimeFfprime(lambda x: c["s"] * 3e3 * sh(x), lambda x: c["s"] * 0.11 * sh(x), fv)


def execute(scn):
    import freegs
    from freegs import machine
    c = scn["conf"]
    nx, ny = c15.MESH[c["mesh"]]
    D = c15.DOM
    R, Z = np.meshgrid(np.linspace(D[0], D[1], nx), np.linspace(D[2], D[3], ny), indexing="ij")
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    wall = machine.Wall(*[list(x) for x in c15.WALLS[c["wall"]]]) if c["wall"] else None
    now = {}

    def given(eq, J, psi):
        s = slice(None)
        for e in ((0, s), (-1, s), (s, 0), (s, -1)):
            psi[e] = now["psi"][e]
    first = [h["map"] for h in scn["hist"] if h["op"] == "eval"]
    f0 = c15.flux(first[0] if first else 1, c["s"])
    eq = freegs.Equilibrium(machine.Machine([], wall=wall), Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=nx, ny=ny,
                            boundary=given, psi=f0.psi(R, Z), order=4, check_limited=c["chk"])
    ev, prof, mk = [], None, None

    def rhs(f):
        def d2(x, a, x1, x2):
            return -(2 / a ** 2) * (1 + 2 * x * (1 / x2 - 1 / x1) - 3 * x ** 2 / (x1 * x2))
        u, v = f.uv(R, Z)
        return f.s * f.A * (d2(u, f.a, f.u1, f.u2) + d2(v, f.b, f.v1, f.v2)) - f.grad(R, Z)[0] / R

    for h in scn["hist"]:
        try:
            if h["op"] == "make":
                mk, raised = h, False
                try:
                    prof = build(h, c, eq)
                except ValueError:
                    raised = True
                ev.append({"ev": "make", "kind": h["kind"], "m": h["m"], "n": h["n"], "ip": h["ip"], "pax": h["pax"], "raised": raised})
            elif h["op"] == "ip":
                if mk["kind"] != "table":
                    prof.Ip = h["v"] * 1e3 * c["s"]
                ev.append({"ev": "ip", "v": h["v"]})
            elif h["op"] == "pax":
                if mk["kind"] == "paxis":
                    prof.paxis = h["v"] * 100.0
                elif mk["kind"] == "betap":
                    prof.betap = h["v"] / 100.0
                ev.append({"ev": "pax", "v": h["v"]})
            elif h["op"] == "eval":
                f = c15.flux(h["map"], c["s"])
                now["psi"] = f.psi(R, Z)
                eq.solve(None, Jtor=-rhs(f) / (MU0 * R))
                ax = float(f.psi(f.R0, f.Z0))
                rec, tol, contact, xs = c15.facts(h["map"], c["s"], c["wall"])
                lim = bool(c["wall"]) and c["chk"] and not (xs and abs(float(rec["pl"]) / 1e5 - ax) > abs(xs[0][2] - ax))
                if c["ov"]:
                    tgt = xs[0][2] if xs else float(f.psi(D[0], D[2]))
                    bd = ax + c["ov"] / 100.0 * (tgt - ax)
                    arg = bd
                else:
                    arg = None
                    if lim:
                        bd = float(eq.psi_bndry)
                        arg = bd if mk["kind"] == "table" else None
                    else:
                        bd = xs[0][2] if xs else float(f.psi(D[0], D[2]))
                psi_in = eq.psi()
                keep = psi_in.copy()
                own = {"R": eq.R.copy(), "Z": eq.Z.copy()}
                eq.solve(prof, psi=psi_in, psi_bndry=arg)
                same = bool(np.array_equal(keep, psi_in) and np.array_equal(own["R"], eq.R) and np.array_equal(own["Z"], eq.Z))
                if mk["kind"] != "table" and c["ov"]:
                    # the current has to stop at the boundary the caller gave
                    pn = (f.psi(R, Z) - ax) / (bd - ax)
                    ev.append({"ev": "override", "used": bool(np.all(np.asarray(eq.Jtor)[pn > 1.01] == 0))})
                    continue
                ev.append({"ev": "eval", "map": h["map"], "obs": observe(c, mk, eq, prof, f, ax, bd, xs, R, Z, dR, dZ, same)})
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev


def loose(prof, ax, bd, R, Z, psi, fv):
    """any order, repeated and beyond the boundary; functions given by the caller are used as they are"""
    from freegs import jtor
    x = np.array([0.7, 1.2, 0.2, 1.05, 1.3, 0.2, 0.0, 0.95])
    q = jtor.ProfilesPprimeFfprime(lambda x: 1e4 * (1.2 - x), lambda x: 0.01 * x, fv)
    q.Jtor(R, Z, psi, psi_bndry=bd)
    ok = True
    for o in (prof, q):
        for arr in (x, x[::-1], x.reshape(2, 4), x.reshape(2, 2, 2), x[:1]):
            for fn in (o.pressure, o.fpol):
                v = np.asarray(fn(arr))
                w = np.array([float(fn(float(y))) for y in arr.ravel()])
                ok &= v.shape == arr.shape and bool(np.allclose(v.ravel(), w, rtol=1e-9, atol=1e-9 * np.nanmax(np.abs(w)), equal_nan=True))
    # closed form: integral of p' from x to 1, times the flux difference
    # (the axis is found on the mesh, so the size is known less well than the shape)
    e = 1.2 * (1 - x) - 0.5 * (1 - x ** 2)
    p = np.asarray(q.pressure(x))
    ok &= bool(np.allclose(p / float(q.pressure(0.0)) * 0.7, e, rtol=1e-7, atol=1e-7))
    ok &= abs(float(q.pressure(0.0)) / (7e3 * (ax - bd)) - 1) < 0.02
    g = jtor.ProfilesPprimeFfprime(lambda x: 0 * x, lambda x: 0 * x, fv, p_func=lambda x: 5 + x, f_func=lambda x: 7 - x)
    ok &= g.pressure(0.5) == 5.5 and g.fpol(0.5) == 6.5 and g.fvac() == fv
    return bool(ok)


def observe(c, mk, eq, prof, f, ax, bd, xs, R, Z, dR, dZ, same):
    s = c["s"]
    J = np.asarray(eq.Jtor)
    psi = f.psi(R, Z)
    pn = (psi - ax) / (bd - ax)
    u, v = f.uv(R, Z)
    # private flux regions count only where an X-point bounds the core (without any, every point inside is plasma)
    core = (pn < 1)
    if xs:
        core &= (v > -f.v2) & (v < f.v1) & (u > -f.u2) & (u < f.u1)
    sure = np.abs(pn - 1) > 0.01
    near = np.zeros(R.shape, bool)
    for x in xs:
        near |= (np.abs(R - x[0]) < 2.2 * dR) & (np.abs(Z - x[1]) < 2.2 * dZ)
    sure &= ~near
    inner = np.zeros(R.shape, bool)
    inner[1:-1, 1:-1] = True
    xx = np.array(XS)
    pp, ff = np.asarray(prof.pprime(xx), float), np.asarray(prof.ffprime(xx), float)
    model = R * prof.pprime(np.clip(pn, 0, 1)) + prof.ffprime(np.clip(pn, 0, 1)) / (MU0 * R)
    scale = np.max(np.abs(model[core & sure]))
    m = core & sure & inner
    jres = np.max(np.abs(J - model)[m]) / scale
    out = ~core & sure
    jout = float(np.max(np.abs(J[out]))) if out.any() else 0.0
    p = np.asarray(prof.pressure(xx), float)
    fp = np.asarray(prof.fpol(xx), float)
    fv = c["fvac"] * 4.1
    dpsi = ax - bd
    pi = p / (pp[0] * dpsi)
    fi = (fp * np.abs(fp) - fv * abs(fv)) / (2 * ff[0] * dpsi) * np.sign(fv)
    # numerical noise of f^2 - fvac^2
    fnoise = 4e-16 * 8 * fv ** 2 / abs(2 * ff[0] * dpsi)
    forms = True
    for k, x in enumerate(XS):
        forms &= abs(prof.pressure(x) - p[k]) <= 1e-9 * (abs(p[0]) + 1e-300) and abs(prof.fpol(x) - fp[k]) <= 1e-12 * abs(fv) * 10
        forms &= abs(eq.pressure(x) - p[k]) <= 1e-9 * (abs(p[0]) + 1e-300) and abs(eq.fpol(x) - fp[k]) <= 1e-12 * abs(fv) * 10
        forms &= abs(eq.pprime(x) - pp[k]) <= 1e-12 * abs(pp[0]) and abs(eq.ffprime(x) - ff[k]) <= 1e-12 * abs(ff[0])
    forms &= bool(np.allclose(prof.fpol(list(XS)), fp, rtol=1e-12, atol=0)) and bool(np.allclose(prof.pressure(list(XS)), p, rtol=1e-12, atol=0))
    forms &= loose(prof, ax, bd, R, Z, psi, fv)
    two = prof.pressure(xx.reshape(1, -1))
    forms &= two.shape == (1, len(XS)) and bool(np.allclose(two[0], p)) and prof.fvac() == fv
    w = np.ones(R.shape)
    w[0, :] *= .5
    w[-1, :] *= .5
    w[:, 0] *= .5
    w[:, -1] *= .5
    ipown = float(np.sum(J * w) * dR * dZ)
    cm = np.where(near, J != 0, core)
    touches = bool(np.any(cm & ~inner))
    # poloidal beta by the definition of the constraint: own integrals over the core of the analytic map
    ex = np.linspace(0, 1, 4001)
    sh = (1 - ex ** mk["m"]) ** mk["n"]
    cum = np.concatenate([[0], np.cumsum(0.5 * (sh[1:] + sh[:-1]) * (ex[1] - ex[0]))])
    pres = pp[0] * dpsi * np.interp(np.clip(pn, 0, 1), ex, cum[-1] - cum)
    g = f.grad(R, Z)
    bp2 = (g[0] ** 2 + g[1] ** 2) / R ** 2
    den = np.sum((bp2 * R * w)[cm])
    betap = 2 * MU0 * np.sum((pres * R * w)[cm]) / den
    edge = np.sum((bp2 * R)[cm & (np.abs(pn - 1) < 0.05)]) / den
    return {"ip": sint(eq.plasmaCurrent() * s, 1), "ipown": sint(ipown * s, 1), "iptol": int(0.06 * abs(ipown)) + 1,
            "pax": sint(float(prof.pressure(0.0)), 1), "betap": sint(betap, 1000), "btol": int(1000 * betap * (0.3 if touches else 0.02 + 0.6 * edge)) + 2,
            "jres": sint(jres, 1e6), "jtol": 600, "jout": sint(jout, 1), "x": [sint(x, U) for x in XS],
            "pp": [sint(x, U) for x in pp / pp[0]], "ff": [sint(x, U) for x in ff / ff[0]],
            "p": [sint(x, U) for x in pi], "f": [sint(x, U) for x in fi], "ptol": 6, "ftol": 6 + sint(fnoise, U),
            "pedge": sint(float(prof.pressure(1.0)), 1e3), "fedge": sint(float(prof.fpol(1.0)) - fv, 1e9),
            "forms": bool(forms), "same": same, "dbg": [float(edge), float(ipown), lim_of(eq)]}


def lim_of(eq):
    return bool(eq.is_limited)
