import contextlib
import copy
import functools
import hashlib
import io
import os
import re
import shutil
import tempfile
import numpy as np
from vlib import gen
from vlib.oracle import ppm, BIG
from checks import c14
from checks.c15 import WALLS, DOM, facts

TRACE = "GFileTrace"
RULE = ("every recorded history of solves, G-EQDSK and DivGeo writes, and reads is a behaviour of spec/GFile.tla: an independent "
        "parser finds in each file, and the reader makes of it, the equilibrium the specification says it holds")
CONSTS = "CONSTANTS Files = {1, 2}\n"
TRACE_CFG = gen.trace_cfg(CONSTS, done="TraceDone")
LIMIT = 300
LABEL = {0: None, 1: "abc", 2: "a longer label"}
BOX = {0: None, 1: ([0.25, 1.8, 1.8, 0.25], [-0.9, -0.9, 0.9, 0.9]), 2: ([0.2, 1.4, 1.4, 0.2], [-0.85, -0.85, 0.85, 0.85]),
       3: ([0.3, 1.2, 1.85, 1.85, 1.2, 0.3], [-0.8, -0.95, -0.8, 0.7, 0.95, 0.75])}
# mesh, sign of current, sign of field, wall, plasma current, axis pressure, reference radius
CFG = {1: (33, 33, 1, 1, 0, 2e5, 1e3, 1.0), 2: (33, 33, -1, 1, 2, 2e5, 1e3, 1.3), 3: (65, 33, 1, -1, 1, 1e5, 1e3, 0.9), 4: (33, 65, -1, -1, 0, 3e5, 5e3, 1.1),
       5: (33, 33, 1, -1, 2, 2e5, 2e3, 1.0), 6: (33, 33, -1, -1, 1, 1.5e5, 4e3, 1.2), 7: (65, 65, 1, 1, 3, 2.5e5, 2e3, 1.0), 8: (65, 33, -1, 1, 3, 2e5, 1e3, 0.8)}
RD = {1: (0.1, 2.0, -1.0, 1.0), 2: (0.05, 2.2, -1.15, 1.1), 3: (0.3, 1.85, -0.95, 0.95), 4: (0.15, 1.95, -1.2, 1.0)}
XS = np.array([0.2, 0.45, 0.7])


def models(tier):
    cfg = ("SPECIFICATION Spec\nPROPERTIES FilesIndependent ReadingGivesWhatWasWritten RoundTrip\nCHECK_DEADLOCK FALSE\n" + CONSTS)
    return [{"name": "GFile", "module": "GFile", "cfg": cfg}]


def scenarios(tier, seed):
    n, d, m, e = (70, 8, 36, 6) if tier == "quick" else (700, 12, 300, 9)
    out, st = gen.simulate("GFileGen", 'CONSTANTS Depth = %d\n What = "map"\n' % d, n, d, seed, "gmap")
    keep = []
    for s in out:
        h0 = s["hist"][0]
        w, k, ok = h0["wall"], h0["f"], True
        for h in s["hist"]:
            k = h["f"] if h["op"] == "solve" else k
            w = h["w"] if h["op"] == "wall" else w
            ok = ok and facts(k, h0["s"], w) is not None
        if ok:
            keep.append(s)
    two, st2 = gen.simulate("GFileGen", 'CONSTANTS Depth = %d\n What = "solved"\n' % e, m, e, seed + 1, "gsol")
    def limited(s):
        """a limited plasma does not keep its current on another mesh: the solution drifts, and nothing is claimed"""
        c, f = 0, {}
        for h in s["hist"]:
            c = h["c"] if h["op"] == "make" else c
            if h["op"] == "write":
                f[h["f"]] = c
            if h["op"] == "read" and CFG[f[h["f"]]][4] == 2 and (h["v"] == "mesh" or h["dom"] > 1):
                return True
            # nor when a file without wall is read into a machine whose wall cuts the plasma
            if h["op"] == "read" and h["m"] == "live" and CFG[f[h["f"]]][4] == 0 and CFG[c][4] == 2:
                return True
        return False
    two = [s for s in two if not limited(s)]
    fix = []
    for c in CFG:
        for j, r in enumerate([{"m": "fresh", "dom": 0, "v": "plain", "sol": False}, {"m": "busy", "dom": c % 4 + 1, "v": "plain", "sol": False}] +
                              ([{"m": "walled", "dom": 0, "v": "mesh", "sol": False}, {"m": "live", "dom": 0, "v": "cocos", "sol": True}] if c in (1, 2, 3) else [])):
            if CFG[c][4] == 2 and (r["v"] == "mesh" or r["dom"] > 1):
                continue
            fix.append({"id": "gfix-%d-%d" % (c, j), "hist": [{"op": "make", "c": c}, {"op": "write", "f": 1, "fmt": "g", "lab": 0, "ox": False},
                                                             {"op": "parse", "f": 1}, dict(r, op="read", f=1)]})
    return fix + two + keep, st


# ---------------------------------------------------------------- independent parsers
def numbers(text, n, pos):
    """n fields of 16 characters, five to a line"""
    out = []
    for k in range(-(-n // 5)):
        line = text[pos].rstrip("\n")
        pos += 1
        m = min(5, n - 5 * k)
        out += [float(line[16 * i:16 * i + 16]) for i in range(m)]
    return np.array(out), pos


def parse_g(path):
    t = open(path).read().split("\n")
    _, nx, ny = [int(x) for x in t[0].split()[-3:]]
    h, p = numbers(t, 20, 1)
    d = dict(zip(("rdim", "zdim", "rcentr", "rleft", "zmid", "rmagx", "zmagx", "simagx", "sibdry", "bcentr", "cpasma"), h[:11]))
    d["dup"] = bool(h[11] == h[7] and h[13] == h[5] and h[15] == h[6] and h[17] == h[8])
    d["nx"], d["ny"], d["comment"] = nx, ny, t[0]
    for k in ("fpol", "pres", "ff", "pp"):
        d[k], p = numbers(t, nx, p)
    a, p = numbers(t, nx * ny, p)
    d["psi"] = a.reshape(ny, nx).T           # R runs fastest
    d["q"], p = numbers(t, nx, p)
    nb, nl = int(t[p][:5]), int(t[p][5:10])
    a, p = numbers(t, 2 * nb, p + 1)
    d["bdry"] = a.reshape(-1, 2)
    d["lim"] = None
    if nl:
        a, p = numbers(t, 2 * nl, p)
        d["lim"] = a.reshape(-1, 2)
    d["rest"] = "".join(t[p:]).strip()
    return d


def parse_d(path):
    t = open(path).read()

    def val(k):
        return float(re.search(r"^\s*%s\s*=\s*([-+0-9.eEdD]+)" % k, t, re.M).group(1))
    nx, ny = int(val("jm")), int(val("km"))
    i, j, k = t.index("r(1:jm);"), t.index("z(1:km);"), t.index("((psi(j,k)-psib,j=1,jm),k=1,km)")

    def arr(s):
        return np.array([float(x) for x in s.split()])
    r, z = arr(t[i + 8:j]), arr(t[j + 8:k])
    psi = arr(t[k + len("((psi(j,k)-psib,j=1,jm),k=1,km)"):]).reshape(ny, nx).T
    return {"nx": nx, "ny": ny, "r": r, "z": z, "psi": psi, "psib": val("psib"), "btf": val("btf"), "rtf": val("rtf")}


def write_g(d, path):
    """another code's file: the same data, perhaps on another mesh or in another convention"""
    with open(path, "w") as fh:
        fh.write("%-48s%4d%4d%4d\n" % ("  OTHER   01/01/2000    # 1  0ms", 3, d["nx"], d["ny"]))

        def put(a):
            a = np.asarray(a, float)
            for i in range(0, len(a), 5):
                fh.write("".join("%16.9E" % x for x in a[i:i + 5]) + "\n")
        put([d["rdim"], d["zdim"], d["rcentr"], d["rleft"], d["zmid"], d["rmagx"], d["zmagx"], d["simagx"], d["sibdry"], d["bcentr"],
             d["cpasma"], d["simagx"], 0, d["rmagx"], 0, d["zmagx"], 0, d["sibdry"], 0, 0])
        for k in ("fpol", "pres", "ff", "pp"):
            put(d[k])
        put(d["psi"].T.ravel())
        put(d["q"])
        nl = 0 if d["lim"] is None else len(d["lim"])
        fh.write("%5d%5d\n" % (len(d["bdry"]), nl))
        put(d["bdry"].ravel())
        if nl:
            put(d["lim"].ravel())


# ---------------------------------------------------------------- equilibria
class Maps(c14.Real):
    """closed-form flux maps"""
    R0 = 1.15

    def __init__(self, h0):
        c14.Real.__init__(self, h0)
        self.eq.tokamak.R0 = self.R0
        self.chk, self.k = h0["chk"], h0["f"]

    def shape(self, x):
        return 1 - np.asarray(x, float) ** 2

    def solve(self, k, chk):
        import freegs
        self.k, self.chk = k, chk
        if not hasattr(self, "pf"):
            a, b = 3e4, 0.7
            self.pf = (lambda x: a * self.shape(x), lambda x: b * (1 + self.shape(x) / 3))
            self.prof = freegs.jtor.ProfilesPprimeFfprime(self.pf[0], self.pf[1], self.pr.fs * c14.FVAC, p_func=self.pr.p, f_func=self.pr.f)
        c14.Real.solve(self, k, chk)

    def snap(self):
        f, e, sf = self.f, self.eq, self.sf
        if sf is None:
            return None
        return {"dom": DOM, "shape": self.R.shape, "rcentr": self.R0, "fvac": self.pr.fs * c14.FVAC, "axis": (f.R0, f.Z0), "ptp": np.ptp(self.now),
                "psi": self.now - sf.ax, "sib": sf.b - sf.ax, "ip": e.plasmaCurrent(), "pres": self.pr.p, "fpol": self.pr.f, "pp": self.pf[0], "ff": self.pf[1],
                "q": np.array([sf.q(x, float(self.pr.f(x))) for x in XS]), "norm": sf.norm}


@functools.lru_cache(None)
def solved(c):
    import freegs
    nx, ny, si, sf, w, ip, pax, R0 = CFG[c]
    tok = freegs.machine.TestTokamak()
    tok = freegs.machine.Machine(tok.coils, wall=freegs.machine.Wall(*[list(x) for x in BOX[w]]) if w else None, R0=R0)
    eq = freegs.Equilibrium(tokamak=tok, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=nx, ny=ny)
    eq._updatePlasmaPsi(si * eq.plasma_psi)
    prof = freegs.jtor.ConstrainPaxisIp(eq, pax, si * ip, sf * 2.0)
    con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.6)])
    freegs.solve(eq, prof, con, check_limited=bool(w), rtol=1e-5, maxits=80)
    return eq


class Solved:
    def __init__(self, c):
        self.c, self.eq = c, copy.deepcopy(solved(c))
        self.si, self.sf_, self.w = CFG[c][2], CFG[c][3], CFG[c][4]

    def snap(self):
        return snap_of(self.eq, CFG[self.c][7], self.sf_ * 2.0)


def snap_of(e, R0, fvac):
    psi = e.psi().copy()
    from freegs import critical
    o, _ = critical.find_critical(e.R, e.Z, psi)
    ax = o[0]
    b, prof = float(e.psi_bndry), copy.copy(e._profiles)
    from scipy.interpolate import RectBivariateSpline
    sp = RectBivariateSpline(e.R[:, 0], e.Z[0, :], (psi - ax[2]) / (b - ax[2]))
    return {"dom": (e.Rmin, e.Rmax, e.Zmin, e.Zmax), "shape": psi.shape, "rcentr": R0, "fvac": fvac, "axis": ax[:2], "psi": psi - ax[2], "ptp": np.ptp(psi), "sib": b - ax[2],
            "ip": e.plasmaCurrent(), "pres": prof.pressure, "fpol": prof.fpol, "pp": prof.pprime, "ff": prof.ffprime, "q": np.array(e.q(XS)),
            "norm": lambda R, Z: sp(R, Z, grid=False), "mask": np.array(e.mask) > 0, "R": e.R.copy(), "Z": e.Z.copy(), "lim": bool(e.is_limited),
            "coils": [c.current for _, c in e.tokamak.coils], "p3": np.asarray(e.pressure(XS), float), "f3": np.asarray(e.fpol(XS), float)}


def rel(a, b, s=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return BIG
    return ppm(a - b, s if s else max(np.max(np.abs(b)), 1e-30))


def errs_g(d, s):
    if (d["nx"], d["ny"]) != s["shape"]:
        return dict.fromkeys(("mesh", "psi", "axis", "sib", "zero", "ip", "fvac", "pres", "fpol", "pp", "ff", "q", "bdry"), BIG) | {"closed": False}
    x = np.linspace(0, 1, d["nx"])
    r0, r1, z0, z1 = s["dom"]
    b = d["bdry"]
    return {"mesh": rel([d["rleft"], d["rleft"] + d["rdim"], d["zmid"] - d["zdim"] / 2, d["zmid"] + d["zdim"] / 2], s["dom"]),
            "psi": rel(d["psi"] - np.mean(d["psi"]), s["psi"] - np.mean(s["psi"]), s["ptp"]),
            "axis": ppm(np.array([d["rmagx"] - s["axis"][0], d["zmagx"] - s["axis"][1]])),
            "sib": ppm(d["sibdry"] - d["simagx"] - s["sib"], s["sib"]), "zero": rel(d["psi"] - d["simagx"], s["psi"], s["ptp"]),
            "ip": ppm(d["cpasma"] - s["ip"], s["ip"]), "fvac": max(ppm(d["rcentr"] * d["bcentr"] / s["fvac"] - 1), ppm(d["rcentr"] / s["rcentr"] - 1)),
            "pres": rel(d["pres"], s["pres"](x)), "fpol": rel(d["fpol"], s["fpol"](x)), "pp": rel(d["pp"], s["pp"](x)), "ff": rel(d["ff"], s["ff"](x)),
            "q": rel(np.interp(XS, x, d["q"]) / s["q"], np.ones(3)),
            "bdry": ppm(s["norm"](b[:, 0], b[:, 1]) - 1) if len(b) > 3 else BIG, "closed": bool(len(b) > 3 and np.array_equal(b[0], b[-1]))}


def errs_d(d, s):
    if d["psi"].shape != s["shape"]:
        return {"mesh": BIG, "psi": BIG, "sib": BIG, "fvac": BIG}
    rr, zz = np.linspace(s["dom"][0], s["dom"][1], s["shape"][0]), np.linspace(s["dom"][2], s["dom"][3], s["shape"][1])
    return {"mesh": max(rel(d["r"], rr), rel(d["z"], zz)), "psi": rel(d["psi"], s["psi"] - s["sib"], s["ptp"]) if abs(d["psib"]) < 1e30 else BIG,
            "sib": rel(d["psi"] - np.mean(d["psi"]), s["psi"] - np.mean(s["psi"]), s["ptp"]),
            "fvac": max(ppm(d["btf"] * d["rtf"] / s["fvac"] - 1), ppm(d["rtf"] / s["rcentr"] - 1))}


def same_wall(lim, w, walls):
    if lim is None or w == 0:
        return lim is None and w == 0
    want = np.array(walls[w], float).T
    return lim.shape == want.shape and bool(np.max(np.abs(lim - want)) < 1e-7)


def execute(scn):
    tmp = tempfile.mkdtemp(prefix="vg_")
    try:
        return run(scn, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def stamp(e):
    return (hashlib.sha1(e.plasma_psi.tobytes() + (b"" if e.mask is None else np.array(e.mask, float).tobytes())).hexdigest(), e.psi_bndry, e.psi_axis,
            e.is_limited, e.plasmaCurrent(), [getattr(c, "current", 0) for _, c in e.tokamak.coils], e.tokamak.R0)


def run(scn, tmp):
    from freegs import geqdsk, divgeo, critical, machine
    hist = scn["hist"]
    maps = "c" not in hist[0]
    walls = WALLS if maps else BOX
    ev, snaps, disk, r, wall = [], [], {}, None, 0

    def path(f):
        return os.path.join(tmp, "f%d" % f)

    for h in hist:
        try:
            if h["op"] == "make":
                first = r is None
                r = Maps(h) if maps else Solved(h["c"])
                wall = h["wall"] if maps else CFG[h["c"]][4]
                snaps.append(r.snap())
                ev.append({"ev": "make", "v": len(snaps), "w": wall, "first": first})
            elif h["op"] == "solve":
                r.solve(h["f"], h["chk"])
                snaps.append(r.snap())
                ev.append({"ev": "solve", "v": len(snaps)})
            elif h["op"] == "wall":
                r.eq.tokamak.wall = machine.Wall(*[list(x) for x in WALLS[h["w"]]]) if h["w"] else None
                wall = h["w"]
                r.solve(r.k, r.chk)
                snaps.append(r.snap())
                ev.append({"ev": "wall", "v": len(snaps), "w": h["w"]})
            elif h["op"] == "write":
                e = r.eq
                if e.psi_bndry is None:
                    continue
                before = stamp(e)
                ox = critical.find_critical(e.R, e.Z, e.psi()) if h["ox"] else None
                with open(path(h["f"]), "w") as fh:
                    if h["fmt"] == "g":
                        geqdsk.write(e, fh, label=LABEL[h["lab"]], oxpoints=ox)
                    else:
                        divgeo.write(e, fh, oxpoints=ox)
                disk[h["f"]] = h["fmt"]
                lab = LABEL[h["lab"]]
                ev.append({"ev": "write", "f": h["f"], "fmt": h["fmt"], "same": stamp(e) == before,
                           "lab": h["fmt"] == "d" or lab is None or lab[:8] in open(path(h["f"])).readline()})
            elif h["op"] == "parse":
                if h["f"] not in disk:
                    continue
                g = disk[h["f"]] == "g"
                err = errs_g if g else errs_d
                try:
                    d = (parse_g if g else parse_d)(path(h["f"]))
                except Exception:
                    d = None
                none = {"nx": -1, "ny": -1, "psi": np.zeros((1, 1))}
                ev.append({"ev": "parse", "f": h["f"], "errs": [{} if s is None else err(d or none, s) for s in snaps],
                           "walls": [same_wall(d["lim"], w, walls) for w in range(len(walls) + (0 if 0 in walls else 1))] if g and d else [],
                           "ok": d is not None and (not g or (d["dup"] and d["rest"] == ""))})
            elif h["op"] == "read":
                if disk.get(h["f"]) != "g":
                    continue
                e, r2, w = read(h, r, path, tmp, snaps)
                e["m"], e["f"], e["w"] = h["m"], h["f"], w
                ev.append(e)
                if h["m"] == "live":
                    if not e["ok"]:
                        break
                    break           # the machine in use now has another equilibrium
        except Exception as x:
            ev.append(gen.crash(x))
            break
    return ev


def read(h, r, path, tmp, snaps):
    from freegs import geqdsk, machine
    p = path(h["f"])
    raw = open(p, "rb").read()
    use, n = p, None
    cocos = 1
    if h["v"] != "plain":
        d = parse_g(p)
        use = os.path.join(tmp, "variant")
        if h["v"] == "cocos":
            cocos = 11
            for k in ("psi", "simagx", "sibdry"):
                d[k] = d[k] * 2 * np.pi
        else:
            from scipy.interpolate import RectBivariateSpline
            x, y = np.linspace(0, 1, d["nx"]), np.linspace(0, 1, d["ny"])
            d["nx"], d["ny"], n = 52, 45, (65, 65)
            u = np.linspace(0, 1, 52)
            d["psi"] = RectBivariateSpline(x, y, d["psi"])(u, np.linspace(0, 1, 45))
            from scipy.interpolate import InterpolatedUnivariateSpline
            for k in ("fpol", "pres", "ff", "pp", "q"):
                d[k] = InterpolatedUnivariateSpline(x, d[k])(u)
        write_g(d, use)
    w = 0
    if h["m"] == "live":
        tok = r.eq.tokamak
    else:
        tok = machine.Machine(machine.TestTokamak().coils)
        if h["m"] in ("busy", "walled"):
            for i, (_, c) in enumerate(tok.coils):
                c.current = 1e6 * (i - 1)
        if h["m"] == "walled":
            w = 1
            tok = machine.Machine(tok.coils, wall=machine.Wall(*[list(x) for x in BOX[1]]), R0=0.5)
    kw = {"rtol": 1e-6, "maxits": 120, "cocos": cocos, "fit_sol": h["sol"]}
    if h["dom"]:
        kw["domain"] = RD[h["dom"]]
    try:
        with open(use) as fh:
            e = geqdsk.read(fh, tok, **kw)
    except Exception as x:
        c = gen.crash(x)
        return {"ev": "read", "ok": False, "info": c["info"], "file": open(p, "rb").read() == raw}, None, w
    lim = None if e.tokamak.wall is None else np.array([e.tokamak.wall.R, e.tokamak.wall.Z], float).T
    out = {"ev": "read", "ok": True, "file": open(p, "rb").read() == raw, "errs": [errs_r(e, s, h, n) for s in snaps],
           "walls": [same_wall(lim, i, BOX) for i in range(len(BOX))]}
    return out, e, w


def errs_r(e, s, h, n):
    m = s["mask"]
    R, Z = s["R"][m], s["Z"][m]
    got, want = e.psiNRZ(R, Z), s["norm"](R, Z)
    ab = e.psiRZ(R, Z) - e.psi_axis
    dom = (e.Rmin, e.Rmax, e.Zmin, e.Zmax)
    if h["dom"]:
        d = RD[h["dom"]]
        # as fine as the file's mesh, 2^n + 1 points
        hr, hz = (s["dom"][1] - s["dom"][0]) / (s["shape"][0] - 1), (s["dom"][3] - s["dom"][2]) / (s["shape"][1] - 1)
        ok = bool(np.allclose(dom, d) and e.dR <= hr * 1.0001 and e.dZ <= hz * 1.0001)
    else:
        ok = bool(np.allclose(dom, s["dom"], atol=1e-7) and e.psi().shape == (n or s["shape"]))
    wide = 5 if h["v"] == "mesh" or h["dom"] > 1 else 1
    cs = max(abs(x) for x in s["coils"])
    return {"mesh": ok, "psin": ppm(got - want) // wide, "abs": ppm(ab - want * s["sib"], s["sib"]) // wide, "ip": ppm(e.plasmaCurrent() / s["ip"] - 1) // wide,
            "q": rel(np.array(e.q(XS)) / s["q"], np.ones(3)) // wide, "coils": max(ppm(c.current - x, cs) for (_, c), x in zip(e.tokamak.coils, s["coils"])) // wide,
            "pres": rel(e.pressure(XS), s["p3"]), "fpol": rel(e.fpol(XS), s["f3"]), "lim": bool(e.is_limited) == s["lim"]}
