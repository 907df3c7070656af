"""Replays Machine behaviours in the real coil classes and records observations.

Everything is observed through the public interface: coil attributes, psi, Br, Bz,
createPsiGreens/calcPsiFromGreens, control responses.  The observed fields are
projected on the specification's state (ampere-turns at lattice positions) by least
squares against an independent closed form of the field of a current loop."""
import numpy as np

from vlib.oracle import loop, rect_quad, sint, ppm, BIG, MU0

DR, DZ = 0.22, 0.24
# slot origins, well separated, all in Z > 0.3 so that mirror images are distinct
SLOTS = [(0.75, 0.60), (1.65, 0.55), (2.45, 0.85), (0.70, 1.75), (1.70, 1.80), (2.6, 2.0)]
SOL = {"r": 0.20, "dr": 0.16, "z0": -0.9, "z1": 1.0}


def slot_of(L, e, p):
    return sum(len(x["parts"]) for x in L[:e]) + p


def kind(L, e, p):
    return L[e]["parts"][p]["k"]


def lower(L, e, p):
    return L[e]["k"] in ("mirsym", "miranti") and p == 1


def nomirror(L, e, p):
    return kind(L, e, p) == "solenoid" or L[e]["k"] in ("mirsym", "miranti")


def centre(L, e, p, r, z):
    k = kind(L, e, p)
    if k == "solenoid":
        return (SOL["r"] + SOL["dr"] * r, SOL["z0"] + DZ * z)
    s = SLOTS[slot_of(L, e, 0 if L[e]["k"] in ("mirsym", "miranti") else p)]
    R, Z = s[0] + DR * r, s[1] + DZ * z
    return (R, -Z) if lower(L, e, p) else (R, Z)


def shape_of(L, e, p):
    """filaments (dr, dz, w) about the centre"""
    k = kind(L, e, p)
    if k == "shaped":
        return rect_quad(-0.04, 0.04, -0.05, 0.05)
    if k == "filament":
        return [(-0.03, -0.02, 0.25), (0.03, -0.02, 0.25), (0.03, 0.04, 0.25), (-0.03, 0.04, 0.25)]
    if k == "multilist":
        return [(-0.03, 0.0, 1 / 3), (0.0, 0.03, 1 / 3), (0.03, -0.03, 1 / 3)]
    return [(0.0, 0.0, 1.0)]


def filaments(L, e, p, r, z, turns, mirror=False):
    c = centre(L, e, p, r, z)
    if kind(L, e, p) == "solenoid":
        zs = np.linspace(c[1], c[1] + SOL["z1"] - SOL["z0"], turns)
        f = [(c[0], x, 1.0 / turns) for x in zs]
    else:
        f = [(c[0] + a, c[1] + b, w) for a, b, w in shape_of(L, e, p)]
    return [(a, -b, w) for a, b, w in f] if mirror else f


class Real:
    turn = 0

    def __init__(self, freegs, b):
        from freegs import machine as M
        self.M = M
        L = self.L = b["L"]
        self.trn = [list(t) for t in b["trn"]]
        self.pos = [[(0, 0) for _ in el["parts"]] for el in L]
        coils = []
        self.base = []
        for e, el in enumerate(L):
            cur, ctl = b["cur"][e], b["ctl"][e]
            k = el["k"]
            if k == "circuit":
                members = [("m%d" % p, self.make(e, p, 7.0, not ctl), el["parts"][p]["m10"] / 10.0)
                           for p in range(len(el["parts"]))]
                obj = M.Circuit(members, current=cur, control=ctl)
            elif k in ("mirsym", "miranti"):
                R, Z = centre(L, e, 0, 0, 0)
                obj = M.MirroredCoil(R, Z, current=cur, turns=self.trn[e][0], control=ctl,
                                     symmetric=(k == "mirsym"))
            else:
                obj = self.make(e, 0, cur, ctl)
            coils.append(("E%d" % e, obj))
        self.mach = M.Machine(coils)
        self.base = [[self.rz(self.part(e, p)) for p in range(len(el["parts"]))] for e, el in enumerate(L)]
        self.setup_points()

    def make(self, e, p, cur, ctl):
        M, L = self.M, self.L
        k, n = kind(L, e, p), self.trn[e][p]
        R, Z = centre(L, e, p, 0, 0)
        kw = dict(current=cur, turns=n, control=ctl)
        if k == "coil":
            return M.Coil(R, Z, **kw)
        if k == "shaped":
            a, b = 0.04, 0.05
            return M.ShapedCoil([(R - a, Z - b), (R + a, Z - b), (R + a, Z + b), (R - a, Z + b)], **kw)
        if k == "filament":
            s = shape_of(L, e, p)
            return M.FilamentCoil([R + a for a, b, w in s], [Z + b for a, b, w in s], **kw)
        if k == "filament1":
            return M.FilamentCoil(R, Z, **kw)
        if k == "multi1":
            return M.MultiCoil(R, Z, **kw)
        if k == "multilist":
            s = shape_of(L, e, p)
            kw.pop("turns")
            return M.MultiCoil([R + a for a, b, w in s], [Z + b for a, b, w in s], **kw)
        if k == "multimir":
            q = L[e]["parts"][p]
            return M.MultiCoil(R, Z, mirror=True, polarity=[float(q["w1"]), float(q["w2"])], **kw)
        if k == "solenoid":
            return M.Solenoid(R, Z, Z + SOL["z1"] - SOL["z0"], n, current=cur, control=ctl)
        if k == "precalc":
            r1, z1 = np.linspace(0.02, 3.6, 150), np.linspace(-3.3, 3.3, 151)
            Rg, Zg = np.meshgrid(r1, z1)
            d = np.hypot(Rg - R, Zg - Z)
            psi, br, bz = loop(R, Z, Rg + (d < 1e-9) * 1e-3, Zg)
            return M.PreCalcCoil([(R - .05, Z - .05), (R + .05, Z - .05), (R + .05, Z + .05), (R - .05, Z + .05)],
                                 Rg, Zg, br, bz, psi, **kw)
        raise AssertionError(k)

    def part(self, e, p):
        obj = self.mach.coils[e][1]
        if self.L[e]["k"] in ("circuit", "mirsym", "miranti"):
            return obj.coils[p][1]
        return obj

    def rz(self, c):
        if isinstance(c, self.M.Solenoid):
            return (c.Rs, c.Zsmin)
        return (float(c.R), float(c.Z))

    # ------------------------------------------------------------- operations
    def apply(self, op):
        o = op["op"]
        M = self.mach
        if o == "setcur":
            # through the machine's label access, as a user does
            M["E%d" % (op["e"] - 1)].current = float(op["v"])
        elif o == "pokeset":
            self.part(op["e"] - 1, op["p"] - 1).current = 77.0
            M["E%d" % (op["e"] - 1)].current = float(op["v"])
        elif o == "setctl":
            M["E%d" % (op["e"] - 1)].control = op["b"]
        elif o == "setturns":
            c = self.part(op["e"] - 1, op["p"] - 1)
            self.trn[op["e"] - 1][op["p"] - 1] = op["v"]
            if isinstance(c, self.M.Solenoid):
                c.Ns = op["v"]
            else:
                c.turns = op["v"]
        elif o in ("mover", "movez"):
            e, p, v = op["e"] - 1, op["p"] - 1, op["v"]
            c = self.part(e, p)
            r, z = self.pos[e][p]
            r, z = (v, z) if o == "mover" else (r, v)
            self.pos[e][p] = (r, z)
            b = self.base[e][p]
            c0, c1 = centre(self.L, e, p, 0, 0), centre(self.L, e, p, r, z)
            if isinstance(c, self.M.Solenoid):
                if o == "mover":
                    c.Rs = c1[0]
                else:
                    c.Zsmin = c1[1]
                    c.Zsmax = c1[1] + SOL["z1"] - SOL["z0"]
            elif o == "mover":
                for x in ([], [0.31], [3.3, 0.9], [b[0]])[op.get("via", 0)]:
                    c.R = x
                c.R = b[0] + c1[0] - c0[0]
            else:
                # by way of other places, also the midplane and below
                for x in ([], [-0.35], [0.0, 2.7], [-1.2, b[1]])[op.get("via", 0)]:
                    c.Z = x
                c.Z = b[1] + c1[1] - c0[1]
        elif o == "adjust":
            M.controlAdjust(np.array([float(x) for x in op["v"]]))
        elif o == "setctlcur":
            M.setControlCurrents([float(x) for x in op["v"]])
        else:
            raise AssertionError(o)

    # ------------------------------------------------------------ observation
    def setup_points(self):
        L = self.L
        con = []
        for e, el in enumerate(L):
            for p in range(len(el["parts"])):
                for r in (0, 1):
                    for z in (0, 1):
                        for m in (False, True):
                            if kind(L, e, p) == "solenoid":
                                con += filaments(L, e, p, r, z, 12, m)
                            else:
                                con += filaments(L, e, p, r, z, 1, m)
        con = np.array(con)
        g = np.random.RandomState(5)
        pts = []
        while len(pts) < 180:
            R, Z = g.uniform(0.06, 3.4), g.uniform(-3.0, 3.0)
            if np.min(np.hypot(con[:, 0] - R, con[:, 1] - Z)) > 0.16:
                pts.append((R, Z))
        P = np.array(pts)
        self.R2, self.Z2 = P[:, 0].reshape(12, 15), P[:, 1].reshape(12, 15)

    def basis(self):
        """columns: for each (e,p): 4 direct positions then 4 mirrored"""
        cols, R, Z = [], self.R2.ravel(), self.Z2.ravel()
        for e, el in enumerate(self.L):
            for p in range(len(el["parts"])):
                for m in (False, True):
                    if m and nomirror(self.L, e, p):
                        continue  # (nearly) degenerate with direct positions
                    for r in (0, 1):
                        for z in (0, 1):
                            f = [0.0, 0.0, 0.0]
                            for a, b, w in filaments(self.L, e, p, r, z, self.trn[e][p], m):
                                f = [x + w * y for x, y in zip(f, loop(a, b, R, Z))]
                            cols.append(f)
        A = np.array(cols)  # col, field, point
        return [A[:, i, :].T for i in range(3)]

    def fit(self, A, y, scale):
        """returns recovered coefficients per (e,p) [8 ints] and the residual in ppm"""
        try:
            y = np.asarray(y, float)
            if y.shape != self.R2.shape:
                raise ValueError
            y = y.ravel()
            if not np.all(np.isfinite(y)):
                raise ValueError
            w = 1.0 / np.sum(np.abs(A), axis=1)
            x, _, _, _ = np.linalg.lstsq(A * w[:, None], y * w, rcond=1e-13)
            res = np.max(np.abs((A @ x - y) * w))
            size = np.max(np.abs(y * w))
            rp = ppm(res, size) if size > 0 else (0 if res == 0 else BIG)
            v = [sint(c, scale) for c in x]
        except Exception:
            v, rp = [BIG] * A.shape[1], BIG
        out, i = [], 0
        for e, el in enumerate(self.L):
            row = []
            for p in range(len(el["parts"])):
                n = 4 if nomirror(self.L, e, p) else 8
                row.append(v[i:i + n] + [0] * (8 - n))
                i += n
            out.append(row)
        return out, rp

    def observe(self):
        M, L = self.mach, self.L
        R, Z = self.R2, self.Z2
        Ap, Ar, Az = self.basis()
        o = {"rec": {}, "res": {}, "resp": {}}
        zero = np.zeros_like(R)

        # what the coils carry is read before any field is evaluated
        pcur0 = [[sint(self.part(e, p).current, 100) for p in range(len(el["parts"]))] for e, el in enumerate(L)]

        def full(f):
            # a machine whose coils carry nothing may return a scalar zero
            v = f(R, Z)
            return v + zero

        qs = [("psi", lambda: full(M.psi)), ("br", lambda: full(M.Br)), ("bz", lambda: full(M.Bz)),
              ("green", lambda: M.calcPsiFromGreens(M.createPsiGreens(R, Z)) + zero)]
        self.turn = (self.turn + 1) % 4  # a different query comes first each time
        res = {n: f() for n, f in qs[self.turn:] + qs[:self.turn]}
        psi, br, bz, green = res["psi"], res["br"], res["bz"], res["green"]
        for nm, A, y in (("psi", Ap, psi), ("br", Ar, br), ("bz", Az, bz), ("green", Ap, green)):
            o["rec"][nm], o["res"][nm] = self.fit(A, y, 100.0)
        for nm, A, f in (("psi", Ap, M.controlPsi), ("br", Ar, M.controlBr), ("bz", Az, M.controlBz)):
            lst = f(R, Z)
            rows, k = [], 0
            ctl = [e for e, (lab, c) in enumerate(M.coils) if c.control]
            for i, y in enumerate(lst):
                rec, rp = self.fit(A, y + zero, 1000.0)
                e = ctl[i] if i < len(ctl) else 0
                own = rec[e]
                # a response which is not (only) this element's field is poisoned
                stray = max([abs(v) for f_, row in enumerate(rec) if f_ != e for q in row for v in q] or [0])
                if stray > 60 or rp > (30 if nm == "psi" else 500):
                    own = [[BIG] * 8 for _ in own]
                rows.append(own)
            o["resp"][nm] = rows
        # scalars against arrays; 1-D arrays against 2-D
        worst = 0
        for i in (0, 67, 131):
            a, b = float(R.flat[i]), float(Z.flat[i])
            for f, F in ((M.psi, psi), (M.Br, br), (M.Bz, bz)):
                ref = np.max(np.abs(F)) or 1.0
                worst = max(worst, ppm(np.asarray(f(a, b), float).reshape(-1)[0] - F.flat[i], ref))
        one = M.psi(R[3], Z[3]) + zero[3]
        worst = max(worst, ppm(one - psi[3], np.max(np.abs(psi)) or 1.0))
        o["scal"] = worst
        o["zero"] = sint(np.max(np.abs(psi)) + np.max(np.abs(br)) + np.max(np.abs(bz)), 1e12)
        cs = 0
        for e, el in enumerate(L):
            c = M.coils[e][1]
            if el["k"] in ("circuit", "mirsym", "miranti"):
                for f in ("psi", "Br", "Bz"):
                    tot = getattr(c, f)(R, Z)
                    s = sum(getattr(x, f)(R, Z) for _, x, _ in c.coils)
                    ref = max([np.max(np.abs(getattr(x, f)(R, Z))) for _, x, _ in c.coils] + [1e-30])
                    cs = max(cs, ppm(tot - s, ref))
        o["circsum"] = cs
        o["cur"] = [sint(c.current, 100) for _, c in M.coils]
        o["ctl"] = [bool(c.control) for _, c in M.coils]
        gc = M.getCurrents()
        o["getcur"] = [sint(gc.get("E%d" % e, np.nan), 100) for e in range(len(L))]
        o["ctlcur"] = [sint(x, 100) for x in M.controlCurrents()]
        o["pcur0"] = pcur0
        o["pcur"], o["pctl"], o["trn"], o["pos"] = [], [], [], []
        for e, el in enumerate(L):
            a, b, t, q = [], [], [], []
            for p in range(len(el["parts"])):
                c = self.part(e, p)
                a.append(sint(c.current, 100))
                b.append(bool(c.control))
                t.append(int(c.Ns if isinstance(c, self.M.Solenoid) else c.turns))
                now, base = self.rz(c), self.base[e][p]
                c0, c1 = centre(L, e, p, 0, 0), centre(L, e, p, 1, 1)
                q.append([sint((now[0] - base[0]) / (c1[0] - c0[0])) if abs(((now[0] - base[0]) / (c1[0] - c0[0])) % 1) < 1e-6 or abs(((now[0] - base[0]) / (c1[0] - c0[0])) % 1 - 1) < 1e-6 else BIG,
                          sint((now[1] - base[1]) / (c1[1] - c0[1])) if abs(((now[1] - base[1]) / (c1[1] - c0[1])) % 1) < 1e-6 or abs(((now[1] - base[1]) / (c1[1] - c0[1])) % 1 - 1) < 1e-6 else BIG])
            o["pcur"].append(a)
            o["pctl"].append(b)
            o["trn"].append(t)
            o["pos"].append(q)
        return o


def execute(scn):
    import freegs
    hist = scn["hist"]
    b = hist[0]
    real = Real(freegs, b)
    ev = [{"ev": "build", "lay": b["lay"], "cur0": b["cur"], "ctl0": b["ctl"], "trn0": b["trn"],
           "obs": real.observe()}]
    for op in hist[1:]:
        try:
            real.apply(op)
            d = {k: v for k, v in op.items() if k != "op"}
            d["ev"] = op["op"]
            d["obs"] = real.observe()
        except Exception as x:
            ev.append({"ev": "crash", "exc": type(x).__name__, "info": repr(x) + repr(op)})
            break
        ev.append(d)
    return ev
