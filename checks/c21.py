import numpy as np
from scipy.integrate import solve_ivp
from vlib import gen
from vlib.surfaces import Surf
from vlib.oracle import sint, ppm, BIG
from checks import c14, c15
from checks.c15 import flux, facts, WALLS
from checks.c05 import inside

TRACE = "FieldLineTrace"
RULE = ("every recorded field line, followed in pieces, forward and back, is the one of spec/FieldLine.tla: a function of the angle "
        "alone which the closed form of the flux map gives, ending at the wall")
TRACE_CFG = gen.trace_cfg("CONSTANT Turn = 10\n", done="TraceDone")
LIMIT = 300
DOMS = {1: c15.DOM, 2: (0.35, 2.5, -1.05, 1.1)}
FV = {1: 2.0, 2: 9.0, 3: 4.0}
STEP = 2 * np.pi / 10
MESH = {1: (65, 65), 2: (129, 65), 3: (65, 129)}


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS BetweenWalls Pieces Reversible Rational AtTheWall\nPROPERTY LengthGrows\nCHECK_DEADLOCK FALSE\n"
           "CONSTANT Turn = 3\n")
    return [{"name": "FieldLine", "module": "FieldLine", "cfg": cfg}]


def scenarios(tier, seed):
    n, d = (160, 6) if tier == "quick" else (1200, 9)
    out, st = gen.simulate("FieldLineGen", "CONSTANT Depth = %d\n" % d, n, d, seed, "line")
    out = [s for s in out if facts(s["hist"][0]["f"], s["hist"][0]["s"], s["hist"][0]["wall"]) is not None]
    return out, st


class Real(c14.Real):
    def __init__(self, h0):
        import freegs
        from freegs import machine
        nx, ny = MESH[h0["mesh"]]
        D = DOMS[h0["dom"]]
        self.D = D
        self.s, self.wall = h0["s"], h0["wall"]
        self.bt = h0["fs"] * FV[h0["fv"]]
        R, Z = np.meshgrid(np.linspace(D[0], D[1], nx), np.linspace(D[2], D[3], ny), indexing="ij")
        self.R, self.Z = R, Z
        wall = machine.Wall(*[list(x) for x in WALLS[self.wall]]) if self.wall else None
        self.now = None
        self.eq = freegs.Equilibrium(machine.Machine([], wall=wall), Rmin=D[0], Rmax=D[1], Zmin=D[2], Zmax=D[3], nx=nx, ny=ny,
                                     boundary=self.given, psi=flux(h0["f"], self.s).psi(R, Z), order=4)
        one = self.bt
        self.prof = freegs.jtor.ProfilesPprimeFfprime(lambda x: 0 * x, lambda x: 0 * x, one, p_func=lambda x: 0 * x, f_func=lambda x: one + 0 * x)
        self.solve(h0["f"], h0["chk"])

    def gap(self, R, Z):
        """distance inside the wall (or the edge); negative outside"""
        if self.wall:
            P, Q = WALLS[self.wall]
            P, Q = np.append(P, P[0]), np.append(Q, Q[0])
            d = min(c15.segdist(R, Z, P[i], Q[i], P[i + 1], Q[i + 1]) for i in range(len(P) - 1) if P[i] != P[i + 1] or Q[i] != Q[i + 1])
            return d if inside(list(zip(*WALLS[self.wall])), np.array([R]), np.array([Z]))[0] else -d
        D, e = self.D, 1e-2
        return min(R - D[0] - e, D[1] - e - R, Z - D[2] - e, D[3] - e - Z)

    def exact(self, R, Z, ts, back):
        """(points at ts before the end, hit point or None)"""
        f, bt, sg = self.f, self.bt, (-1 if back else 1)

        def rhs(t, y):
            gr, gz = f.grad(y[0], y[1])
            br, bz, b = -gz / y[0], gr / y[0], bt / y[0]
            return [sg * y[0] * br / b, sg * y[0] * bz / b, y[0] * np.sqrt(br ** 2 + bz ** 2 + b ** 2) / abs(b)]

        def near(t, y):
            return self.gap(y[0], y[1]) - 0.006

        def out(t, y):
            return self.gap(y[0], y[1]) + 0.006
        near.terminal = out.terminal = True
        kw = dict(method="DOP853", rtol=1e-9, atol=1e-11, max_step=0.15)
        sol = solve_ivp(rhs, (0, ts[-1] + 0.7), [R, Z, 0.0], t_eval=ts, events=near, **kw)
        if not len(sol.t_events[0]):
            return sol.y.T, None, False
        # close to the wall: does it go through, or is it too close to say?
        t0, y0 = sol.t_events[0][0], sol.y_events[0][0]
        go = solve_ivp(rhs, (t0, t0 + 0.8), y0, events=(out, lambda t, y: self.gap(y[0], y[1])), **kw)
        if len(go.t_events[0]) and len(go.t_events[1]):
            return sol.y.T, np.append(go.y_events[1][0], go.t_events[1][0]), False
        return sol.y.T, np.append(y0, t0), True


def execute(scn):
    from freegs.fieldtracer import FieldTracer, traceFieldLines
    out = []
    try:
        h0 = scn["hist"][0]
        r = Real(h0)
        if r.sf is None:
            return [{"ev": "make", "k": 0}]
        f, eq = r.f, r.eq
        ft = FieldTracer(eq)
        start, qs = [], []
        for x, a in h0["lines"]:
            x, th = x / 100.0, np.array([2 * np.pi * a / 12 + 0.1])
            if x > 1 and not np.isfinite(r.sf.radius(x, th)[0]):
                x = 0.9
            rad = float(r.sf.radius(x, th)[0])
            P = [f.R0 + rad * np.cos(th[0]), f.Z0 + rad * np.sin(th[0])]
            # too close to the wall to say on which side of it, or outside of the domain
            D = r.D
            if abs(r.gap(*P)) < 0.02 or abs(r.sf.norm(*P) - x) > 1e-6 or not (D[0] + .03 < P[0] < D[1] - .03 and D[2] + .03 < P[1] < D[3] - .03):
                continue
            start.append(P)
            qs.append(r.sf.q(x, r.bt) if x < 0.95 else None)
        k = len(start)
        out.append({"ev": "make", "k": k})
        cur, at = [list(p) for p in start], [0] * k
        dead = [False] * k
        last = None
        for h in scn["hist"][1:]:
            before = r.state()
            op = h["op"]
            if op == "sol":
                e = sol(r, h, traceFieldLines)
                if e is not None:
                    e.update(ev="sol", same=r.unchanged(before))
                    out.append(e)
                continue
            if k == 0:
                continue
            if op == "restart":
                cur, at, dead = [list(p) for p in start], [0] * k, [False] * k
                out.append({"ev": "restart"})
                continue
            if op == "return":
                if last is None:
                    continue
                h = dict(last, back=not last["back"], shape=0, lst=False)
            last = h
            n, back = h["n"], h["back"]
            ts = np.linspace(0, n * STEP, n * h["m"] + 1)
            ang = ts + 0.1 * h["a0"]
            live = list(range(k))
            RR, ZZ = np.array([cur[i][0] for i in live]), np.array([cur[i][1] for i in live])
            if h["shape"] == 2 and k == 4:
                RR, ZZ = RR.reshape(2, 2), ZZ.reshape(2, 2)
            if h["shape"] == 3 and k == 1:
                RR, ZZ = float(RR[0]), float(ZZ[0])
            if h["shape"] == 1:
                RR, ZZ = RR.tolist(), ZZ.tolist()
            arg = ang.tolist() if h["lst"] else ang.copy()
            keep = (np.array(RR), np.array(ZZ))
            g = np.asarray(ft.follow(RR, ZZ, arg, backward=back))
            same = r.unchanged(before) and np.array_equal(keep[0], np.array(RR)) and np.array_equal(keep[1], np.array(ZZ)) and np.array_equal(ang, np.array(arg))
            shape = g.shape == (len(ang),) + np.shape(RR) + (3,)
            g = g.reshape(len(ang), k, 3)
            lines = []
            for i in live:
                p, q = g[:, i], cur[i]
                gap = r.gap(*q)
                gap = 0.0 if 0 < gap < 0.008 else gap
                ex, hit, graze = r.exact(q[0], q[1], ts, back) if gap > 0 else (np.array([[q[0], q[1], 0.0]]), None, False)
                near = gap == 0 or graze or (hit is not None and hit[3] >= ts[-1])      # meets the wall just after the end: may have stopped already
                m = len(ex) if hit is not None else (len(ts) if gap > 0 else 1)
                # points of the exact line well before its end
                pre = [j for j in range(m) if hit is None or ts[j] < hit[3] - 0.6]
                err = max([np.hypot(*(p[j, :2] - ex[j, :2])) for j in pre] or [0.0])
                x = {"hit": hit is not None and not near, "near": bool(near), "out": bool(gap < 0), "start": sint(max(np.hypot(*(p[0, :2] - q)), abs(p[0, 2])), 1e4),
                     "err": sint(err, 1e4), "len": sint(max([abs(p[j, 2] - ex[j, 2]) for j in pre] or [0.0]), 1e4), "mono": bool(np.all(np.diff(p[:, 2]) >= -1e-6)),
                     "flux": ppm((f.psi(p[:, 0], p[:, 1]) - f.psi(*start[i])) / (r.sf.b - r.sf.ax)), "wind": 0, "stop": 0, "beyond": 0, "moved": 0, "full": True,
                     "gone": sint(np.max(np.abs(p[:, :2] - p[0, :2])), 1e4) if gap < 0 else 0, "home": sint(np.hypot(*(p[-1, :2] - start[i])), 1e4)}
                # the flux is interpolated: a small difference at the start can add up
                x["tol"] = int(4 + n // 3)
                if gap > 0:
                    e2, _, _ = r.exact(q[0] + 2e-5, q[1], ts, back)
                    c = min(len(ex), len(e2), len(pre))
                    x["tol"] += min(5000, sint(5 * np.max(np.abs(ex[:c] - e2[:c])), 1e4)) if c else 0
                if near:
                    x["beyond"] = max(0, sint(-min(r.gap(*y[:2]) for y in p), 1e4))
                elif hit is not None:
                    x["stop"] = sint(np.hypot(*(p[-1, :2] - hit[:2])), 1e4)
                    x["beyond"] = max(0, sint(-min(r.gap(*y[:2]) for y in p), 1e4))
                    d = [j for j in range(len(ts)) if ts[j] > hit[3] + 0.05]
                    x["moved"] = sint(np.max(np.abs(p[d] - p[d[0]])), 1e4) if d else 0
                elif gap > 0:
                    x["full"] = bool(np.all(np.diff(p[:, 2]) > 0))
                    if qs[i] is not None and gap > 0:
                        a = np.unwrap(np.arctan2(p[:, 1] - f.Z0, p[:, 0] - f.R0))
                        b = np.unwrap(np.arctan2(ex[:, 1] - f.Z0, ex[:, 0] - f.R0))
                        # turns are whole poloidal turns: compare with 1/q over at least one
                        w = (a[-1] - a[0]) / (n * STEP)
                        if abs(b[-1] - b[0]) > 40 and h["m"] >= 5:
                            # with R to the right and Z up, B rotates the other way for positive q
                            want = (b[-1] - b[0]) / abs(b[-1] - b[0]) / abs(qs[i])
                            x["wind"] = max(0, ppm(w / want - 1) - int(1e6 * 2 * np.pi / abs(b[-1] - b[0]) * 0.3))
                lines.append(x)
                at[i] = at[i] + (-n if back else n)
                cur[i] = [float(p[-1, 0]), float(p[-1, 1])]
                # lines that have stopped start again from where they began
                if hit is not None or gap <= 0 or near or dead[i]:
                    dead[i] = True
            out.append({"ev": "follow", "n": n, "back": bool(back), "shape": bool(shape), "same": bool(same), "at": [a if not d else 1000000 for a, d in zip(at, dead)],
                        "lines": lines})
            for i in live:
                if dead[i]:
                    cur[i] = list(start[i])
        return out
    except Exception as x:
        return out + [gen.crash(x)]


def sol(r, h, trace):
    f = r.f
    if h["k"] == 0:
        return None
    wid = h["w"] / 100.0
    rad = float(r.sf.radius(1.0, np.array([0.0]))[0])
    rm = f.R0 + rad
    want = np.linspace(rm + wid / h["k"], rm + wid, h["k"])
    if rm + wid > r.D[1] - 0.05 or any(abs(r.gap(x, f.Z0)) < 0.01 for x in want):
        return None
    fw, bw = trace(r.eq, solwidth=wid, nlines=h["k"], nturns=h["t"], npoints=h["p"])
    sh = all(np.shape(a) == (h["p"], h["k"]) for o in (fw, bw) for a in (o.R, o.Z, o.length))
    if not sh:
        return {"shape": False, "start": 0, "fwd": 0, "bwd": 0, "stop": 0}
    st = max(np.max(np.abs(o.R[0] - want)) for o in (fw, bw))
    st = max(st, max(np.max(np.abs(o.Z[0] - f.Z0)) for o in (fw, bw)))
    ts = np.linspace(0, h["t"] * 2 * np.pi, h["p"])
    res, stop = {False: 0.0, True: 0.0}, 0.0
    for back, o in ((False, fw), (True, bw)):
        for i in range(h["k"]):
            if r.gap(want[i], f.Z0) < 0:
                res[back] = max(res[back], np.max(np.abs(o.R[:, i] - o.R[0, i])))
                continue
            ex, hit, graze = r.exact(o.R[0, i], o.Z[0, i], ts, back)
            pre = [j for j in range(len(ex)) if hit is None or ts[j] < hit[3] - 0.6]
            for j in pre:
                res[back] = max(res[back], np.hypot(o.R[j, i] - ex[j, 0], o.Z[j, i] - ex[j, 1]), abs(o.length[j, i] - ex[j, 2]) / 3)
            if hit is not None and not graze and hit[3] < ts[-1]:
                stop = max(stop, np.hypot(o.R[-1, i] - hit[0], o.Z[-1, i] - hit[1]))
    return {"shape": True, "start": sint(st, 1e4), "fwd": sint(res[False], 1e4), "bwd": sint(res[True], 1e4), "stop": sint(stop, 1e4)}
