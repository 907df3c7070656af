import copy
import random
import numpy as np
from vlib import gen
from vlib.oracle import sint, BIG

TRACE = "OptimiserTrace"
RULE = ("every recorded optimisation is a behaviour of spec/Optimiser.tla: each trial mixes three other agents, an agent is "
        "replaced only by a better trial, and what is returned has the lowest score of everything measured")
CONSTS = "CONSTANTS Vals = {0, 1, 2, 3}\n Agents = 4\n Gens = %d\n"
TRACE_CFG = gen.trace_cfg(CONSTS % 2, done="TraceDone")
K = 1e3      # the controls of the abstract runs have steps of 0.001
LIMIT = 200
STARTS = {1: [0.1, 0.1, 0.1], 2: [5.0, -3.0, 0.5], 3: [0.0, 2.0, -7.5], 4: [20.0, 1.0, 0.0]}


def models(tier):
    cfg = ("SPECIFICATION Spec\nINVARIANTS BestIsLowest BestNotWorseThanPopulation BestAliveAfterGeneration\n"
           "PROPERTIES AgentsNeverGetWorse Ends\nCHECK_DEADLOCK FALSE\n")
    return [{"name": "Optimiser", "module": "Optimiser", "cfg": cfg + CONSTS % (1 if tier == "quick" else 2), "kw": {"workers": 4}}]


def scenarios(tier, seed):
    n = 220 if tier == "quick" else 3000
    out, st = gen.cases("OptimiserGen", n, seed, "opt")
    for s in out:
        s["kind"] = "run"
    for i, nc in enumerate((1, 2, 3)):
        out.append({"id": "opt-fairc-%d" % nc, "kind": "fair", "nc": nc, "N": 5, "what": "controls"})
    for N in (4, 5, 8):
        out.append({"id": "opt-faird-%d" % N, "kind": "fair", "nc": 1, "N": N, "what": "donors"})
    for N, m, e in ((10, 3, [1, 8]), (10, 1, []), (4, 3, [0]), (4, 3, [3]), (4, 3, [2]), (6, 2, [5]), (7, 4, [0, 6]), (5, 5, []),
                    (9, 1, [8, 2, 5])):
        out.append({"id": "opt-pick-%d-%d-%s" % (N, m, e), "kind": "pick", "N": N, "m": m, "e": e})
    out.append({"id": "opt-controls", "kind": "ctl"})
    out.append({"id": "opt-sum", "kind": "sum"})
    for k in range(4 if tier == "quick" else 16):
        out.append({"id": "opt-eq-%d" % k, "kind": "eq", "k": k, "seed": seed})
    return out, st


class Thing:
    """an opaque object with nested mutable state"""

    def __init__(self, x):
        self.deep = {"x": [list(x)], "log": []}


class Ctl:
    def __init__(self, j, lo=None, hi=None):
        self.j, self.lo, self.hi = j, lo, hi

    def get(self, t):
        return t.deep["x"][0][self.j]

    def set(self, t, v):
        v = round(float(v), 3)
        if self.lo is not None:
            v = max(v, self.lo)
        if self.hi is not None:
            v = min(v, self.hi)
        t.deep["x"][0][self.j] = v


def xs(t):
    return [sint(v, K) for v in t.deep["x"][0]]


def score(land, x):
    if land == 1:
        v = sum((a - b) ** 2 for a, b in zip(x, (1.0, 2.0, -1.0)))
    elif land == 2:
        v = sum(abs(a) for a in x) + 3 * np.sin(5 * sum(x))
    elif land == 3:
        v = 100 - 10 * x[0]               # the start is never the best, better the further away
    elif land == 4:
        v = 0.0                           # flat
    else:
        v = float("inf") if sum(x) > 4 else -sum(x)
    v = min(v, 1e4) if v != float("inf") else v
    return round(float(v), 3)


def enc(s):
    return BIG if s == float("inf") else sint(s, 1e3)


def run(c, cr, F, N, maxgen, x0, ctls, land, lo, hi, touch, fair="no"):
    from freegs import optimiser
    ev = [{"ev": "start", "x": [sint(v, K) for v in x0],
           "cfg": {"N": N, "maxgen": maxgen, "F10": int(round(F * 10)), "tol": 20,
                   "cross": {0.0: "never", 1.0: "always"}.get(cr, "half"), "lo": lo, "hi": hi}}]
    obj = Thing(x0)

    def measure(t):
        s = score(land, t.deep["x"][0])
        ev.append({"ev": "eval", "x": xs(t), "s": enc(s)})
        if touch:
            t.deep["log"].append(len(ev))
        return s

    def monitor(g, best, pop):
        def e(p):
            return {"s": enc(p[0]), "x": xs(p[1]), "again": enc(score(land, p[1].deep["x"][0]))}
        ev.append({"ev": "mon", "gen": int(g), "best": e(best), "pop": [e(p) for p in pop]})
    before = repr(obj.deep)
    t = optimiser.optimise(obj, ctls, measure, maxgen=maxgen, N=N, CR=cr, F=F, monitor=monitor)
    s = score(land, t.deep["x"][0])
    ev.append({"ev": "end", "x": xs(t), "s": enc(s), "again": enc(s), "same": repr(obj.deep) == before, "solved": True, "fair": fair})
    return ev


def execute(scn):
    kind = scn["kind"]
    import zlib
    h = zlib.crc32(scn["id"].encode())
    np.random.seed(h % 2 ** 31)
    random.seed(h)
    if kind == "run":
        c = scn["c"]
        nc = c["nc"]
        lims = {0: (None, None), 1: (0.0, None), 2: (-8.0, 0.5)}[c["lim"]]
        if c["lim"] == 2 and c["start"] == 4:
            lims = (None, 20.5)
        if c["lim"] == 1:
            lims = (min(0.0, min(STARTS[c["start"]][:nc])), None)
        if c["lim"] == 2 and c["start"] != 4:
            lims = (-8.0, max(0.5, max(STARTS[c["start"]][:nc])))
        lo = [-100000000 if lims[0] is None else sint(lims[0], K)] * nc
        hi = [100000000 if lims[1] is None else sint(lims[1], K)] * nc
        ctls = [Ctl(j, *lims) for j in range(nc)]
        try:
            return run(c, {"never": 0.0, "half": 0.4, "always": 1.0}[c["cross"]], c["F10"] / 10, c["N"], c["maxgen"],
                       STARTS[c["start"]][:nc], ctls, c["land"], lo, hi, c["touch"])
        except Exception as x:
            return [gen.crash(x)]
    if kind == "fair":
        nc = scn["nc"]
        lo, hi = [-100000000] * nc, [100000000] * nc
        what = scn["what"]
        try:
            return run(None, 0.0, 0.0 if what == "donors" else 1.0, scn["N"], 60, [50.0, -40.0, 30.0][:nc], [Ctl(j) for j in range(nc)], 4,
                       lo, hi, False, fair=what)
        except Exception as x:
            return [gen.crash(x)]
    if kind == "pick":
        from freegs import optimiser
        e = list(scn["e"])
        calls = [[int(v) for v in optimiser.pickUnique(scn["N"], scn["m"], e)] for _ in range(400)]
        return [{"ev": "pick", "N": scn["N"], "m": scn["m"], "e": scn["e"], "calls": calls, "same": e == scn["e"]}]
    if kind == "ctl":
        return controls()
    if kind == "sum":
        return sums()
    return real(scn)


def controls():
    from freegs import optimise, machine
    ev = []
    for cls, attr in ((optimise.CoilRadius, "R"), (optimise.CoilHeight, "Z")):
        for lo in (None, 0.0, 0.5, -1.25):
            for hi in (None, 0.0, 2.0, 0.75):
                if lo is not None and hi is not None and lo > hi:
                    continue
                for v in (-3.0, -0.5, 0.0, 0.25, 1.0, 5.5):
                    class Eq:
                        pass
                    eq = Eq()
                    eq.tokamak = machine.Machine([("P1", machine.Coil(1.5, 0.25)), ("P2", machine.Coil(2.5, -0.75)),
                                                  ("P3", machine.Solenoid(0.2, -1, 1, 10))])
                    if lo is None and attr == "R":
                        c = cls("P1", maximum=hi)     # default minimum of a radius is zero
                        haslo, lov = True, 0.0
                    else:
                        c = cls("P1", minimum=lo, maximum=hi)
                        haslo, lov = lo is not None, lo or 0.0
                    if hi is not None and haslo and lov > hi:
                        continue
                    c.set(eq, v)
                    p1, p2 = eq.tokamak["P1"], eq.tokamak["P2"]
                    ev.append({"ev": "ctl", "v": sint(v, K), "haslo": haslo, "lo": sint(lov, K), "hashi": hi is not None,
                               "hi": sint(hi or 0.0, K), "got": sint(getattr(p1, attr), K), "read": sint(c.get(eq), K),
                               "others": bool((p2.R, p2.Z) == (2.5, -0.75) and (p1.Z == 0.25 if attr == "R" else p1.R == 1.5))})
    return ev


def sums():
    from freegs import optimise
    ev = []
    fs = [lambda e: e["a"], lambda e: e["b"], lambda e: e["a"] * e["b"]]
    for e in ({"a": 3, "b": -2}, {"a": 0, "b": 7}):
        for args, w in (((fs[0], fs[1]), (1, 1)), (((fs[0], 4), fs[1], (fs[2], -3)), (4, 1, -3)), (((fs[2], 0),), (0,)), ((fs[2],), (1,))):
            f = [a if callable(a) else a[0] for a in args]
            ev.append({"ev": "sum", "f": [int(g(e)) for g in f], "w": list(w), "got": int(round(optimise.weighted_sum(*args)(e)))})
    return ev


def real(scn):
    """optimisation of an equilibrium: every candidate is solved before it is measured"""
    import freegs
    from freegs import optimise
    k = scn["k"]
    # 0..1: TestTokamak, plain coils; the measure sometimes fails
    tok = freegs.machine.TestTokamak()
    eq = freegs.Equilibrium(tok, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=33, ny=33)
    prof = freegs.jtor.ConstrainPaxisIp(eq, 1e3, 2e5, 2.0)
    con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.6)])
    freegs.solve(eq, prof, con)
    ctls = [optimise.CoilRadius("P2L", maximum=1.8), optimise.CoilHeight("P1L")]
    x0 = [tok["P2L"].R, tok["P1L"].Z]
    ev = [{"ev": "start", "x": [sint(v, 1e4) for v in x0],
           "cfg": {"N": 4, "maxgen": 1 + k % 2, "F10": 8, "tol": 20, "cross": "half" if k % 2 else "always", "lo": [0, -100000000], "hi": [18000, 100000000]}}]
    tried = [0]

    def pos(e):
        return [e.tokamak["P2L"].R, e.tokamak["P1L"].Z]

    def f(e):
        return round(float(optimise.max_abs_coil_current(e)) / 1e3, 2)

    def measure(e):
        tried[0] += 1
        if k % 2 == 1 and tried[0] in (2, 4, 5):
            ev.append({"ev": "eval", "x": [sint(v, 1e4) for v in pos(e)], "s": BIG})
            raise (RuntimeError, ValueError, ZeroDivisionError, IndexError)[(k // 2 + tried[0]) % 4]("this one does not work")
        s = f(e)
        ev.append({"ev": "eval", "x": [sint(v, 1e4) for v in pos(e)], "s": enc(s)})
        return s

    def monitor(g, best, pop):
        def en(p):
            return {"s": enc(p[0]), "x": [sint(v, 1e4) for v in pos(p[1])], "again": enc(p[0]) if p[0] == float("inf") else enc(f(p[1]))}
        ev.append({"ev": "mon", "gen": int(g), "best": en(best), "pop": [en(p) for p in pop]})
    keep = (pos(eq), [c.current for _, c in tok.coils], eq.plasma_psi.copy(), eq.psi().copy())
    try:
        r = optimise.optimise(eq, ctls, measure, maxgen=1 + k % 2, N=4, CR=0.5 if k % 2 else 1.0, F=0.8, monitor=monitor)
    except Exception as x:
        return ev + [gen.crash(x)]
    same = (pos(eq) == keep[0] and [c.current for _, c in tok.coils] == keep[1] and np.array_equal(eq.plasma_psi, keep[2])
            and np.array_equal(eq.psi(), keep[3]))
    RZ = r.R, r.Z
    tot = r.tokamak.psi(*RZ) + r.plasma_psi
    d = np.max(np.abs(tot - r.psi())) / (np.max(tot) - np.min(tot))
    # it is a solution: the X-point constraint holds for the coils where they are now
    b = max(abs(r.Br(1.1, -0.6)), abs(r.Bz(1.1, -0.6)))
    solved = bool(d < 1e-8 and abs(r.plasmaCurrent() - 2e5) < 2e3 and b < 5e-3)
    ev.append({"ev": "end", "x": [sint(v, 1e4) for v in pos(r)], "s": enc(f(r)), "again": enc(f(r)), "same": bool(same), "solved": solved,
               "fair": "no"})
    return ev
