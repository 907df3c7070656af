import hashlib
import numpy as np
from vlib import tlc
from vlib.oracle import sint, BIG

TRACE = "PicardTrace"
RULE = ("every recorded run of the Picard loop over a scripted linear solve and control system is a "
        "behaviour of spec/Picard.tla: same flux/boundary handed over, same gating, same outcome")
CHUNK = 8
UNIT = 1024
NOBND = 99
CONSTS = """CONSTANTS Amps <- %sAmps
 Bnds <- %sBnds
 Adjs <- %sAdjs
 Configs <- SmallConfigs
"""
TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
CONSTANTS Amps = {1}
 Bnds = {1}
 Adjs = {1}
 Configs = {1}
"""


def models(tier):
    cfg = """SPECIFICATION Spec
INVARIANTS ConvergedMeansConverged WaitHonoured Bounded FailureMeansExhausted CheckGated
PROPERTIES Sticky NoAdjustAfterSuccess Terminates
CHECK_DEADLOCK FALSE
""" + CONSTS % (("Small",) * 3)
    return [{"name": "Picard", "module": "Picard", "cfg": cfg, "kw": {"workers": 4}}]


def scenarios(tier, seed):
    n = 2500 if tier == "quick" else 30000
    cfg = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n" + CONSTS % (("Big",) * 3)
    items, r = tlc.generate("PicardGen", cfg, workers=1, args=(
        "-simulate", "num=%d" % n, "-depth", "24", "-seed", str(seed)))
    out, seen = [], set()
    for h in items:
        k = hashlib.sha1(repr(h).encode()).hexdigest()
        if k not in seen:
            seen.add(k)
            out.append({"hist": h, "id": "picard-" + k[:10]})
    return out, {"states": r["distinct"], "transitions": r["states"]}


class Overrun(Exception):
    pass


def shape(eq):
    x = (eq.R - eq.Rmin) / (eq.Rmax - eq.Rmin)
    z = (eq.Z - eq.Zmin) / (eq.Zmax - eq.Zmin)
    p = 16.0 * x * (1 - x) * z * (1 - z)
    return p  # range exactly [0, 1] on an odd grid


def execute(scn):
    import freegs
    from freegs import machine
    hist = scn["hist"]
    c = hist[0]["c"]
    ops = hist[1:]
    ev = [{"ev": "start", "c": c, "a": hist[0]["a"], "b": hist[0]["b"], "l0": hist[0]["l0"]}]
    solves = [o for o in ops if o["op"] == "solve"]
    cons = [o for o in ops if o["op"] in ("con", "step")]
    profiles = object()

    class Scripted(freegs.Equilibrium):
        script = None

        def solve(self, prof, Jtor=None, psi=None, psi_bndry=None):
            if not solves:
                raise Overrun()
            o = solves.pop(0)
            given = self.psi() if psi is None else psi
            amp = np.max(given) + np.min(given)   # one of them is 0
            ok = np.allclose(given, amp * self.P0, atol=1e-9)
            ev.append({"ev": "solve", "psi": sint(amp, UNIT) if ok else BIG,
                       "bnd": NOBND if psi_bndry is None else sint(psi_bndry),
                       "chk": bool(self.check_limited), "prof": prof is profiles,
                       "a": o["a"], "b": o["b"], "li": o["li"]})
            self.plasma_psi = o["a"] * self.P0
            self.psi_bndry = None if o["b"] == NOBND else np.float64(o["b"])
            self.is_limited = bool(o["li"])

    eq = Scripted(machine.Machine([]), Rmin=0.5, Rmax=1.5, Zmin=-1.0, Zmax=1.0, nx=9, ny=9)
    eq.P0 = shape(eq)
    eq.plasma_psi = hist[0]["a"] * eq.P0
    eq.psi_bndry = None if hist[0]["b"] == NOBND else np.float64(hist[0]["b"])
    eq.is_limited = bool(hist[0]["l0"])

    def constrain(e):
        o = cons.pop(0) if cons else {"d": 0}
        e.plasma_psi = e.plasma_psi + o["d"] * e.P0
        ev.append({"ev": "con", "d": o["d"]})

    end = {"ev": "end", "maxchg": [], "rel": []}
    try:
        res = freegs.solve(eq, profiles, constrain if c["con"] else None,
                           rtol=c["rtol"] / 1000.0, atol=c["atol"] / float(UNIT), blend=c["blend"] / 2.0,
                           maxits=c["maxits"] or None, convergenceInfo=True,
                           check_limited=c["chk"], wait_for_limited=c["wait"], limit_it=c["lit"],
                           psi_bndry=None if c["ub"] == NOBND else float(c["ub"]))
        end["out"] = "converged"
        end["maxchg"] = [sint(x, UNIT) for x in res[0]]
        end["rel"] = [sint(x, 1e6) for x in res[1]]
    except Overrun:
        end["out"] = "overrun"
    except RuntimeError as e:
        end["out"] = "too many" if "onverge" in str(e) else "exception"
    except Exception as e:
        end["out"] = "exception"
        end["info"] = repr(e)
    end["psi"] = sint(np.max(eq.psi()) + np.min(eq.psi()), UNIT)
    ev.append(end)
    return ev
