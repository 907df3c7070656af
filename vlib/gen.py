"""Helpers shared by the check modules."""
import hashlib
from vlib import tlc


def simulate(module, consts, num, depth, seed, prefix, spec="GSpec", extra=3):
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec + consts
    items, r = tlc.generate(module, cfg, workers=1, args=(
        "-simulate", "num=%d" % num, "-depth", str(depth + extra), "-seed", str(seed)))
    out, seen = [], set()
    for h in items:
        k = hashlib.sha1(repr(h).encode()).hexdigest()
        if k not in seen:
            seen.add(k)
            out.append({"hist": h, "id": prefix + "-" + k[:10]})
    return out, {"states": r["distinct"], "transitions": r["states"]}


def trace_cfg(consts="", done="Finished"):
    return "SPECIFICATION TraceSpec\nPOSTCONDITION %s\nCHECK_DEADLOCK FALSE\n" % done + consts


def crash(x):
    import traceback
    return {"ev": "crash", "exc": type(x).__name__, "info": traceback.format_exc()[-1200:]}


def cases(module, num, seed, prefix, consts="", keep=None, spec="GSpec"):
    """Random cases from the initial states of a generator module (num=None: all of them)."""
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec + consts
    args = ("-simulate", "num=%d" % num, "-depth", "3", "-seed", str(seed)) if num else ()
    items, r = tlc.generate(module, cfg, workers=1, args=args)
    out, seen = [], set()
    for c in items:
        k = hashlib.sha1(repr(c).encode()).hexdigest()
        if k not in seen and (keep is None or keep(c)):
            seen.add(k)
            out.append({"c": c, "id": prefix + "-" + k[:10]})
    return out, {"states": r["distinct"] or r["states"], "transitions": r["states"]}
