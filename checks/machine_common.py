import hashlib
from vlib import tlc
from checks.machine_driver import execute  # noqa

TRACE = "MachineTrace"
LIMIT = 120
CHUNK = 4


def models(tier):
    inv = """SPECIFICATION Spec
INVARIANTS TypeOK ControlVectorExact Homogeneous UnitResponse
PROPERTIES UncontrolledFixed Locality
CONSTRAINT %s
CHECK_DEADLOCK FALSE
CONSTANTS CurVals <- SmallCur
 DeltaVals <- SmallDelta
 TurnVals = {1, 2}
 LayoutIds = %s
"""
    ids = [("{9}", "QuickBound")] if tier == "quick" else [("{9}", "Bound"), ("{2}", "QuickBound"), ("{10}", "QuickBound")]
    return [{"name": "Machine layout %s, %s" % i, "module": "Machine", "cfg": inv % (i[1], i[0])} for i in ids]


def gen(tier, seed, depth, num):
    cfg = """SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS CurVals <- BigCur
 DeltaVals <- BigDelta
 TurnVals = {1, 2, 5}
 LayoutIds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Depth = %d
""" % depth
    items, r = tlc.generate("MachineGen", cfg, args=("-simulate", "num=%d" % num, "-depth", str(depth + 2),
                                                     "-seed", str(seed)), workers=1)
    out, seen = [], set()
    for h in items:
        k = hashlib.sha1(repr(h).encode()).hexdigest()
        if k not in seen:
            seen.add(k)
            out.append({"hist": h, "id": "machine-" + k[:10]})
    return out, {"states": r["distinct"], "transitions": r["states"]}


def scenarios(tier, seed):
    return gen(tier, seed, 9 if tier == "quick" else 14, 240 if tier == "quick" else 1200)


TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
CONSTANTS CurVals <- BigCur
 DeltaVals <- BigDelta
 TurnVals = {1}
 LayoutIds = {1}
"""
