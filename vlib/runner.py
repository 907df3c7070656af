"""Runs one property's check: model checking, conformance, verdict, evidence."""
import concurrent.futures as cf
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
# never trust byte code left by an earlier tree
sys.pycache_prefix = tempfile.mkdtemp(prefix="vpyc_")

from vlib import tlc  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))


class ScenarioTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise ScenarioTimeout()


def _run_one(args):
    modname, scn, limit = args
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    cwd = os.getcwd()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"):
                ev = mod.execute(scn)
    except ScenarioTimeout:
        ev = [{"ev": "crash", "exc": "Timeout", "info": "scenario exceeded %ds" % limit}]
    except Exception as e:  # an exception no event of the specification allows
        ev = [{"ev": "crash", "exc": type(e).__name__,
               "info": (str(e) + "\n" + traceback.format_exc())[-1500:]}]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
    return ev


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": [], "fixed": []}


def judge_parallel(module, scns, evs, tcfg=None):
    """Split the recorded traces over several TLC runs; returns per scenario fails."""
    n = len(scns)
    total = sum(len(e) for e in evs)
    shards = max(1, min(6, total // 3000 + 1))
    bounds = [round(i * n / shards) for i in range(shards + 1)]

    def one(k):
        lo, hi = bounds[k], bounds[k + 1]
        flat, owner = [], []
        for i in range(lo, hi):
            for j, e in enumerate(evs[i]):
                flat.append({x: v for x, v in e.items() if x != "info"})
                owner.append((i, j))
        if not flat:
            return [], None
        try:
            fails, r = tlc.judge(module, flat, cfg=tcfg)
        except tlc.TLCError as err:
            if 'Semantic error' in str(err) or 'Parse Error' in str(err) or 'onfiguration file' in str(err):
                raise
            return salvage(lo, hi, err), None
        return [(owner[a][0], owner[a][1], c) for a, c in fails], r

    def salvage(lo, hi, err):
        """TLC could not evaluate a recorded trace: judge its scenarios one by one.
        A trace whose values have a shape the specification has no meaning for is
        reported as a violation; if TLC cannot judge anything, that is our failure."""
        out, ok = [], 0

        def single(i):
            flat = [{x: v for x, v in e.items() if x != "info"} for e in evs[i]]
            try:
                return i, tlc.judge(module, flat, cfg=tcfg)[0]
            except tlc.TLCError:
                return i, None
        with cf.ThreadPoolExecutor(6) as ex2:
            for i, f in ex2.map(single, range(lo, hi)):
                if f is None:
                    out.append((i, 0, "ObservationHasNoMeaning"))
                else:
                    ok += 1
                    out += [(i, a, c) for a, c in f]
        if ok == 0 and len(out) > 3:
            raise err
        return out

    with cf.ThreadPoolExecutor(shards) as ex:
        parts = list(ex.map(one, range(shards)))
    fails = [f for p, _ in parts for f in p]
    st = sum(r["distinct"] for _, r in parts if r)
    return fails, st


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        else:
            tier = argv[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = "checks." + prop.lower()
    mod = importlib.import_module(modname)
    import freegs
    assert os.path.realpath(freegs.__file__).startswith("/repo/"), freegs.__file__

    states = transitions = 0
    model_notes = []
    scns = None
    pool_ctx = mp.get_context("fork")
    limit = getattr(mod, "LIMIT", 120)

    # imported in the parent so that the workers share it
    for m in ("freegs.dump", "freegs.geqdsk", "freegs.divgeo", "freegs.optimise", "freegs.fieldtracer"):
        try:
            importlib.import_module(m)
        except Exception:
            pass

    if replay:
        scns = [json.load(open(replay))["scenario"]]
        models = []
    else:
        models = mod.models(tier)
    pool = pool_ctx.Pool(NPROC, maxtasksperchild=200)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [(m, ex.submit(tlc.check_model, m["module"], m["cfg"], **m.get("kw", {}))) for m in models]
            if scns is None:
                scns, gst = mod.scenarios(tier, seed)
                states += gst.get("states", 0)
                transitions += gst.get("transitions", 0)
            evs = pool.map(_run_one, [(modname, s, limit) for s in scns],
                           chunksize=getattr(mod, "CHUNK", 1))
            fails, jst = judge_parallel(mod.TRACE, scns, evs, getattr(mod, 'TRACE_CFG', None))
            for m, f in futs:
                r = f.result()
                states += r["distinct"]
                transitions += r["states"]
                model_notes.append("%s: %d distinct states, depth %d" % (m["name"], r["distinct"], r["depth"]))
    finally:
        pool.terminate()

    prefixes = getattr(mod, "CLAUSES", (prop,))
    known = load_known()
    kf = [k for k in known["findings"] if k["property"] == prop]
    outdir = os.path.join(ROOT, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    shown, seen, nviol, hits = 0, set(), 0, set()
    for si, ei, clause in fails:
        tag, _, name = clause.partition(":")
        if name and tag not in prefixes:
            continue
        hit = [k for k in kf if k["clause"] == clause and k["scenario"] == scns[si].get("id")]
        if hit:
            hits.add(hit[0]["what"])
            continue
        nviol += 1
        if clause in seen or shown >= 12:
            continue
        seen.add(clause)
        shown += 1
        path = os.path.join(outdir, "replay_%d.json" % shown)
        with open(path, "w") as fh:
            json.dump({"property": prop, "clause": clause, "event_index": ei,
                       "event": evs[si][ei], "scenario": scns[si]}, fh, indent=1)
        print("clause %s violated at event %d: %s" % (clause, ei, json.dumps(evs[si][ei])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for w in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))

    if not replay:
        samples = []
        step = max(1, len(scns) // 3)
        for i in range(0, len(scns), step):
            samples.append({"scenario": scns[i], "events": [
                {k: v for k, v in e.items() if k != "info"} for e in evs[i][:3]]})
            if len(samples) >= 3:
                break
        ev = {
            "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": len(scns),
                "events_judged": sum(len(e) for e in evs),
                "trace_states": jst,
                "models": model_notes,
                "rule": mod.RULE,
                "samples": json.loads(json.dumps(samples)[:200000]) if len(json.dumps(samples)) < 200000
                else [str(samples[0])[:4000]],
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "violations": nviol,
            "wall_s": round(time.time() - t0, 2),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s: %d scenarios, %d events, %d violations, %.1f s; %s"
          % (prop, tier, len(scns), sum(len(e) for e in evs), nviol, time.time() - t0, "; ".join(model_notes)))
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except tlc.TLCError as e:
        print("MACHINERY FAILURE: %s" % e)
        rc = 2
    finally:
        import shutil
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
