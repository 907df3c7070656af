"""stats.py Cxx: extreme values of every integer observation over the quick scenarios"""
import sys, importlib, json, os
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
from vlib import runner
import multiprocessing as mp
mod = importlib.import_module("checks." + sys.argv[1].lower())
scns, _ = mod.scenarios("quick", int(os.environ.get("VERIF_SEED", "1")))
ctx = mp.get_context("fork")
with ctx.Pool(8) as p:
    evs = p.map(runner._run_one, [("checks." + sys.argv[1].lower(), s, 120) for s in scns])
mx = {}
def walk(pre, v):
    if isinstance(v, bool): mx.setdefault(pre, set()).add(v)
    elif isinstance(v, int): mx.setdefault(pre, set()).add(v)
    elif isinstance(v, dict):
        for k, x in v.items(): walk(pre + "." + k, x)
    elif isinstance(v, list):
        for x in v: walk(pre + "[]", x)
for ev in evs:
    for e in ev:
        if e["ev"] == "crash": print("CRASH", e.get("info", "")[-400:])
        walk("", {k: v for k, v in e.items() if k not in ("info","exc")})
for k in sorted(mx): print(k, min(mx[k]), max(mx[k]), len(mx[k]))
