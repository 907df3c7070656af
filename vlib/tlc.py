"""Thin wrapper around TLC: model checking, behaviour generation, trace judging."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC itself failed (parse error, evaluation error): a machinery failure."""


def run(module, cfg, env=None, workers=2, args=(), timeout=800, heap="3g", cont=False):
    """Run TLC on spec/<module>.tla with the given cfg text.  Returns dict."""
    work = tempfile.mkdtemp(prefix="vtlc_")
    try:
        for f in os.listdir(SPEC_DIR):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC_DIR, f), work)
        with open(os.path.join(work, "MC.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-cp", JARS,
               "tlc2.TLC", "-config", "MC.cfg", "-workers", str(workers), "-nowarning",
               "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE",
               *args, module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res = {"out": out, "rc": p.returncode, "states": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res["states"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r"states checked: (\d+)|(\d+) states checked|The number of states generated: (\d+)", out)
        if m:
            n = [int(x) for t in m for x in t if x]
            res["states"] = res["distinct"] = max(n)
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        res["depth"] = int(m[-1])
    return res


def check_model(module, cfg, **kw):
    """Exhaustive check: raises TLCError unless TLC reports no error."""
    r = run(module, cfg, **kw)
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise TLCError("model check of %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-4000:]))
    return r


_STR = re.compile(r'^"@@(.*)"\s*$')


def _lines(out):
    for line in out.splitlines():
        m = _STR.match(line)
        if m:
            yield json.loads('"' + m.group(1) + '"')


def generate(module, cfg, expect=1, **kw):
    """Run a generator module that prints  PrintT("@@" \\o ToJson(x)); returns list of x."""
    r = run(module, cfg, **kw)
    items = [json.loads(s) for s in _lines(r["out"])]
    if ("Error:" in r["out"] and "Deadlock" not in r["out"]) or len(items) < expect:
        raise TLCError("generation with %s failed (rc %s, %d items):\n%s"
                       % (module, r["rc"], len(items), r["out"][-4000:]))
    return items, r


def judge(module, events, cfg=None, heap="4g", timeout=800):
    """Judge recorded events with a trace module.  Returns (fails, result)
    where fails = list of (event_index0, clause)."""
    fd, path = tempfile.mkstemp(prefix="vtrace_", suffix=".ndjson")
    with os.fdopen(fd, "w") as fh:
        for e in events:
            fh.write(json.dumps(e) + "\n")
    try:
        cfg = cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n"
        r = run(module, cfg, env={"TRACE_FILE": path}, workers=1, heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    fails = []
    done = None
    for line in r["out"].splitlines():
        m = re.match(r'^<<"FAIL", (\d+), "(.*)">>\s*$', line)
        if m:
            fails.append((int(m.group(1)) - 1, m.group(2)))
        m = re.match(r'^<<"DONE", (\d+)>>\s*$', line)
        if m:
            done = int(m.group(1))
    if r["rc"] != 0 or done != len(events):
        raise TLCError("judging with %s failed (rc %s, done %s of %d):\n%s"
                       % (module, r["rc"], done, len(events), r["out"][-4000:]))
    return sorted(set(fails)), r
