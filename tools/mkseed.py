#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  <<JSON  {"edits":[[file, old, new],...], "needs":..., "what":..., "demo": python source}
Plants a change in a scratch copy, confirms tests pass and the demo separates, and keeps it in /verif/seeded/ID."""
import json, os, subprocess, sys, shutil, tempfile
sid, prop = sys.argv[1:3]
spec = {}
exec(sys.stdin.read(), spec)
edits, needs, what, demo = spec["edits"], spec["needs"], spec["what"], spec["demo"]
W = tempfile.mkdtemp(prefix="seed_")
try:
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    r = W + "/repo"
    for f, old, new in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
    d = W + "/demo"
    os.makedirs(d)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds\nexport OMP_NUM_THREADS=2\nexport PYTHONDONTWRITEBYTECODE=1\nexport MPLBACKEND=Agg\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
    def rundemo(repo):
        return subprocess.run(["bash", d + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    good, bad = rundemo("/repo"), rundemo(r)
    print("demo good rc", good.returncode, good.stdout.decode()[-600:] if good.returncode else "")
    print("demo bad rc", bad.returncode, bad.stdout.decode()[-300:])
    t = subprocess.run(["timeout", "300", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "freegs"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=r, MPLBACKEND="Agg"))
    print("tests rc", t.returncode, t.stdout.decode()[-300:])
    if good.returncode == 0 and bad.returncode != 0 and t.returncode == 0:
        o = "/verif/seeded/" + sid
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        for f in os.listdir(d):
            if f.startswith("demo"):
                shutil.copy(d + "/" + f, o)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(o + "/meta.json", "w"), indent=1)
        print("KEPT", sid)
    else:
        print("REJECTED", sid)
finally:
    shutil.rmtree(W)
