#!/usr/bin/env python3
"""Runs the checks against planted bugs: catch.py [--all-properties] [ID...]"""
import json, os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/catch"
D = os.environ.get("PLANT_OUT", HERE + "/seeded")
a = [x for x in sys.argv[1:] if not x.startswith("--")]
allp = "--all-properties" in sys.argv
ids = a or sorted(os.listdir(D))
if not os.path.isdir(S):
    subprocess.check_call(["cp", "-a", "/repo", S])
sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S))
props = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/catch-build")
for i in ids:
    d = D + "/" + i
    meta = json.load(open(d + "/meta.json"))
    r = sh("git -C %s apply %s/patch.diff" % (S, d))
    if r.returncode:
        print(i, "does not apply", r.stdout); continue
    out = []
    for p in (props if allp else [meta["property"]]):
        r = subprocess.run(["python3", HERE + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = r.stdout.strip().splitlines()
        first = last[0] if last else ""
        if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
            out.append("%s CAUGHT (%s)" % (p, first[:150]))
        elif r.returncode == 0:
            if not allp: out.append("%s MISSED" % p)
        else:
            out.append("%s ERROR rc=%d %s" % (p, r.returncode, r.stdout[-300:]))
    sh("git -C %s checkout -q -- ." % S)
    print(i, "|", "; ".join(out), flush=True)
