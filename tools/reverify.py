#!/usr/bin/env python3
"""Runs every planted bug's demonstration without and with the
bug: reverify.py [ID...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.environ.get("PLANT_OUT", HERE + "/seeded")
ids = sys.argv[1:] or sorted(os.listdir(D))
sh = lambda c, cwd=None: subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def one(i):
    t = tempfile.mkdtemp(prefix="rv")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % t)
        d = "%s/%s" % (D, i)
        a = sh("bash %s/demo.sh" % d, t)
        p = sh("git init -q . && git apply %s/patch.diff" % d, t)
        b = sh("bash %s/demo.sh" % d, t)
        return i, a.returncode, p.returncode, b.returncode, a.stdout[-200:]
    finally:
        shutil.rmtree(t)
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for i, a, p, b, out in ex.map(one, ids):
        if a or p or not b:
            bad += 1
            print(i, "clean", a, "applies", p, "planted", b, out)
print(len(ids), "checked,", bad, "bad")
