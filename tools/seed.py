#!/usr/bin/env python3
"""seed.py ID...: confirm planted bugs: applies, builds, tests pass, demo distinguishes, and what the property's check says."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd="/repo", t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def passed(o):
    d = json.load(open(o))
    return d


ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert sh("git status --porcelain --untracked-files=no")[1] == "", "dirty /repo"
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    p = json.load(open(d + "/meta.json"))["property"]
    c0, o0 = sh("bash %s/demo.sh" % d)
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc:
        print(i, "DOES NOT APPLY", o)
        continue
    try:
        b, _ = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        t = open("/tmp/seed_t.json").read()
        os.unlink("/tmp/seed_t.json")
        c1, o1 = sh("bash %s/demo.sh" % d)
        k, ko = sh("python3 check.py %s" % p, V)
    finally:
        sh("git checkout -- .")
    bad = "" if '"failed": []' in t or '"failed":[]' in t else "TESTS? " + t[:300]
    print("%-28s %s build=%d demo clean=%d patched=%d check=%s %s" % (
        i, p, b, c0, c1, "CAUGHT" if k == 1 and "VIOLATION property=%s" % p in ko else "MISSED(%d)" % k, bad))
    if c0 or not c1:
        print(o0[-500:], o1[-500:])
sh("bash /opt/vp/build.sh")
