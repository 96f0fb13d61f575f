#!/usr/bin/env python3
"""seedtest.py ID... : checks a planted bug: it applies, builds, passes the stable tests, its demo tells the trees apart, the check reports it."""
import json, os, subprocess, sys
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])


def sh(c, t=900):
    p = subprocess.run(c, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")


def one(i, nocheck):
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    assert sh("git status --porcelain --untracked-files=no")[1] == "", "repo not clean"
    r = {}
    bad = []
    rc, o = sh("bash /opt/vp/build.sh && bash %s/demo.sh" % d)
    if rc != 0:
        bad.append("demo fails on the unchanged tree: " + o[-600:])
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc != 0:
        return ["does not apply " + o]
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        if rc != 0:
            bad.append("build fails " + o[-800:])
        else:
            rc, o = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
            t = json.load(open("/tmp/seed-test.json"))
            lost = stable - set(t["passed"])
            if lost:
                bad.append("tests lost: %s" % lost)
            rc, o = sh("bash %s/demo.sh" % d)
            if rc == 0:
                bad.append("demo passes with the bug")
            print("   demo:", o.strip()[-150:].replace("\n", " | "))
            if not nocheck:
                p = subprocess.run("python3 driver/check.py %s quick" % m["property"], shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                o = p.stdout.decode()
                r["caught"] = p.returncode == 1 and ("VIOLATION property=%s " % m["property"]) in o
                print("   check exit %d caught=%s %s" % (p.returncode, r["caught"], o.split("\n")[0]))
                if not r["caught"]:
                    bad.append("NOT CAUGHT: " + o[-500:])
    finally:
        sh("git apply -R %s/patch.diff" % d)
        sh("git checkout -- .")
    return bad


args = [a for a in sys.argv[1:] if not a.startswith("-")]
if not args:
    args = sorted(os.listdir(V + "/seeded"))
for i in args:
    print(i, flush=True)
    b = one(i, "--nocheck" in sys.argv)
    print("  OK" if not b else "  PROBLEM " + "\n  ".join(b), flush=True)
