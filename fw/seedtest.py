#!/usr/bin/env python3
"""Confirms planted changes in throw-away copies: seedtest.py [-j N] [-q] ID...   (-q: checks only)

For each /verif/seeded/ID: the demo passes on the unchanged tree, the patched
tree builds and passes the stable tests, the demo fails, and which of the
checks named in meta.json (property, also) report it."""
import json, os, subprocess, sys, shutil, concurrent.futures, threading
lock = threading.Lock()
V = "/verif"

def sh(cmd, t=1200):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

def inner(sid, quick):
    d = "%s/seeded/%s" % (V, sid)
    meta = json.load(open(d + "/meta.json"))
    out = []
    os.chdir("/repo")
    if not quick:
        sh("bash /opt/vp/build.sh")
        rc, o = sh("bash %s/demo.sh" % d, 300); out.append("demo on unchanged: %d" % rc)
        if rc: out.append(o[-600:])
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc: out.append("PATCH DOES NOT APPLY " + o); return out
    if not quick:
        rc, o = sh("bash /opt/vp/build.sh")
        if rc: out.append("DOES NOT BUILD " + o[-800:]); return out
        rc, o = sh("sed 's,/tmp/b.log,/tmp/b-{0}.log,;s,/tmp/t.json,/tmp/t-{0}.json,' {1}/fw/stable.sh > /tmp/st-{0}.sh; bash /tmp/st-{0}.sh; r=$?; unlink /tmp/t-{0}.json; unlink /tmp/b-{0}.log; unlink /tmp/st-{0}.sh; exit $r".format(sid, V)); out.append("stable tests: %d %s" % (rc, o.strip()[-200:]))
        rc, o = sh("bash %s/demo.sh" % d, 300); out.append("demo on patched: %d (%s)" % (rc, o.strip().split("\n")[-1][:120]))
    os.chdir(V)
    for c in [meta["property"]] + meta.get("also", []):
        rc, o = sh("python3 run.py check %s" % c)
        l = [x for x in o.split("\n") if x.strip()]
        out.append("check %s: %d %s" % (c, rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % c in o else "MISSED" if rc == 0 else "ERROR"))
        out.append("    " + (l[0][:220] if l else ""))
    return out

if sys.argv[1] == "--inner":
    print("\n".join(inner(sys.argv[2], sys.argv[3] == "1")))
    sys.exit(0)
a = sys.argv[1:]; j = 3; quick = False
if "-q" in a: a.remove("-q"); quick = True
if "-j" in a: i = a.index("-j"); j = int(a[i+1]); del a[i:i+2]
def one(sid):
    t = "/tmp/seed-" + sid
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    sh("cp -a /repo %s/repo; cp -a %s/build %s/build; mkdir %s/evidence %s/replays" % (t, V, t, t, t))
    rc, o = sh("unshare -Urm bash -c 'mount --bind {0}/repo /repo && mount --bind {0}/build {1}/build && mount --bind {0}/evidence {1}/evidence && mount --bind {0}/replays {1}/replays && cd {1} && python3 {1}/fw/seedtest.py --inner {2} {3}'".format(t, V, sid, int(quick)), 3000)
    shutil.rmtree(t, ignore_errors=True)
    print("== " + sid + "\n" + o, flush=True)
    res = {}; rf = V + "/fw/seed_results.json"
    with lock:
        if os.path.exists(rf): res = json.load(open(rf))
        res[sid] = [l.split()[1].rstrip(":") for l in o.split("\n") if l.startswith("check ") and l.endswith("CAUGHT")]
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
with concurrent.futures.ThreadPoolExecutor(j) as ex: list(ex.map(one, a or sorted(os.listdir(V + "/seeded"))))
