#!/usr/bin/env python3
"""Evaluates the checks against changes written by hand: probe.py SLOTS FILE; FILE holds blocks
  ## name | checks
  @ file under src
  < old text (literal, may span lines)
  > new text
A block may have several @ parts.  Results go to /tmp/mut/probe.txt."""
import os, sys, re, subprocess, shutil, threading, time
V = "/verif"; lock = threading.Lock()
def parse(p):
    out = []; cur = None; edit = None; mode = None
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("## "): name, checks = l[3:].split("|"); cur = [name.strip(), checks.split(), []]; out.append(cur); mode = None
        elif l.startswith("@ "): edit = [l[2:].strip(), [], []]; cur[2].append(edit)
        elif l.startswith("< ") or l == "<": edit[1].append(l[2:])
        elif l.startswith("> ") or l == ">": edit[2].append(l[2:])
    return out
def worker(slot, jobs):
    d = "/tmp/mut/p%d" % slot; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("mkdir %s/repo && git -C /repo archive HEAD | tar x -C %s/repo; mkdir %s/verif; git -C %s archive HEAD | tar x -C %s/verif; rm -rf %s/verif/seeded" % (d, d, d, V, d, d), shell=True, check=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
    while True:
        with lock:
            if not jobs: break
            name, checks, edits = jobs.pop(0)
        saved = {}; res = "SURVIVED"; t0 = time.time()
        for f, old, new in edits:
            p = d + "/repo/src/" + f; s = open(p, errors="surrogateescape").read(); saved.setdefault(p, s); o = "\n".join(old)
            if s.count(o) != 1: res = "BADEDIT %d" % s.count(o); break
            open(p, "w", errors="surrogateescape").write(s.replace(o, "\n".join(new)))
        if res == "SURVIVED":
            for c in checks:
                try: r = subprocess.run(["python3", "run.py", "check", c], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                except subprocess.TimeoutExpired: res = "timeout " + c; break
                if r.returncode == 1: res = "caught " + c; break
                if r.returncode != 0: res = "error " + c + " " + r.stdout[-300:].replace("\n", " "); break
        for p, s in saved.items(): open(p, "w", errors="surrogateescape").write(s)
        with lock: open("/tmp/mut/probe.txt", "a").write("%s: %s %.0fs\n" % (name, res, time.time() - t0))
    shutil.rmtree(d, ignore_errors=True)
jobs = parse(sys.argv[2]); os.makedirs("/tmp/mut", exist_ok=True)
ts = [threading.Thread(target=worker, args=(k, jobs)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts]; [t.join() for t in ts]
