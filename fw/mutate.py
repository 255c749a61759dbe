#!/usr/bin/env python3
"""Evaluates the checks: mutate.py SLOTS PER_FILE [FILE...]  plants small syntactic changes (one at a time, in throw-away
copies) and writes those that no mapped check reports to /tmp/mut/survivors.txt, to be judged by hand."""
import os, re, sys, random, subprocess, shutil, threading, time, json, hashlib
V = "/verif"
MAP = {
 **{"modules/transmitter/" + x: "C34" for x in os.listdir("/repo/src/modules/transmitter")}, **{"modules/receiver/" + x: "C35" for x in os.listdir("/repo/src/modules/receiver")},
 "FrameQueue.hh": "C01", "AVFramedQueue.cpp": "C01 C02 C03", "Frame.cpp": "C01 C04 C11", "VideoFrame.cpp": "C01 C03 C15", "AudioFrame.cpp": "C04 C13 C01",
 "AudioCircularBuffer.cpp": "C04 C05", "SlicedVideoFrameQueue.cpp": "C03 C18", "Event.cpp": "C10 C25", "Filter.cpp": "C11 C12 C10 C06 C07 C27", "IOInterface.cpp": "C06 C11 C07 C12",
 "Runnable.cpp": "C08 C09 C11", "WorkersPool.cpp": "C08 C09", "Path.cpp": "C27", "PipelineManager.cpp": "C27 C25", "Controller.cpp": "C25", "Jzon.cpp": "C26 C25",
 "modules/audioMixer/AudioMixer.cpp": "C13 C14", "modules/videoMixer/VideoMixer.cpp": "C15", "modules/videoSplitter/VideoSplitter.cpp": "C16", "modules/videoResampler/VideoResampler.cpp": "C17",
 "modules/videoEncoder/VideoEncoderX264or5.cpp": "C18", "modules/videoEncoder/VideoEncoderX264.cpp": "C18", "modules/videoEncoder/VideoEncoderX265.cpp": "C18",
 "modules/sharedMemory/SharedMemory.cpp": "C19", "modules/V4LCapture/V4LCapture.cpp": "C28", "modules/dasher/Dasher.cpp": "C24 C22 C20 C23 C21", "modules/dasher/MpdManager.cpp": "C23 C24 C20", "modules/dasher/DashAudioSegmenter.cpp": "C22 C24",
 "modules/dasher/DashVideoSegmenter.cpp": "C20 C24", "modules/dasher/DashVideoSegmenterAVC.cpp": "C20 C24", "modules/dasher/DashVideoSegmenterHEVC.cpp": "C21 C24", "modules/dasher/i2libdash.c": "C20 C22 C21", "modules/dasher/i2libisoff.c": "C20 C22 C21",
}
def ops(line):
    out = []
    code = line.split("//")[0]
    if re.match(r"\s*(#|/\*|\*|case |default:|utils::|using |template)", code) or "Msg(" in code or '"' in code and "<<" in code: return out
    def rep(pat, new, name):
        for m in re.finditer(pat, code):
            if code[:m.start()].count('"') % 2: continue
            out.append((name, code[:m.start()] + new + code[m.end():] + "\n"))
    rep(r" < ", " <= ", "<"); rep(r" <= ", " < ", "<="); rep(r" > ", " >= ", ">"); rep(r" >= ", " > ", ">="); rep(r" == ", " != ", "=="); rep(r" != ", " == ", "!=")
    rep(r" && ", " || ", "&&"); rep(r" \|\| ", " && ", "||"); rep(r" \+ ", " - ", "+"); rep(r" - ", " + ", "-"); rep(r" \* ", " / ", "*"); rep(r" % ", " / ", "%")
    rep(r"\+\+", "--", "++"); rep(r" \+= ", " -= ", "+="); rep(r" -= ", " += ", "-=")
    rep(r"\btrue\b", "false", "true"); rep(r"\bfalse\b", "true", "false"); rep(r"if \(!", "if (", "!"); rep(r"([(= ])(\d)([;),])", None, "const") if False else None
    for m in re.finditer(r"(?<![\w.])([01])(?![\w.])", code):
        if code[:m.start()].count('"') % 2 == 0: out.append(("const", code[:m.start()] + str(1 - int(m.group(1))) + code[m.end():] + "\n"))
    s = code.strip()
    if "lock_guard<" in s or re.match(r"\w*[gG]uard\.(un)?lock\(\);", s): out.append(("lock", re.sub(r"\S.*", ";", code, count=1).rstrip("\n") + "\n"))
    if s.endswith(";") and not re.match(r"(return|break|continue|delete|free|using|typedef|extern|const |static |unsigned |int |bool |size_t |uint\w+ |std::|auto |Frame\s*\*|\w+\s*\*\s*\w+\s*(=|;)|\w+ \w+;|\w+ \w+ =|}|goto)", s) and code.count("(") == code.count(")") and not s.startswith((")", "(", '"', "|", "&", "+", ",", ":", "?")):
        out.append(("del", re.sub(r"\S.*", ";", code, count=1).rstrip("\n") + "\n"))
    return out
def mutants(f):
    p = "/repo/src/" + f; L = open(p, errors="surrogateescape").read().split("\n"); res = []
    for i, l in enumerate(L):
        prev = L[i-1].strip() if i else ""
        for name, new in ops(l):
            if name == "del" and prev and not prev.endswith((";", "{", "}", ":", "*/")) and not prev.startswith("//"): continue
            res.append((f, i, name, new.rstrip("\n")))
        st = l.strip(); nx = L[i+1] if i + 1 < len(L) else ""; stmt = lambda x: re.match(r"[\w>:*&\[\].-]+( [^=]*)?( [-+*|]?= |\(|\+\+)", x) and x.endswith(";") and not re.match(r"(return|break|continue|using|typedef|extern|goto|case|utils::)", x) and x.count("(") == x.count(")")
        if stmt(st) and stmt(nx.strip()) and len(l) - len(l.lstrip()) == len(nx) - len(nx.lstrip()) and "Msg(" not in l + nx: res.append((f, i, "swap", nx + "\n" + l))
    if os.environ.get("MUT_OPS"): res = [r for r in res if r[2] in os.environ["MUT_OPS"].split(",")]
    return res
lock = threading.Lock(); done = {}
def worker(slot, jobs):
    d = "/tmp/mut/%d" % slot; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("mkdir %s/repo && git -C /repo archive HEAD | tar x -C %s/repo; mkdir %s/verif; git -C %s archive HEAD | tar x -C %s/verif; rm -rf %s/verif/seeded" % (d, d, d, V, d, d), shell=True, check=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
    while True:
        with lock:
            if not jobs: break
            f, i, name, new = jobs.pop()
        p = d + "/repo/src/" + f; orig = open(p, errors="surrogateescape").read(); L = orig.split("\n"); old = L[i]; L[i] = new
        if name == "swap": old += "\n" + L[i+1]; del L[i+1]
        open(p, "w", errors="surrogateescape").write("\n".join(L)); res = "SURVIVED"; t0 = time.time()
        cc = ["gcc"] if f.endswith(".c") else ["g++", "-std=c++11"]
        src = p if not f.endswith(".hh") else None
        if src and not f == "PipelineManager.cpp":
            if subprocess.run(cc + ["-D__STDC_CONSTANT_MACROS", "-w", "-fsyntax-only", "-I" + d + "/repo/src", "-I" + V + "/fw/stubs", "-I" + V + "/fw/stubs/live555", "-I" + V + "/harness", "-isystem", "/usr/include/opencv4", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE).returncode: res = "nocompile"
        if res != "nocompile":
            for c in MAP[f].split():
                try: r = subprocess.run(["python3", "run.py", "check", c], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                except subprocess.TimeoutExpired: res = "timeout " + c; break
                if r.returncode == 1: res = "caught " + c; break
                if r.returncode != 0: res = "error " + c + " " + r.stdout[-200:].replace("\n", " "); break
        open(p, "w", errors="surrogateescape").write(orig)
        with lock:
            open("/tmp/mut/log.txt", "a").write("%s:%d [%s] %s %.0fs\n" % (f, i + 1, name, res, time.time() - t0))
            if not res.startswith(("caught", "nocompile")):
                open("/tmp/mut/survivors.txt", "a", errors="surrogateescape").write("%s %s:%d [%s]\n   - %s\n   + %s\n" % (res, f, i + 1, name, old.strip(), new.strip()))
def main():
    slots, per = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:] or list(MAP); rnd = random.Random(int(os.environ.get("MUT_SEED", "7"))); jobs = []
    os.makedirs("/tmp/mut", exist_ok=True)
    for f in files:
        m = mutants(f); rnd.shuffle(m); jobs += m[:per]
    rnd.shuffle(jobs); print(len(jobs), "mutants"); sys.stdout.flush()
    ts = [threading.Thread(target=worker, args=(k, jobs)) for k in range(slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
