#!/usr/bin/env python3
"""Builds harness binaries from the working tree of the repository under test.

Everything is compiled from /repo's current sources with build files of our
own; the output goes to /verif/build, which git ignores.
"""
import os, re, subprocess, sys, hashlib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build" if REPO == "/repo" else "build-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])

LIBS = {
    "core": "-ltinyxml2 -lpthread",
    "dasher": "",
    "audioMixer": "-lswresample -lavutil",
    "videoMixer": "-lopencv_core -lopencv_imgproc",
    "videoSplitter": "-lopencv_core -lopencv_imgproc",
    "videoResampler": "-lswscale -lavutil",
    "videoEncoder": "-lx264 -lx265 -lswscale -lavutil -lavcodec",
    "sharedMemory": "",
    "V4LCapture": "",
    "videoDecoder": "-lavcodec -lavutil",
    "headDemuxer": "-lavcodec -lavutil",
    "audioDecoder": "-lavcodec -lswresample -lavutil",
    "audioEncoder": "-lavcodec -lswresample -lavutil",
}

WARN = "-Wall -Wno-unused -Wno-reorder -Wno-deprecated-declarations -Wno-sign-compare"
DEFS = "-D__STDC_CONSTANT_MACROS"
VARIANTS = {
    # sequential exploration of the real code; memory errors end the execution loudly
    "asan": ("-O1 -g1 -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address"),
    # exploration without instrumentation (large data volumes)
    "plain": ("-O2 -g1", ""),
    # schedule exploration: the compiler marks every memory access, fw/sched.cc
    # supplies the marks' implementation (scheduler, not the TSan runtime)
    "sched": ("-O1 -g1 -fsanitize=thread -fno-builtin -fno-pie -DVERIF_SCHED", "-rdynamic -no-pie"),
}


def am_list(path, name):
    text = re.sub(r"\\[ \t]*\n", " ", open(path).read())
    m = re.search(r"(?:^|\n)%s[ \t]*=([^\n]*)" % name, text)
    return m.group(1).split()


def repo_sources(modules):
    out = []
    for s in am_list(os.path.join(REPO, "src/Makefile.am"), "liblivemediastreamer_la_SOURCES"):
        if s.startswith("modules/"):
            if s.split("/")[1] in modules:
                out.append(s)
        elif s != "PipelineManager.cpp" or "pipeline" in modules:
            out.append(s)
    return out


def esc(p):
    return p.replace(" ", "$ ").replace(":", "$:")


def build(harness, quiet=True):
    """harness: dict(name, src=[...], variant, modules=[...]); returns the binary's path."""
    variant = harness["variant"]
    cflags, ldflags = VARIANTS[variant]
    cflags += " " + harness.get("cflags", "")
    modules = harness.get("modules", [])
    bdir = os.path.join(BUILD, harness["name"])
    odir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(bdir, exist_ok=True)
    inc = ["-I%s/fw" % VERIF, "-I%s/fw/stubs" % VERIF, "-isystem", "/usr/include/opencv4"]
    rinc = ["-I%s/src" % REPO]
    lines = ["ninja_required_version = 1.5", "builddir = %s" % odir]
    common = "%s %s %s %s" % (DEFS, WARN, cflags, " ".join(inc))
    # copies made by the code under test are scheduling-relevant too
    post = " && objcopy " + " ".join("--redefine-sym %s=verif_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp")) + " $out" if variant == "sched" else ""
    lines += [
        "rule cxx", "  command = g++ -std=c++11 %s $extra -MMD -MF $out.d -c $in -o $out%s" % (common, post),
        "  depfile = $out.d", "  deps = gcc",
        "rule cxxh", "  command = g++ -std=c++17 %s %s $extra -MMD -MF $out.d -c $in -o $out%s" % (common, " ".join(rinc), post),
        "  depfile = $out.d", "  deps = gcc",
        "rule cxxfw", "  command = g++ -std=c++17 -O2 -g1 %s $extra -MMD -MF $out.d -c $in -o $out" % " ".join(inc),
        "  depfile = $out.d", "  deps = gcc",
        "rule cc", "  command = gcc %s $extra -MMD -MF $out.d -c $in -o $out%s" % (common, post),
        "  depfile = $out.d", "  deps = gcc",
        "rule link", "  command = g++ $in -o $out %s -Wl,--unresolved-symbols=ignore-all $libs" % ldflags,
    ]
    objs = []
    extra_repo = harness.get("repo_cflags", "").replace("@VERIF@", VERIF).replace("@REPO@", REPO)
    fcf = dict((k, v.replace("@VERIF@", VERIF).replace("@REPO@", REPO)) for k, v in harness.get("file_cflags", {}).items())   # flags of single files
    exclude = set(harness.get("exclude", []))
    tag = hashlib.sha1((extra_repo + harness.get("cflags", "")).encode()).hexdigest()[:6] if (extra_repo or harness.get("cflags")) else ""
    for s in repo_sources(modules):
        if s in exclude:
            continue
        o = os.path.join(odir, s.replace("/", "_") + tag + (hashlib.sha1(fcf[s].encode()).hexdigest()[:6] if s in fcf else "") + ".o")
        rule = "cc" if s.endswith(".c") else "cxx"
        lines.append("build %s: %s %s" % (esc(o), rule, esc(os.path.join(REPO, "src", s))))
        ex = (extra_repo + " " + fcf.get(s, "")).strip()
        if ex:
            lines.append("  extra = " + ex)
        objs.append(o)
    for s in harness["src"]:
        p = os.path.join(VERIF, s)
        o = os.path.join(bdir, s.replace("/", "_") + ".o")
        rule = "cxxh"
        lines.append("build %s: %s %s" % (esc(o), rule, esc(p)))
        if harness.get("h_cflags"):
            lines.append("  extra = " + harness["h_cflags"])
        objs.append(o)
    fw = ["fw/mc.cc"] + (["fw/sched.cc"] if variant == "sched" else []) + harness.get("fw", [])
    for s in fw:
        o = os.path.join(odir, s.replace("/", "_") + ".o")
        lines.append("build %s: cxxfw %s" % (esc(o), esc(os.path.join(VERIF, s))))
        if variant == "sched":
            lines.append("  extra = -fno-pie -fno-builtin")
        if variant == "asan":
            lines.append("  extra = -fsanitize=address -fno-omit-frame-pointer")
        objs.append(o)
    libs = []
    for m in ["core"] + modules:
        libs += LIBS.get(m, "").split()
    libs += harness.get("libs", "").split()
    binp = os.path.join(bdir, "harness")
    lines.append("build %s: link %s" % (esc(binp), " ".join(esc(o) for o in objs)))
    lines.append("  libs = " + " ".join(dict.fromkeys(libs)) + " -ldl -lrt")
    lines.append("default " + esc(binp))
    nf = os.path.join(bdir, "build.ninja")
    text = "\n".join(lines) + "\n"
    os.makedirs(odir, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(nf) or open(nf).read() != text:
            open(nf, "w").write(text)
        r = subprocess.run(["ninja", "-f", nf], cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        i = r.stdout.find('FAILED:'); sys.stdout.write(r.stdout[i if i >= 0 else 0:][:3000] + '\n')
        raise SystemExit(2)
    if not quiet:
        sys.stdout.write('\n'.join(l for l in r.stdout.split('\n') if 'warning:' in l or 'error:' in l)[-1500:] + '\n')
    return binp
