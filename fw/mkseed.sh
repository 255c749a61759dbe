#!/bin/bash
# mkseed.sh ID FILE 's/python/expr' : helper used while planting; makes seeded/ID/patch.diff by replacing text in a copy of the repository
# usage: mkseed.sh ID PROPERTY <<< json {"edits":[[file,old,new],...],"needs":..,"breaks":..,"also":[...]}
id=$1; prop=$2
d=/verif/seeded/$id; mkdir -p $d
python3 - "$id" "$prop" "$d" <(cat) <<'P'
import sys, json, subprocess, shutil, os, tempfile
sid, prop, d, inp = sys.argv[1:5]
j = json.loads(open(inp).read(), strict=False)
t = tempfile.mkdtemp(prefix="mkseed.")
subprocess.run("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (t, t), shell=True, check=True)
for f, old, new in j["edits"]:
    p = os.path.join(t, "src", f); s = open(p, encoding="utf-8", errors="surrogateescape").read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w", encoding="utf-8", errors="surrogateescape").write(s.replace(old, new))
o = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE).stdout
open(d + "/patch.diff", "wb").write(o)
json.dump(dict(property=prop, needs=j["needs"], what_it_breaks=j["breaks"], **({"also": j["also"]} if j.get("also") else {})), open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(t)
P
if [ ! -f $d/demo.sh ]; then cat > $d/demo.sh <<'D'
#!/bin/bash
# run in the repository's root after the build
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -D__STDC_CONSTANT_MACROS -I"$r/src" -isystem /usr/include/opencv4 "$d/demo.cc" -o "$t/demo" -L"$r/_build" -llivemediastreamer -Wl,-rpath,"$r/_build" -Wl,--unresolved-symbols=ignore-all -ltinyxml2 -lopencv_core -lpthread || exit 2
cd "$t" && timeout 120 ./demo > out.txt 2>&1; rc=$?
tail -3 out.txt
exit $rc
D
fi
