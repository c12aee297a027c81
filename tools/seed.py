#!/usr/bin/env python3
"""Development helper (no check uses it): turn an edit into a planted bug and confirm it in /repo.
usage: seed.py FILE...   each FILE: python source defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source), FLAGS (optional)"""
import json, os, subprocess, sys
R = os.environ.get("SEED_REPO", "/repo")  # a copy works when its own build.sh and test.sh lie in SEED_VP
VP = os.environ.get("SEED_VP", "/opt/vp")
DEMO_SH = """#!/bin/bash
# exit 0: the property held; builds and runs the demonstration in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%s
%s"$T/demo" >"$T/out" 2>&1
rc=$?
tail -5 "$T/out"
[ $rc -eq 0 ]
"""
STAGED = """S=$PWD/_build/stage
gcc -O1 -w -o "$T/demo" "$here/demo.c" -I"$S/include" -I"$S/include/datatypes" -L"$S/lib" -Wl,-rpath,"$S/lib" -ldatatypes-0.3.2 -pthread %s || exit 2"""
ASAN = """gcc -O1 -g -w -fsanitize=address -DNDEBUG -DWITH_PTHREAD -o "$T/demo" "$here/demo.c" "$PWD"/*.c -I"$PWD" -pthread %s || exit 2"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C %s checkout -- ." % R)
for f in sys.argv[1:]:
    g = {"FLAGS": "", "SAN": False, "LIMIT": 60}
    exec(open(f).read(), g)
    clean()
    assert not sh("git -C %s status --short" % R).stdout
    for fn, old, new in g["EDITS"]:
        p = os.path.join(R, fn); s = open(p).read()
        if s.count(old) != 1: print(g["ID"], "EDIT matches", s.count(old), "times in", fn, ":", old[:60]); break
        open(p, "w").write(s.replace(old, new))
    else:
        diff = subprocess.run("git -C %s diff" % R, shell=True, stdout=subprocess.PIPE, text=True).stdout
        d = os.path.join("/verif/seeded", g["ID"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.c", "w").write(g["DEMO"])
        open(d + "/demo.sh", "w").write(DEMO_SH % ((ASAN if g["SAN"] else STAGED) % g["FLAGS"], "timeout %d " % g["LIMIT"])); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh("bash %s/test.sh /tmp/seed-out.json" % VP)
        j = json.load(open("/tmp/seed-out.json"))
        bad = sh("bash %s/demo.sh" % d, cwd=R)
        clean()
        sh("bash %s/build.sh" % VP)
        good = sh("bash %s/demo.sh" % d, cwd=R)
        keep = good.returncode == 0 and bad.returncode == 1
        j2 = json.load(open("/opt/vp/BASELINE.json"))
        failed = sorted(set(j2["stable"]) - set(j["passed"]))
        print("%s: demo clean rc=%d, patched rc=%d, tests failed=%s %s" % (g["ID"], good.returncode, bad.returncode, failed[:4], "" if keep and not failed else "<<<<<< NOT KEPT"))
        if not keep: print("   clean:", good.stdout[-300:], "\n   patched:", bad.stdout[-300:])
        if not (keep and not failed): sh("rm -rf %s" % d)
    clean()
