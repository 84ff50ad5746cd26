#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: turn bug descriptions into /verif/seeded/<id>/ after confirming each in /repo (then undone).

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo (C text))]."""
import json
import os
import shutil
import subprocess
import sys

DEMO_SH = '''#!/bin/bash
# Runs in /repo after build.sh: exit 0 when the property holds here, nonzero when it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s -w -g -I"$PWD/include" -I"$PWD/lib" "$d/%s" -o "$t/demo" "$PWD/_build/libpluto.so" -lisl -Wl,-rpath,"$PWD/_build" -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all || exit 3
timeout 120 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")


def tests():
    sh("bash /opt/vp/test.sh /tmp/mkseed.json")
    r = json.load(open("/tmp/mkseed.json"))
    passed = set(r.get("passed", r.get("pass", [])))
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed


def main():
    ns = {}
    for p in [a for a in sys.argv[1:] if a.endswith(".py")]:
        exec(open(p).read(), ns)
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = "/verif/seeded/" + s["id"]
        if os.path.exists(d + "/patch.diff") and not only:
            continue
        os.makedirs(d, exist_ok=True)
        cpp = s.get("lang") == "cpp"
        src = "demo.cpp" if cpp else "demo.c"
        open(d + "/" + src, "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH % ("g++ -std=c++17 -fpermissive" if cpp else "gcc", src))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = False
        try:
            sh("bash /opt/vp/build.sh")
            r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
            for f, old, new in s["edits"]:
                t = open("/repo/" + f).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open("/repo/" + f, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            bad = tests() if b.returncode == 0 else {"build"}
            sh("bash /opt/vp/build.sh")
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
            ok = r0.returncode == 0 and b.returncode == 0 and not bad and r1.returncode != 0
            print(s["id"], "OK" if ok else "REJECTED", "demo clean=%d patched=%d build=%d tests broken=%s" % (r0.returncode, r1.returncode, b.returncode, sorted(bad)), r0.stdout[-300:] if r0.returncode else "", "|", r1.stdout[-200:].strip(), b.stdout[-500:] if b.returncode else "")
            if ok:
                c = sh("python3-vt /verif/check.py %s" % s["property"], cwd="/verif")
                print("   check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "broken by" in l or "failed obl" in l][:3])
                open("/verif/seeded/results.txt", "a").write("%s %s %d %s\n" % (s["id"], s["property"], c.returncode, next((l for l in c.stdout.splitlines() if "VIOLATION" in l), "missed")))
        finally:
            clean()
        if not ok:
            shutil.rmtree(d)


main()
