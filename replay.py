#!/usr/bin/env python3-vt
"""replay.py FILE: re-runs the failing input of a VIOLATION against the library built from /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import build
import vc
from llir import Module

rp = sys.argv[1]
d = json.load(open(rp))
if "input" not in d:
    print(json.dumps(d, indent=1))
    sys.exit(1)
s = tempfile.mkdtemp(prefix="verif-replay-", dir="/tmp")
try:
    lls = build.ir(s)
    lib = build.native(s, True)
    env = vc.Env([Module(open(p).read(), n) for n, p in sorted(lls.items())])
    lay = os.path.join(s, "layout.json")
    json.dump({k: v for k, v in env.members.items() if v and "<" not in k and not k.startswith("_")}, open(lay, "w"))
    e = dict(os.environ, LD_PRELOAD=subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip(),
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1")
    r = subprocess.run(["python3", os.path.join(HERE, "native", "run.py"), d["property"], lib, lay, "1", "quick", os.path.join(s, "o.json"), os.path.abspath(rp)], env=e)
    sys.exit(1 if r.returncode else 0)
finally:
    shutil.rmtree(s, ignore_errors=True)
