#!/usr/bin/env python3
"""mutate.py PROP n seed fn[,fn...]: plant n random small faults in the given functions, one at a time, in a copy of /repo, and run the property's check on each.

Development aid: the survivors show what a check misses (or are equivalent)."""
import json
import os
import random
import re
import shutil
import subprocess
import sys

FILES = ["math_support.c", "constraints.c", "constraints_isl.c", "isl_support.c", "ddg.c", "pluto.c", "framework.cpp", "framework-dfp.c", "program.cpp", "tile.c", "polyloop.c", "transforms.c", "iss.c", "plutolib.c", "post_transform.c"]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\b0;", "1;"), (r"\b1;", "0;"), (r"= 0\b", "= 1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\+=", "-="), (r"-=", "+="),
       (r"\bsrc\b", "dest"), (r"\bdest\b", "src"), (r"\bnrows\b", "ncols"), (r"\bncols\b", "nrows"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"!(\w)", r"\1"), (r"\bnpar\b", "nvar"), (r"\bdim\b", "dim_orig")]


def find(fn, repo):
    for f in FILES:
        t = open(repo + "/lib/" + f).read()
        m = re.search(r"^[\w\*][^;{}#/]*?\b%s\(([^;{}]*)\)\s*(const\s*)?\{" % fn, t, re.M)
        if m:
            i = t.index("{", m.end() - 1)
            d, k = 0, i
            while True:
                d += {"{": 1, "}": -1}.get(t[k], 0)
                k += 1
                if d == 0:
                    break
            return f, i, k
    raise SystemExit("no function " + fn)


def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    fns = sys.argv[4].split(",")
    rnd = random.Random(seed)
    work = "/tmp/mut/%s-%d" % (prop, seed)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repo, ver = work + "/repo", work + "/verif"
    subprocess.run(["cp", "-a", "/repo", repo])
    subprocess.run(["cp", "-a", "/verif", ver])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    seen = set()
    for it in range(n * 4):
        if n <= 0:
            break
        fn = rnd.choice(fns)
        f, a, b = find(fn, "/repo")
        t = open("/repo/lib/" + f).read()
        body = t[a:b]
        lines = body.split("\n")
        if rnd.random() < 0.2:
            cand = [k for k, l in enumerate(lines) if re.match(r"\s+[\w\->\.\[\]\(\), \*&+]+;\s*$", l) and not re.match(r"\s+(int|unsigned|bool|char|struct|return|for|const|isl_\w+ \*|Pluto\w* \*|Stmt|Dep|Ploop|Band|int64_t|break|goto)\b", l) and not l.strip().startswith(("free", "printf", "fprintf", "assert"))]
            if not cand:
                continue
            k = rnd.choice(cand)
            new = lines[:]
            new[k] = re.match(r"\s*", lines[k]).group(0) + ";"
        else:
            pat, rep = rnd.choice(OPS)
            cand = [(k, m) for k, l in enumerate(lines) for m in re.finditer(pat, l) if not l.strip().startswith(("//", "*", "/*", "printf", "fprintf", "assert", "IF_")) and "printf" not in l and '"' not in l]
            if not cand:
                continue
            k, m = rnd.choice(cand)
            new = lines[:]
            new[k] = lines[k][:m.start()] + m.expand(rep) + lines[k][m.end():]
        key = (fn, k, new[k])
        if key in seen:
            continue
        seen.add(key)
        open(repo + "/lib/" + f, "w").write(t[:a] + "\n".join(new) + t[b:])
        try:
            r = subprocess.run(["python3-vt", ver + "/check.py", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900, cwd=ver)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res = ("caught-nf" if "no-failing" in v[0] else "caught") if r.returncode == 1 and v else "SURVIVED" if r.returncode == 0 else "rc%d" % r.returncode
        except subprocess.TimeoutExpired:
            res = "timeout"
        shutil.copy("/repo/lib/" + f, repo + "/lib/" + f)
        if res.startswith("rc") and "BuildError" in r.stdout:
            continue
        n -= 1
        ln = t[:a].count("\n") + k + 1
        with open("/tmp/mut/%s-%d.txt" % (prop, seed), "a") as o:
            o.write("%-9s %s:%d %s | %s  =>  %s\n" % (res, f, ln, fn, lines[k].strip(), new[k].strip()))
    shutil.rmtree(work)


main()
