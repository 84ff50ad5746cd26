#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--update-baseline]

Decides one property of /repo's current working tree:
  1. builds LLVM IR from the working tree and discharges every obligation of every contract anchored in it;
  2. runs the executable form of the contracts on the real library (address sanitizer) to find a concrete failing
     input, and as a labelled bounded stand-in where a function is out of the verifier's reach.
Exit 0: held.  Exit 1: VIOLATION line."""
import argparse
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "specs"))
sys.setrecursionlimit(100000)
import build  # noqa: E402

ENV = None
SPECS = None


def fn_hash(env, name):
    """Hash of a function's IR without debug locations and metadata numbers."""
    f = env.find(name)
    if f is None:
        return None
    t = []
    for l in f.raw:
        l = re.sub(r", ![a-z][\w.]* !\d+", "", l)
        l = re.sub(r"#\d+|!\d+", "", l)
        l = re.sub(r"@\.str[.\d]*|@__PRETTY_FUNCTION__[\w.]*|@__func__[\w.]*", "@str", l)
        if "@llvm.dbg." in l:
            continue
        if "@__assert_fail" in l:
            l = re.sub(r"i32 noundef \d+", "i32 LINE", l)
        t.append(l.strip())
    return hashlib.sha256("\n".join(t).encode()).hexdigest()[:20]


def prove_one(name, part=(0, 1)):
    import solve
    return solve.verify_one(ENV, SPECS, name, part=part)


class Parts:
    """The slices of one function's obligations, under way."""

    def __init__(self, pool, name, secs):
        n = max(1, min(8, int(secs / 12) + 1))
        self.name = name
        self.rs = [pool.apply_async(prove_one, (name, (k, n))) for k in range(n)]

    def get(self, timeout):
        import solve
        end = time.time() + timeout
        out = []
        for r in self.rs:
            try:
                out.append(r.get(timeout=max(1, end - time.time())))
            except multiprocessing.TimeoutError:
                out.append(dict(fn=self.name, status="timeout", obls=[], used=[], inlined=[], err="out of time", time=0))
        return solve.merge_parts(out)


def layout_of(env):
    return {k: v for k, v in env.members.items() if v and "<" not in k and not k.startswith("_")}


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


class Native:
    def __init__(self, scratch, prop, seed):
        self.scratch, self.prop, self.seed = scratch, prop, seed
        self.out = os.path.join(scratch, "native.json")
        self.err = ""
        self.res = None

    def available(self):
        return os.path.exists(os.path.join(HERE, "native", "n%s.py" % self.prop.lower()))

    def go(self, lib, layout, tier, limit):
        asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env = dict(os.environ)
        env.update(LD_PRELOAD=asan, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   LC_ALL="C.UTF-8")
        cmd = ["python3", os.path.join(HERE, "native", "run.py"), self.prop, lib, layout, str(self.seed), tier, self.out]
        if os.path.exists(self.out):
            os.unlink(self.out)
        try:
            r = subprocess.run(cmd, env=env, cwd=self.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, errors="replace")
            self.err = r.stdout[-2000:]
        except subprocess.TimeoutExpired:
            self.err = "native run exceeded %d s" % limit
            subprocess.run(["pkill", "-9", "-f", self.out])
        self.res = json.load(open(self.out)) if os.path.exists(self.out) else None
        return self.res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--update-baseline", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
    try:
        rc = decide(a, prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(a, prop, tier, seed, scratch, t0):
    global ENV, SPECS
    from llir import Module
    import vc
    import allspecs
    wall = 700 if tier == "quick" else 3000
    # ---------------------------------------------------------------- build
    native = Native(scratch, prop, seed)
    use_native = native.available() and not a.no_native
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fi = ex.submit(build.ir, scratch)
        fn = ex.submit(build.native, scratch, True) if use_native else None
        try:
            lls = fi.result()
            lib = fn.result() if fn else None
        except build.BuildError as e:
            print("BUILD FAILED\n" + str(e))
            return 2
    mods = [Module(open(p).read(), s) for s, p in sorted(lls.items())]
    env = ENV = vc.Env(mods)
    specs = SPECS = allspecs.specs()
    lay = os.path.join(scratch, "layout.json")
    json.dump(layout_of(env), open(lay, "w"))
    base_p = os.path.join(HERE, "baseline", prop + ".json")
    base = json.load(open(base_p)) if os.path.exists(base_p) else {}
    times_p = os.path.join(HERE, "baseline", "times.json")         # seconds per function, to share the work out (decides nothing)
    times = json.load(open(times_p)) if os.path.exists(times_p) else {}
    # ---------------------------------------------------------------- proofs + native, side by side
    own = [n for n, c in specs.items() if prop in c.props and not c.assumed and not c.inline]
    own.sort(key=lambda n: -times.get(n, 0))
    th = None
    if use_native:
        th = threading.Thread(target=native.go, args=(lib, lay, tier, wall))
    results, deps = {}, {}
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(8)
    try:
        pend = {n: Parts(pool, n, times.get(n, 0)) for n in own}
        if th:
            th.start()

        def collect(pend, into):
            for n, r in pend.items():
                left = t0 + wall - time.time()
                try:
                    into[n] = r.get(timeout=max(1, left))
                except multiprocessing.TimeoutError:
                    into[n] = dict(fn=n, status="timeout", obls=[], used=[], inlined=[], err="out of time", time=0)
        import sums
        collect({"lemma: " + n: pool.apply_async(sums.check_lemma, (n,)) for n, l in sums.LEMMAS.items() if prop in l["props"]}, deps)
        collect(pend, results)
        # an obligation the solver gave up on is tried once more (its answers vary from run to run)
        few = [n for n, r in results.items() if r["status"] == "failed" and 0 < sum(o["status"] != "proved" for o in r["obls"]) <= 3]
        if few:
            again = {}
            collect({n: Parts(pool, n, times.get(n, 0)) for n in few}, again)
            results.update({n: r for n, r in again.items() if r["status"] == "proved"})
        # callee contracts the proofs rest on (verified here too: nothing is taken from another run)
        todo = set()
        seen = set(results)
        frontier = [u for r in results.values() for u in r["used"]]
        while frontier:
            nxt = {u for u in frontier if u not in seen and u in specs and not specs[u].assumed and not specs[u].inline}
            if not nxt:
                break
            seen |= nxt
            dr = {}
            collect({n: Parts(pool, n, times.get(n, 0)) for n in sorted(nxt, key=lambda n: (-times.get(n, 0), n))}, dr)
            deps.update(dr)
            frontier = [u for r in dr.values() for u in r["used"]]
        assumed = sorted({u for r in list(results.values()) + list(deps.values()) for u in r["used"] if u in specs and specs[u].assumed})
    finally:
        pool.terminate()
        pool.join()
    if th:
        th.join()
    # ---------------------------------------------------------------- baseline bookkeeping
    for n, r in results.items():
        r["hash"] = fn_hash(env, n)
        r["inl_hash"] = {x: fn_hash(env, x) for x in r["inlined"]}
    if a.update_baseline:
        os.makedirs(os.path.join(HERE, "baseline"), exist_ok=True)
        json.dump({n: dict(status=r["status"], hash=r["hash"], skeleton=r.get("skeleton"), obligations=len(r["obls"]), time=r["time"]) for n, r in sorted(results.items())},
                  open(base_p, "w"), indent=1, sort_keys=True)
        base = json.load(open(base_p))
        times.update({n: int(r["time"]) for n, r in list(results.items()) + list(deps.items()) if r["time"] >= 5 and not n.startswith("lemma")})
        json.dump(times, open(times_p, "w"), indent=1, sort_keys=True)
    failing, undecided = [], []
    for n, r in results.items():
        b = base.get(n, {})
        if r["status"] == "proved":
            continue
        if r["status"] == "failed" and b.get("status") == "proved" and r["hash"] != b.get("hash") and r.get("skeleton") == b.get("skeleton"):
            failing.append(n)
        else:
            undecided.append(n)
    # ---------------------------------------------------------------- concrete failing input
    known = load_known(prop)
    nres = native.res or {}

    def split(fails):
        new, old = [], []
        for f in fails:
            k = next((k for k in known if re.fullmatch(k.get("check", ""), f["check"]) and (re.search(k["match"], f["message"], re.S) if "match" in k else k.get("input") == f["input"])), None)
            (old if k else new).append((f, k))
        return new, old
    new, oldf = split(nres.get("fails", []))
    if use_native and not new and (failing or (undecided and any(results[n]["hash"] != base.get(n, {}).get("hash") for n in undecided))) and tier == "quick":
        # the proof no longer goes through: search harder before concluding
        left = int(t0 + 820 - time.time())
        if left > 60:
            n2 = Native(scratch, prop, seed + 1000)
            n2.out = os.path.join(scratch, "native2.json")
            os.environ["VERIF_DEEP"] = "1"
            r2 = n2.go(lib, lay, "deep", min(left, 300))
            if r2:
                nn, oo = split(r2.get("fails", []))
                new += nn
                for k, s in r2.get("stats", {}).items():
                    d = nres.setdefault("stats", {}).setdefault(k, dict(evaluations=0, nontrivial=0, samples=[], secs=0))
                    d["evaluations"] += s["evaluations"]
                    d["nontrivial"] += s["nontrivial"]
    rc = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    viol = 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if new:
        os.makedirs(rdir, exist_ok=True)
        f = new[0][0]
        rp = os.path.join(rdir, "%s-input.json" % prop)
        json.dump(dict(property=prop, check=f["check"], input=f["input"], message=f["message"],
                       failed_obligations=[dict(function=n, obligations=[o for o in results[n]["obls"] if o["status"] != "proved"]) for n in failing + undecided],
                       how="python3 /verif/replay.py " + rp), open(rp, "w"), indent=1)
        print("contract broken by the real code: %s: %s" % (f["check"], f["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        viol += len(new)
        rc = 1
    elif failing:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-obligation.json" % prop)
        rec = []
        for n in failing:
            rec.append(dict(function=n, obligations=[o for o in results[n]["obls"] if o["status"] != "proved"]))
            for o in rec[-1]["obligations"]:
                print("failed obligation: %s line %s: [%s] %s" % (n, o["line"], o["kind"], o["name"]))
        json.dump(dict(property=prop, failed=rec, note="the verifier no longer accepts these obligations; no concrete failing input was found"), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        viol += len(failing)
        rc = 1
    # ---------------------------------------------------------------- evidence
    allr = list(results.values()) + list(deps.values())
    ob = sum(len(r["obls"]) for r in allr if r["status"] in ("proved", "failed"))
    dis = sum(1 for r in allr if r["status"] in ("proved", "failed") for o in r["obls"] if o["status"] == "proved")
    import props_meta
    meta = props_meta.META.get(prop, {})
    cov = dict(
        obligations=ob, discharged=dis, checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, tier),
        trusted_base=["clang-18 (C/C++ to LLVM IR)", "the VC generator /verif/engine (llir.py, vc.py, solve.py)", "z3 %s" % z3v()] + ["assumed contract: " + x for x in assumed],
        functions_under_contract=sorted(n for n, r in results.items() if r["status"] == "proved"),
        supporting_functions_under_contract=sorted(n for n, r in deps.items() if r["status"] == "proved"),
        functions_not_proved=[dict(function=n, status=results[n]["status"], reason=(results[n]["err"] or "; ".join(o["name"] for o in results[n]["obls"] if o["status"] != "proved"))[:400])
                              for n in sorted(failing + undecided)] + [dict(function=n, status=r["status"], supporting=True, reason=r["err"][:300]) for n, r in sorted(deps.items()) if r["status"] != "proved"],
        solver_time_s=round(sum(o["time"] for r in allr for o in r["obls"]), 2),
        discharged_by={k: sum(1 for r in allr for o in r["obls"] if o["status"] == "proved" and re.split("[#/]", o["how"])[0] == k) for k in ("simplify", "z3")},
        inlined_helpers=sorted({x for r in allr for x in r["inlined"]}),
    )
    st = nres.get("stats", {})
    cov["evaluations"] = sum(s["evaluations"] for s in st.values())
    cov["distinct_nontrivial"] = sum(s["nontrivial"] for s in st.values())
    cov["rule"] = meta.get("rule", "executable contracts on seeded random and enumerated small inputs incl. 64-bit boundary values, real library under the address sanitizer; non-trivial: distinct input that exercises the edit (non-empty operand)")
    cov["samples"] = [x for s in st.values() for x in s.get("samples", [])][:4]
    cov["bounded_checks"] = {k: s["evaluations"] for k, s in st.items()}
    cov["bounded_only"] = meta.get("bounded", [])
    if nres.get("missing"):
        cov["missing"] = nres["missing"]
    if nres.get("internal") or (use_native and not native.res):
        cov["native_errors"] = str(nres.get("internal") or native.err)[:1500]
    cov["explanation"] = meta.get("explanation", "")
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "proof"), coverage=cov, assumptions=meta.get("assumptions", []) + props_meta.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d functions proved, %d supporting, %d/%d obligations; bounded: %d evaluations; not proved: %s; %.1f s" % (
        prop, len(cov["functions_under_contract"]), len(cov["supporting_functions_under_contract"]), dis, ob, cov["evaluations"], failing + undecided, time.time() - t0))
    bad = ["%s:%s %s" % (n, o["line"], o["name"]) for n, r in list(results.items()) + list(deps.items()) for o in r["obls"] if o["status"] != "proved"]
    if bad:
        print("not discharged: " + "; ".join(bad)[:600])
    if a.v:
        for n in failing + undecided:
            print(n, results[n]["status"], results[n]["err"], [(o["line"], o["kind"], o["name"]) for o in results[n]["obls"] if o["status"] != "proved"])
        print(cov.get("native_errors"), cov.get("missing"))
    return rc


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
