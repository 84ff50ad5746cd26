"""Runs the executable contracts of one property against the real library.

run.py PROP LIB LAYOUT.json SEED TIER OUT.json [REPLAY.json]"""
import importlib
import json
import mmap
import os
import random
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nat

PER_CASE = 60
CASEBUF = 1 << 20


def worker(w, W, prop, lib, mod, seed, tier, slot, errpath, outpath):
    fd = os.open(errpath, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    os.dup2(fd, 2)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    stats = {}
    t_end = time.time() + (mod.BUDGET.get(tier, 60) if hasattr(mod, "BUDGET") else {"quick": 60, "thorough": 600, "deep": 240}[tier])
    fails = []
    missing = {}
    for ck in mod.CHECKS:
        st = stats[ck["name"]] = dict(evaluations=0, nontrivial=0, samples=[])
        n = ck.get("n", {}).get("thorough" if tier == "deep" else tier, 2000 if tier == "quick" else 30000)
        rng = random.Random("%s/%s/%s/%s" % (seed, prop, ck["name"], w))
        cnt = 0
        distinct = set()

        def inputs():
            if "exhaustive" in ck:
                for k, x in enumerate(ck["exhaustive"]("quick" if tier == "quick" else "thorough")):
                    if k % W == w:
                        yield x
            for k in range((n + W - 1) // W):
                yield ck["gen"](rng)
        t_chk = time.time() + ck.get("secs", {}).get("thorough" if tier == "deep" else tier, 25 if tier == "quick" else 240)
        tc0 = time.time()
        for inp in inputs():
            now = time.time()
            if now > t_end or now > t_chk:
                break
            js = json.dumps([ck["name"], inp]).encode()[:CASEBUF - 9]
            slot[8:8 + len(js)] = js
            slot[0:8] = len(js).to_bytes(8, "little")
            signal.alarm(PER_CASE)
            try:
                r = ck["run"](lib, inp)
                st["evaluations"] += 1
                if r is not False:
                    h = hash(js)
                    if h not in distinct:
                        distinct.add(h)
                        st["nontrivial"] += 1
                        if len(st["samples"]) < 2 and len(js) < 1500:
                            st["samples"].append(json.loads(js.decode()))
            except nat.Fail as e:
                fails.append(dict(check=ck["name"], input=inp, message=str(e)[:4000]))
                if not ck.get("known") or not ck["known"](inp, str(e)):
                    break
            except nat.Missing as e:
                missing[ck["name"]] = str(e)
                break
            finally:
                signal.alarm(0)
        st["secs"] = round(time.time() - tc0, 2)
        if any(f for f in fails if f["check"] == ck["name"] and not (ck.get("known") and ck["known"](f["input"], f["message"]))):
            break
    json.dump(dict(stats=stats, fails=fails, missing=missing), open(outpath + ".tmp", "w"))
    os.rename(outpath + ".tmp", outpath)
    slot[0:8] = (0).to_bytes(8, "little")
    os._exit(0)


def main():
    prop, so, layout, seed, tier, out = sys.argv[1:7]
    lay = json.load(open(layout))
    mod = importlib.import_module("n" + prop.lower())
    lib = nat.Lib(so, lay)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if len(sys.argv) > 7:
        rp = json.load(open(sys.argv[7]))
        ck = [c for c in mod.CHECKS if c["name"] == rp["check"]][0]
        signal.alarm(PER_CASE)
        try:
            ck["run"](lib, rp["input"])
        except nat.Fail as e:
            print("REPRODUCED", rp["check"], e)
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    W = int(os.environ.get("VERIF_WORKERS", "8"))
    base = out + ".w"
    for w in range(64):
        for x in (".json", ".err"):
            if os.path.exists(base + "%d" % w + x):
                os.unlink(base + "%d" % w + x)
    procs = {}
    slots = []
    for w in range(W):
        mm = mmap.mmap(-1, CASEBUF)
        slots.append(mm)
        pid = os.fork()
        if pid == 0:
            try:
                worker(w, W, prop, lib, mod, int(seed), tier, mm, base + "%d.err" % w, base + "%d.json" % w)
            except BaseException:
                traceback.print_exc()
                os._exit(77)
        procs[pid] = w
    fails, stats, missing, internal = [], {}, {}, []
    while procs:
        pid, status = os.wait()
        w = procs.pop(pid)
        err = open(base + "%d.err" % w, errors="replace").read() if os.path.exists(base + "%d.err" % w) else ""
        if os.path.exists(base + "%d.json" % w):
            r = json.load(open(base + "%d.json" % w))
            fails += r["fails"]
            missing.update(r["missing"])
            for k, s in r["stats"].items():
                d = stats.setdefault(k, dict(evaluations=0, nontrivial=0, samples=[], secs=0))
                d["evaluations"] += s["evaluations"]
                d["nontrivial"] += s["nontrivial"]
                d["secs"] = max(d["secs"], s.get("secs", 0))
                d["samples"] = (d["samples"] + s["samples"])[:2]
            continue
        n = int.from_bytes(slots[w][0:8], "little")
        case = None
        if n:
            try:
                case = json.loads(bytes(slots[w][8:8 + n]).decode())
            except ValueError:
                case = None
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
            internal.append(dict(case=case, err=err[-3000:]))
            continue
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        if sig == signal.SIGKILL:
            internal.append(dict(case=case, err="worker killed (out of memory?)"))
            continue
        if case is None:
            internal.append(dict(case=None, err="worker died outside a case: %s %s" % (status, err[-2000:])))
            continue
        m = "did not finish within %d s" % PER_CASE if sig == signal.SIGALRM else "crashed (status %d): %s" % (status, crash_text(err))
        fails.append(dict(check=case[0], input=case[1], message=m, crash=True))
    json.dump(dict(stats=stats, fails=fails, missing=missing, internal=internal), open(out, "w"), indent=1)


def crash_text(err):
    k = err.find("ERROR: AddressSanitizer")
    if k >= 0:
        return err[k:k + 1500]
    return err[-1500:]


if __name__ == "__main__":
    main()
