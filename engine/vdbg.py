"""Debug driver: vdbg.py [-k] fn..."""
import sys, os, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs"))
sys.setrecursionlimit(100000)
import build, solve, vc
from llir import Module
import allspecs
from concurrent.futures import ProcessPoolExecutor

def load():
    d = os.environ.get("VIR", "/tmp/vir")
    os.makedirs(d, exist_ok=True)
    if os.environ.get("VREB") or not os.path.exists(d + "/math_support.c.ll"):
        build.ir(d)
    mods = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".ll"):
            mods.append(Module(open(os.path.join(d, f)).read(), f))
    return vc.Env(mods)
env = None
def one(n):
    return solve.verify_one(env, allspecs.specs(), n)
if __name__ == "__main__":
    env = load()
    S = allspecs.specs()
    names = sys.argv[1:]
    if names == ["all"]:
        names = [n for n in S if not S[n].assumed and not S[n].inline]
    elif names and names[0].endswith("*"):
        names = [n for n in S if n.startswith(names[0][:-1]) and not S[n].assumed]
    tot = ok = 0
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(one, names):
            nb = sum(1 for o in r["obls"] if o["status"] == "proved")
            tot += len(r["obls"]); ok += nb
            print("%-45s %-8s %d/%d %.1fs %s" % (r["fn"], r["status"], nb, len(r["obls"]), r["time"], r["err"]))
            if r["status"] == "failed":
                for o in r["obls"]:
                    if o["status"] != "proved":
                        print("      line %s: [%s] %s (%s, %.1fs)" % (o["line"], o["kind"], o["name"], o.get("reason"), o["time"]))
            sys.stdout.flush()
    print(ok, "/", tot)
