"""Verification-condition generator: contracts + loop invariants over the LLVM IR
that clang emits for the real libpluto sources.

Memory model (stated in DESIGN.md): typed heap (strict aliasing); a pointer is a
(block, element offset) pair; block ids are never reused; struct fields live in
one map per (struct, field); heap-stored pointers other than int64_t* must be
base pointers (checked at every store).  i32 values are exact (wrap-around
modelled); 64-bit arithmetic is mathematical; malloc never fails."""
import os
import re
import sys
import types

import z3
from llir import Module, Unsupported

I = z3.IntSort()
AI = z3.ArraySort(I, I)
AAI = z3.ArraySort(I, AI)
AB = z3.ArraySort(I, z3.BoolSort())
LEN = z3.Function("LEN", I, I)
ADR = z3.Function("ADR", I, I, I)
MULT = z3.Function("MULT", I, I, I)
TDIV = z3.Function("TDIV", I, I, I)
GCD = z3.Function("GCD", I, I, I)
LCM = z3.Function("LCM", I, I, I)
KINDF = z3.Function("KIND", I, I)
_kinds = {}


def K(name):
    """Identifier of an allocation kind (element type, or the owning field for row tables and buffers)."""
    if name not in _kinds:
        _kinds[name] = len(_kinds) + 1
    return z3.IntVal(_kinds[name])
IV = z3.IntVal
_n = [0]


def fresh(name, sort=I):
    _n[0] += 1
    return z3.Const("%s!%d" % (name, _n[0]), sort)


def forall(vs, body, pats=None):
    if pats:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
    return z3.ForAll(vs, body)


def is_lit(t, v=None):
    return z3.is_int_value(t) and (v is None or t.as_long() == v)


class PVal:
    __slots__ = ("blk", "off", "path", "ct")

    def __init__(self, blk, off=None, path=None, ct=None):
        self.blk = blk
        self.off = IV(0) if off is None else off
        self.path = path
        self.ct = ct

    def with_ct(self, ct):
        return PVal(self.blk, self.off, self.path, ct)

    def __repr__(self):
        return "P(%s,%s,%s,%s)" % (self.blk, self.off, self.path, self.ct)


NULL = lambda ct=None: PVal(IV(0), IV(0), None, ct)


class Poison:
    def __init__(self, why):
        self.why = why


class Opaque:
    """A value (floating point, ...) nothing is known about."""


def ctstr(t):
    if t is None:
        return "?"
    if t[0] == "ptr":
        return ctstr(t[1]) + "*"
    if t[0] == "int":
        return "i%d" % t[1]
    if t[0] == "struct":
        return t[1]
    return t[0]


PI64 = ("ptr", ("int", 64, False))


def is_i64(t):
    return t is not None and t[0] == "int" and t[1] == 64


class State:
    def __init__(self):
        self.mem = {}
        self.vars = {}
        self.nb = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.vars = dict(self.vars)
        s.nb = self.nb
        return s


def keysort(key):
    if key == "freed":
        return AB
    if key.startswith("g.") or key.startswith("m."):
        return AI
    return AAI


class Env:
    """All modules of the program."""

    def __init__(self, modules):
        self.modules = modules
        self.funcs = {}
        self.members = {}
        for m in modules:
            for f in m.funcs.values():
                key = f.name
                if key not in self.funcs:
                    self.funcs[key] = f
            for s, mem in m.struct_members().items():
                if s not in self.members or len(mem) > len(self.members[s]):
                    self.members[s] = mem

    def find(self, name):
        f = self.funcs.get(name)
        if f is None:
            # C++ mangled free functions: _Z<len>name...
            for k in self.funcs:
                m = re.match(r"_ZL?(\d+)", k)
                if m and k[m.end():m.end() + int(m.group(1))] == name and k[m.end() + int(m.group(1)):][:1] != "":
                    return self.funcs[k]
        return f

    def sizeof(self, t, mod):
        if t in ("ptr", "i64", "double"):
            return 8
        if t in ("i32", "float"):
            return 4
        if t == "i16":
            return 2
        if t in ("i8", "i1"):
            return 1
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            return int(m.group(1)) * self.sizeof(m.group(2), mod)
        if t.startswith("%"):
            fs = mod.structs.get(t)
            if fs is None:
                raise Unsupported("opaque struct " + t)
            off, al = 0, 1
            for x in fs:
                s = self.sizeof(x, mod)
                a = self.alignof(x, mod)
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            return (off + al - 1) // al * al
        raise Unsupported("sizeof " + t)

    def alignof(self, t, mod):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            return self.alignof(m.group(2), mod)
        if t.startswith("%"):
            return max([1] + [self.alignof(x, mod) for x in mod.structs.get(t) or []])
        return self.sizeof(t, mod)

    def csize(self, ct):
        if ct is None:
            return None
        if ct[0] == "ptr":
            return 8
        if ct[0] in ("int", "float"):
            return ct[1] // 8
        if ct[0] == "struct":
            mem = self.members.get(ct[1])
            if not mem:
                return None
            last = max(mem, key=lambda m: m[2])
            al = max(min(m[3], 8) if m[1][0] in ("ptr", "int", "float") else 8 for m in mem)
            return (last[2] + last[3] + al - 1) // al * al
        return None


NOCHECK_STRUCTS = {"plutoContext", "plutoOptions"}

PURE_EXT = {"printf", "fprintf", "puts", "fputc", "putchar", "fflush", "fputs", "fwrite", "llvm.stackrestore", "llvm.lifetime.start.p0",
            "llvm.lifetime.end.p0", "perror"}


class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=None, frees=None, loops=None, pure=False, assumed=False,
                 allocs=True, note="", inline=False, setup=None, alt_loops=None, unroll=None, ret_ct=None, timeout=None, decl=None):
        self.name = name
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies or (lambda c: {})
        self.frees = frees
        self.loops = loops or {}
        self.alt_loops = alt_loops or []
        self.pure = pure
        self.assumed = assumed
        self.allocs = allocs
        self.note = note
        self.inline = inline
        self.setup = setup
        self.ret_ct = ret_ct
        self.timeout = timeout
        self.decl = decl


class View:
    """Read access to a state for specifications."""

    def __init__(self, vf, st):
        self.vf, self.st = vf, st

    def key(self, k):
        return self.vf.getmem(self.st, k)

    def f(self, struct, field, p, off=None):
        """Field of the struct p (PVal or block term) points to."""
        blk = p.blk if isinstance(p, PVal) else p
        o = off if off is not None else (p.off if isinstance(p, PVal) else IV(0))
        k = "f.%s.%s" % (struct, field)
        v = z3.Select(z3.Select(self.key(k), blk), o)
        return v

    def fp(self, struct, field, p, off=None):
        ct = self.vf.field_ct(struct, field)
        return PVal(self.f(struct, field, p, off), IV(0), None, ct)

    def cell(self, key, blk, off):
        return z3.Select(z3.Select(self.key(key), blk), off)

    def i32(self, p, i):
        return self.cell("c.i32", p.blk if isinstance(p, PVal) else p, i)

    def i8(self, p, i):
        return self.cell("c.i8", p.blk if isinstance(p, PVal) else p, i)

    def pcell(self, elem, p, i):
        """Element i of an array of pointers-to-elem (block id)."""
        return self.cell("c.p.%s.b" % elem, p.blk if isinstance(p, PVal) else p, i)

    def freed(self, blk):
        return z3.Select(self.key("freed"), blk)

    def own(self, blk):
        return z3.Select(self.key("g.own"), blk)

    def ownidx(self, blk):
        return z3.Select(self.key("g.idx"), blk)

    @property
    def nb(self):
        return self.st.nb


class SpecCtx:
    def __init__(self, vf, args, pre, post=None, ret=None):
        self.vf, self.args = vf, args
        self.pre, self.post, self.ret = pre, post, ret

    def __getitem__(self, n):
        return self.args[n]


class LoopCtx:
    pass


class Obl:
    __slots__ = ("name", "kind", "line", "n", "guard", "goal", "fn", "split", "hs", "top")

    def __init__(self, name, kind, line, n, guard, goal, fn):
        self.name, self.kind, self.line, self.n, self.guard, self.goal, self.fn = name, kind, line, n, guard, goal, fn
        self.split = []
        self.hs = None
        self.top = None


class NoFit(Exception):
    """The annotations do not fit the code's present shape (renamed/restructured)."""


class Verify:
    MAXINLINE = 6

    def __init__(self, env, specs, fname, loops=None, trusted=None):
        self.env, self.specs = env, specs
        self.fname = fname
        self.facts = []
        self.obls = []
        self.inv_id = 0
        self.loopno = 0
        self.top = None
        self.nb0 = None
        self.modpred = {}
        self.used_contracts = set()
        self.inlined = set()
        self.loops_override = loops
        self.globals = {}
        self.loopstack = []
        self.mulmode = "native"
        self.st0 = State()
        self.cover = []
        self.cuts = []
        self.topcut = None
        self.sticky = []
        self.gdefs = []
        self.ncalls = {}
        self.last_merge = []
        self.skeleton = []

    # ------------------------------------------------------------ facts / obligations
    def fact(self, f, guard=None):
        if f is True or (z3.is_true(f) if not isinstance(f, bool) else f):
            return
        if guard is not None and not z3.is_true(guard):
            f = z3.Implies(guard, f)
        self.facts.append(f)

    def gfact(self, f):
        """Definition of a path condition."""
        self.gdefs.append(len(self.facts))
        self.fact(f)

    def oblige(self, name, kind, line, guard, goal, local=False):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_and(goal) and kind in ("post", "inv-init", "inv-pres", "pre") and goal.num_args() > 1:
            for k, x in enumerate(goal.children()):
                self.oblige("%s (%d)" % (name, k + 1), kind, line, guard, x)
            return
        if z3.is_true(z3.simplify(goal)) if not z3.is_quantifier(goal) else False:
            # still counted: trivially discharged by simplification
            self.obls.append(Obl(name, kind, line, len(self.facts), guard, z3.BoolVal(True), self.fname))
            return
        self.obls.append(Obl(name, kind, line, len(self.facts), guard, goal, self.fname))
        self.obls[-1].split = self.last_merge
        self.obls[-1].top = self.topcut
        if not local:
            self.fact(goal, guard)

    def nm(self, t):
        """Names a term (keeps if-then-else out of quantifier patterns)."""
        c = fresh("t", t.sort())
        self.fact(c == t)
        return c

    # ------------------------------------------------------------ memory
    def getmem(self, st, key):
        v = st.mem.get(key)
        if v is None:
            v = self.st0.mem.get(key)
            if v is None:
                v = z3.Const("%s@0" % key, keysort(key))
                self.st0.mem[key] = v
            st.mem[key] = v
        return v

    def field_ct(self, struct, field):
        for m in self.env.members.get(struct, []):
            if m[0] == field:
                return m[1]
        raise NoFit("no field %s.%s" % (struct, field))

    def rng32(self, t, unsigned=False):
        return z3.And(t >= -(1 << 31), t < (1 << 31))

    def chk_access(self, st, p, size, guard, line, what):
        if p.path and p.path[0] in NOCHECK_STRUCTS:
            return
        cond = z3.And(p.off >= 0, (p.off + 1) * size <= LEN(p.blk), z3.Not(z3.Select(self.getmem(st, "freed"), p.blk)),
                      p.blk != 0)
        self.oblige("%s in bounds" % what, "bounds", line, guard, cond)

    def region(self, p, ty, mod):
        """(key, size, ctype of loaded value) for an access of LLVM type ty through p."""
        if p.path:
            s, fld = p.path[0], p.path[1]
            ct = self.field_ct(s, fld)
            key = "f.%s.%s" % (s, fld)
            if len(p.path) > 2:
                raise Unsupported("nested field access")
            size = self.env.csize(("struct", s))
            return key, size, ct
        if ty == "ptr":
            ct = p.ct
            if ct is None or ct[0] != "ptr" or ct[1][0] not in ("ptr", "array"):
                raise Unsupported("pointer cell of unknown type (%s)" % (ct,))
            el = ct[1]
            return "c.p.%s" % ctstr(el[1]), 8, el
        if ty in ("i64", "i32", "i8"):
            return "c." + ty, self.env.sizeof(ty, mod), (p.ct[1] if p.ct and p.ct[0] == "ptr" else None)
        if ty in ("double", "float"):
            return None, 8, None
        raise Unsupported("access of type " + ty)

    def load(self, st, p, ty, guard, line, mod):
        if isinstance(p, (Poison, Opaque)):
            raise Unsupported("load through unknown pointer")
        key, size, ct = self.region(p, ty, mod)
        if key is None:
            return Opaque()
        self.chk_access(st, p, size, guard, line, "load %s" % key)
        if ty == "ptr":
            if key.startswith("c.p."):
                b = z3.Select(z3.Select(self.getmem(st, key + ".b"), p.blk), p.off)
                if key == "c.p.i64":
                    o = z3.Select(z3.Select(self.getmem(st, key + ".o"), p.blk), p.off)
                else:
                    o = IV(0)
                return PVal(b, o, None, ct)
            b = z3.Select(z3.Select(self.getmem(st, key), p.blk), p.off)
            o = z3.Select(z3.Select(self.getmem(st, key + "@o"), p.blk), p.off) if key in OFFS else IV(0)
            return PVal(b, o, None, ct)
        v = z3.Select(z3.Select(self.getmem(st, key), p.blk), p.off)
        if ty == "i32":
            self.fact(self.rng32(v))
        elif ty == "i8":
            if ct and ct[0] == "int" and ct[2]:
                self.fact(z3.And(v >= 0, v <= 255) if False else z3.And(v >= 0, v <= 1) if True else True) if False else None
            self.fact(z3.And(v >= -128, v <= 127))
        return v

    def frame_ok(self, key, blk):
        pred = self.modpred.get(key)
        c = [blk >= self.nb0]
        if pred is not None:
            c.append(pred(blk))
        return z3.Or(*c)

    def setmem1(self, st, key, blk, off, v):
        m = self.getmem(st, key)
        st.mem[key] = z3.Store(m, blk, z3.Store(z3.Select(m, blk), off, v))

    def store(self, st, p, ty, v, guard, line, mod):
        if isinstance(p, (Poison, Opaque)):
            raise Unsupported("store through unknown pointer")
        key, size, ct = self.region(p, ty, mod)
        if key is None:
            return
        self.chk_access(st, p, size, guard, line, "store %s" % key)
        fk = key + ".b" if key.startswith("c.p.") else key
        self.oblige("store to %s stays in the frame" % key, "frame", line, guard, self.frame_ok(fk, p.blk))
        if ty == "ptr":
            if isinstance(v, (Poison, Opaque)):
                raise Unsupported("storing unknown pointer")
            if v.path:
                raise Unsupported("storing a field address")
            if key == "c.p.i64":
                self.setmem1(st, key + ".b", p.blk, p.off, v.blk)
                self.setmem1(st, key + ".o", p.blk, p.off, v.off)
            elif key in OFFS:
                self.setmem1(st, key, p.blk, p.off, v.blk)
                self.setmem1(st, key + "@o", p.blk, p.off, v.off)
            else:
                if not is_lit(v.off, 0):
                    self.oblige("stored pointer is a base pointer", "model", line, guard, v.off == 0)
                if key.startswith("c.p."):
                    self.setmem1(st, key + ".b", p.blk, p.off, v.blk)
                else:
                    self.setmem1(st, key, p.blk, p.off, v.blk)
            if key == "c.p.i64" or key in OWNING:
                isnull = v.blk == 0
                if key == "c.p.i64":
                    isnull = z3.Or(isnull, KINDF(v.blk) == K("f.pluto_constraints.buf"))
                self.oblige("owner of the stored block is in the frame", "frame", line, guard,
                            z3.Or(isnull, z3.And(self.frame_ok("g.own", v.blk), self.frame_ok("g.idx", v.blk))))
                own = self.getmem(st, "g.own")
                idx = self.getmem(st, "g.idx")
                st.mem["g.own"] = z3.Store(own, v.blk, self.nm(z3.If(isnull, z3.Select(own, v.blk), p.blk)))
                st.mem["g.idx"] = z3.Store(idx, v.blk, self.nm(z3.If(isnull, z3.Select(idx, v.blk), p.off)))
            return
        if isinstance(v, (Opaque, Poison)):
            v = fresh("opq")
        if isinstance(v, bool) or z3.is_bool(v):
            v = self.nm(z3.If(v, IV(1), IV(0)))
        self.setmem1(st, key, p.blk, p.off, v)

    # elem keys of an array/struct region with element ctype el
    def elem_keys(self, el):
        if el is None or el[0] in ("void", "other", "func"):
            return None
        if el[0] == "ptr":
            ks = ["c.p.%s.b" % ctstr(el[1])]
            if is_i64(el[1]):
                ks.append("c.p.i64.o")
            return ks
        if el[0] == "int":
            return ["c.i%d" % el[1]]
        if el[0] == "struct":
            ks = ["f.%s.%s" % (el[1], m[0]) for m in self.env.members.get(el[1], [])]
            return ks + [k + "@o" for k in ks if k in OFFS]
        if el[0] == "float":
            return []
        return None

    def alloc_kind(self, f, ins):
        """Kind of the block allocated by call ins: decided by where its result is stored."""
        if ins is None or not ins.res:
            return None
        defs = self.defs(f)
        seen, work, best = set(), [ins.res], None
        allst = [x for b in f.blocks.values() for x in b if x.op == "store"]
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            for x in allst:
                if x.a["val"].replace('"', "") != r:
                    continue
                p = x.a["ptr"].replace('"', "")
                d = defs.get(p)
                pct = self.static_ct(f, defs, p)
                if d is not None and d.op == "getelementptr" and d.a["ty"].startswith("%") and len(d.a["idx"]) >= 2:
                    ks = self.static_region(f, defs, p, "ptr")
                    if ks[0] in OWNING:
                        return ks[0]
                if pct and pct[0] == "ptr" and pct[1][0] == "ptr" and pct[1][1][0] != "void" and best is None:
                    best = ctstr(pct[1][1])
                if d is not None and d.op == "alloca":
                    for l in defs.values():
                        if l.op == "load" and l.a["ptr"].replace('"', "") == p:
                            work.append(l.res)
        if best is None:
            # returned directly
            for b in f.blocks.values():
                for x in b:
                    if x.op == "ret" and x.a["x"] and x.a["x"].replace('"', "") in seen:
                        ct = f.module.ret_ctype(f)
                        if ct and ct[0] == "ptr":
                            return ctstr(ct[1])
        return best

    def malloc(self, st, size, guard, kind=None):
        b = st.nb
        if kind:
            self.fact(KINDF(b) == K(kind))
        nb2 = fresh("nb")
        self.fact(nb2 == b + 1)
        st.nb = nb2
        self.fact(LEN(b) == size)
        self.fact(z3.Not(z3.Select(self.getmem(st, "freed"), b)))
        return PVal(b)

    def free(self, st, p, guard, line):
        fr = self.getmem(st, "freed")
        self.oblige("free of a live base pointer or NULL", "free", line, guard,
                    z3.Or(p.blk == 0, z3.And(z3.Not(z3.Select(fr, p.blk)), p.off == 0)))
        self.oblige("freed block is in the frame", "frame", line, guard,
                    z3.Or(p.blk == 0, p.blk >= self.nb0, self.modpred["freed"](p.blk) if "freed" in self.modpred else False))
        st.mem["freed"] = z3.Store(fr, p.blk, self.nm(z3.Or(z3.Select(fr, p.blk), p.blk != 0)))

    def realloc(self, st, p, size, guard, line, ct, kind=None):
        el = ct[1] if ct and ct[0] == "ptr" else None
        keys = self.elem_keys(el)
        if keys is None:
            raise Unsupported("realloc of unknown element type")
        fr = self.getmem(st, "freed")
        self.oblige("realloc of a live base pointer or NULL", "free", line, guard,
                    z3.Or(p.blk == 0, z3.And(z3.Not(z3.Select(fr, p.blk)), p.off == 0)))
        self.oblige("reallocated block is in the frame", "frame", line, guard,
                    z3.Or(p.blk == 0, p.blk >= self.nb0, self.modpred["freed"](p.blk) if "freed" in self.modpred else False))
        n = self.malloc(st, size, guard, kind)
        own0 = self.getmem(st, "g.own")
        y = z3.Int("oc!")
        if any(k.startswith("c.p.") for k in keys):
            self.oblige("owner of the children of the reallocated block is in the frame", "frame", line, guard,
                        forall([y], z3.Implies(z3.And(p.blk != 0, y < self.nb0, z3.Select(own0, y) == p.blk), self.frame_ok("g.own", y)), [z3.Select(own0, y)]))
        for k in keys:
            m = self.getmem(st, k)
            row = fresh("ra", keysort(k).range())
            self.fact(z3.Implies(p.blk != 0, row == z3.Select(m, p.blk)))
            st.mem[k] = z3.Store(m, n.blk, row)
        st.mem["freed"] = z3.Store(fr, p.blk, self.nm(z3.Or(z3.Select(fr, p.blk), p.blk != 0)))
        own = own0
        if not any(k.startswith("c.p.") for k in keys):
            return n.with_ct(ct)
        # ghost: the new block inherits the owner of the old one; its children follow it
        own2 = fresh("g.own", AI)
        x = z3.Int("ob")
        self.fact(forall([x], z3.Select(own2, x) == z3.If(z3.And(p.blk != 0, z3.Select(own, x) == p.blk), n.blk, z3.Select(own, x)),
                         [z3.Select(own2, x)]))
        st.mem["g.own"] = own2
        return n.with_ct(ct)

    def copy_region(self, st, d, s, nbytes, guard, line, what):
        """memcpy: element type from the pointers' C types."""
        el = None
        for p in (d, s):
            if p.path:
                raise Unsupported("memcpy through field address")
            if p.ct and p.ct[0] == "ptr" and p.ct[1][0] in ("ptr", "int", "struct", "array"):
                el = el or p.ct[1]
        if el is None:
            raise Unsupported("memcpy of unknown type")
        keys = self.elem_keys(el)
        sz = self.env.csize(el)
        if keys is None or not sz:
            raise Unsupported("memcpy of unknown type")
        n = fresh("cnt")
        self.fact(n * sz == nbytes, guard)
        fr = self.getmem(st, "freed")
        for nm, p in (("destination", d), ("source", s)):
            self.oblige("%s %s in bounds" % (what, nm), "bounds", line, guard,
                        z3.Or(nbytes == 0, z3.And(p.off >= 0, p.off * sz + nbytes <= LEN(p.blk), z3.Not(z3.Select(fr, p.blk)), p.blk != 0)))
        x = z3.Int("o!")
        for k in keys:
            self.oblige("%s to %s stays in the frame" % (what, k), "frame", line, guard, z3.Or(nbytes == 0, self.frame_ok(k, d.blk)))
            m = self.getmem(st, k)
            a = fresh("cp", AI)
            old = z3.Select(m, d.blk)
            src = z3.Select(m, s.blk)
            if is_lit(nbytes) and nbytes.as_long() == sz:
                st.mem[k] = z3.Store(m, d.blk, z3.Store(old, d.off, z3.Select(src, s.off)))
                continue
            self.fact(forall([x], z3.Select(a, x) == z3.If(z3.And(d.off <= x, x < d.off + n), z3.Select(src, x - d.off + s.off), z3.Select(old, x)),
                             [z3.Select(a, x)]))
            # same statement, indexed from the destination offset (for address terms)
            if not is_lit(d.off, 0) or not is_lit(s.off, 0):
                j = z3.Int("j!")
                self.fact(forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, ADR(d.off, j)) == z3.Select(src, ADR(s.off, j))),
                                 [z3.Select(a, ADR(d.off, j))]))
                self.need_adr = True
            st.mem[k] = z3.Store(m, d.blk, a)

    def zero_region(self, st, d, nbytes, guard, line):
        el = d.ct[1] if d.ct and d.ct[0] == "ptr" else None
        keys = self.elem_keys(el)
        sz = self.env.csize(el)
        if keys is None or not sz or el[0] == "struct" or d.path:
            raise Unsupported("memset of unknown type")
        n = fresh("cnt")
        fr = self.getmem(st, "freed")
        self.oblige("memset in bounds", "bounds", line, guard,
                    z3.Or(nbytes == 0, z3.And(d.off >= 0, d.off * sz + nbytes <= LEN(d.blk), z3.Not(z3.Select(fr, d.blk)), d.blk != 0)))
        x = z3.Int("o!")
        for k in keys:
            self.oblige("memset of %s stays in the frame" % k, "frame", line, guard, z3.Or(nbytes == 0, self.frame_ok(k, d.blk)))
            m = self.getmem(st, k)
            a = fresh("zr", AI)
            old = z3.Select(m, d.blk)
            self.fact(forall([x], z3.Select(a, x) == z3.If(z3.And(d.off <= x, (x - d.off) * sz < nbytes), IV(0), z3.Select(old, x)),
                             [z3.Select(a, x)]))
            st.mem[k] = z3.Store(m, d.blk, a)

    # ------------------------------------------------------------ values
    def adr(self, off, idx):
        if is_lit(off, 0):
            return idx
        if is_lit(idx, 0):
            return ADR(off, idx) if not is_lit(off) else off
        if is_lit(off) and is_lit(idx):
            return IV(off.as_long() + idx.as_long())
        return ADR(off, idx)

    def glob(self, name):
        if name not in self.globals:
            self.globals[name] = -(len(self.globals) + 2)
        return PVal(IV(self.globals[name]))

    def val(self, fr, ty, s):
        s = s.strip()
        if s.startswith("%"):
            n = s.replace('"', "")
            if n in fr.env:
                v = fr.env[n]
                return v
            if n in fr.allocas:
                return ("alloca", n)
            raise Unsupported("undefined value " + n)
        if s.startswith("@"):
            return self.glob(s.replace('"', ""))
        if s == "null":
            return NULL()
        if s in ("true", "false"):
            return z3.BoolVal(s == "true")
        if s in ("undef", "poison"):
            if ty == "ptr":
                return Poison("undef")
            return fresh("undef") if ty != "i1" else fresh("undef", z3.BoolSort())
        if re.match(r"^-?\d+$", s):
            v = int(s)
            if ty == "i1":
                return z3.BoolVal(v != 0)
            return IV(v)
        if ty in ("double", "float", "x86_fp80"):
            return Opaque()
        if s.startswith("getelementptr"):
            return self.glob(s)
        raise Unsupported("operand " + s)

    def asint(self, v):
        if z3.is_bool(v) if not isinstance(v, (PVal, Poison, Opaque, tuple)) else False:
            return z3.If(v, IV(1), IV(0))
        return v

    def wrap(self, t, bits):
        M = 1 << bits
        if is_lit(t):
            x = (t.as_long() + (M >> 1)) % M - (M >> 1)
            return IV(x)
        return self.nm(z3.If(t >= (M >> 1), t - M, z3.If(t < -(M >> 1), t + M, t)))

    def wrapmod(self, t, bits):
        M = 1 << bits
        if is_lit(t):
            return self.wrap(t, bits)
        q = fresh("tr")
        k = fresh("trk")
        self.fact(z3.And(q >= -(M >> 1), q < (M >> 1), t == q + k * M, z3.Implies(z3.And(t >= -(M >> 1), t < (M >> 1)), z3.And(q == t, k == 0))))
        return q

    def uns(self, t, bits):
        if is_lit(t):
            return IV(t.as_long() % (1 << bits))
        return self.nm(z3.If(t < 0, t + (1 << bits), t))

    def mul(self, a, b):
        if is_lit(a) or is_lit(b):
            return a * b
        if self.mulmode == "native":
            return a * b
        self.fact(MULT(a, b) == MULT(b, a))
        return MULT(a, b)

    def binop(self, ins, a, b):
        op, ty = ins.op, ins.a["ty"]
        if op[0] == "f":
            return Opaque()
        if ty == "i1":
            x, y = a, b
            if op == "xor":
                return z3.Xor(x, y)
            if op == "and":
                return z3.And(x, y)
            if op == "or":
                return z3.Or(x, y)
            raise Unsupported(op + " i1")
        bits = int(ty[1:])
        nsw = "nsw" in ins.a["flags"]
        if op in ("add", "sub"):
            r = a + b if op == "add" else a - b
            if is_lit(a) and is_lit(b):
                r = z3.simplify(r)
            if bits == 64 or nsw:
                return r
            return self.wrap(r, bits)
        if op == "mul":
            r = self.mul(a, b)
            if bits == 64 or nsw:
                return r
            return self.wrapmod(r, bits)
        if op in ("sdiv", "srem", "udiv", "urem"):
            if op[0] == "u" and bits != 64:
                a, b = self.uns(a, bits), self.uns(b, bits)
            q = fresh("quo")
            if bits == 64 and self.usediv:
                q = TDIV(a, b)
            r = fresh("rem")
            # C division truncates towards zero
            self.fact(z3.Implies(b != 0, z3.And(a == self.mul(b, q) + r,
                                                z3.If(a >= 0, z3.And(r >= 0, r < z3.If(b > 0, b, -b)), z3.And(r <= 0, -r < z3.If(b > 0, b, -b))))))
            if bits == 64 and self.usediv:
                self.fact(z3.Implies(b != 0, z3.And(r == a - self.mul(b, q), GCD(r, b) == GCD(a, b), GCD(b, r) == GCD(b, a))))
            return q if op.endswith("div") else r
        if op == "shl" and is_lit(b):
            r = a * (1 << b.as_long())
            return r if nsw else self.wrapmod(r, bits)
        if op == "ashr" and is_lit(b):
            q = fresh("shr")
            M = 1 << b.as_long()
            self.fact(z3.And(q * M <= a, a < q * M + M))
            return q
        if op == "lshr" and is_lit(b) and bits == 64:
            q = fresh("shr")
            M = 1 << b.as_long()
            ua = self.uns(a, bits)
            self.fact(z3.And(q * M <= ua, ua < q * M + M))
            return q
        if op in ("and", "or", "xor"):
            if op == "and" and is_lit(b, 1):
                q = fresh("bit")
                k = fresh("bk")
                self.fact(z3.And(q >= 0, q <= 1, a == 2 * k + q))
                return q
            if op == "xor" and is_lit(b, -1):
                return -a - 1
            r = fresh("bits")
            if op == "or":
                self.fact(z3.And((r == 0) == z3.And(a == 0, b == 0), z3.Implies(z3.And(a >= 0, a <= 1, b >= 0, b <= 1), r <= 1), z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= a, r >= b))))
            return r
        raise Unsupported("binop " + op)

    def icmp(self, ins, a, b):
        p, ty = ins.a["pred"], ins.a["ty"]
        if ty == "ptr":
            if isinstance(a, (Poison, Opaque)) or isinstance(b, (Poison, Opaque)):
                raise Unsupported("compare of unknown pointer")
            a, b = self.asptr(a), self.asptr(b)
            e = a.blk == b.blk
            if not (is_lit(a.blk, 0) or is_lit(b.blk, 0)):
                e = z3.And(e, a.off == b.off)
            if p == "eq":
                return e
            if p == "ne":
                return z3.Not(e)
            if p in ("ult", "ule", "ugt", "uge"):
                d = {"ult": a.off < b.off, "ule": a.off <= b.off, "ugt": a.off > b.off, "uge": a.off >= b.off}[p]
                return d
            raise Unsupported("pointer compare " + p)
        if ty == "i1":
            a, b = self.asint(a), self.asint(b)
        elif p[0] == "u" and ty != "i64":
            bits = int(ty[1:])
            a, b = self.uns(a, bits), self.uns(b, bits)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b,
                "sge": lambda: a >= b, "ult": lambda: a < b, "ule": lambda: a <= b, "ugt": lambda: a > b, "uge": lambda: a >= b}[p]()

    def cast(self, ins, v):
        op, fr, to = ins.op, ins.a["fr"], ins.a["to"]
        if op in ("sitofp", "uitofp", "fpext", "fptrunc"):
            return Opaque()
        if op in ("fptosi", "fptoui"):
            return fresh("fp")
        if op == "bitcast":
            return v
        if op in ("ptrtoint", "inttoptr"):
            raise Unsupported(op)
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported("cast of unknown")
        if fr == "i1":
            if op == "zext":
                return self.nm(z3.If(v, IV(1), IV(0)))
            return self.nm(z3.If(v, IV(-1), IV(0)))
        if op == "sext":
            return v
        if op == "zext":
            return self.uns(v, int(fr[1:]))
        if op == "trunc":
            if to == "i1":
                return v != 0
            return self.wrapmod(v, int(to[1:]))
        raise Unsupported(op)

    def asptr(self, v):
        if isinstance(v, tuple) and v[0] == "alloca":
            raise Unsupported("address of a local used as a value")
        return v

    # ------------------------------------------------------------ control flow
    def cfg(self, f):
        if hasattr(f, "cfg"):
            return f.cfg
        f.module.parse_body(f)
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1] if f.blocks[b] else None
            if t is None:
                succ[b] = []
            elif t.op == "br":
                succ[b] = list(dict.fromkeys(t.a["to"]))
            elif t.op == "switch":
                succ[b] = list(dict.fromkeys([t.a["default"]] + [x for _, x in t.a["cases"]]))
            elif t.op == "invoke":
                succ[b] = [t.a["to"]]
            else:
                succ[b] = []
        # reachable, back edges by DFS
        entry = f.order[0]
        color, back = {}, set()
        stack = [(entry, iter(succ[entry]))]
        color[entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    back.add((b, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
        pred = {b: [] for b in color}
        for b in color:
            for s in succ[b]:
                pred[s].append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred[x])
        # topological order, by layout
        pos = {b: i for i, b in enumerate(f.order)}
        indeg = {b: sum(1 for p in pred[b] if (p, b) not in back) for b in color}
        ready = [b for b in color if indeg[b] == 0]
        order = []
        import heapq
        h = [(pos[b], b) for b in ready]
        heapq.heapify(h)
        while h:
            _, b = heapq.heappop(h)
            order.append(b)
            for s in succ[b]:
                if (b, s) in back:
                    continue
                indeg[s] -= 1
                if indeg[s] == 0:
                    heapq.heappush(h, (pos[s], s))
        # a loop's exit blocks must come after the whole loop body for stable numbering: not needed
        f.cfg = (succ, pred, back, loops, order)
        return f.cfg

    def static_region(self, f, defs, ptr, ty):
        """Static memory keys written by a store of type ty through ptr (or None = local alloca)."""
        d = defs.get(ptr.replace('"', ""))
        if d is None:
            # parameter or global
            ct = None
            return self._cellkeys(ty, self.static_ct(f, defs, ptr))
        if d.op == "alloca":
            if d.res in self.escaping(f):
                return self._cellkeys(ty, self.static_ct(f, defs, ptr))
            return [("var", d.res)]
        if d.op == "getelementptr":
            base = d.a["ty"]
            if base.startswith("%") and len(d.a["idx"]) >= 2:
                s = base[1:].split(".", 1)[1] if base.startswith("%struct.") or base.startswith("%class.") else base[1:]
                k = int(d.a["idx"][1][1])
                fld = self.env.members[s][k][0]
                key = "f.%s.%s" % (s, fld)
                return [key] + ([key + "@o"] if key in OFFS else []) + (["g.own", "g.idx"] if key in OWNING else [])
            return self._cellkeys(ty, self.static_ct(f, defs, ptr))
        return self._cellkeys(ty, self.static_ct(f, defs, ptr))

    def _cellkeys(self, ty, ct):
        if ty == "ptr":
            if ct is None or ct[0] != "ptr" or ct[1][0] != "ptr":
                raise Unsupported("store of pointer through unknown type")
            t = ctstr(ct[1][1])
            ks = ["c.p.%s.b" % t]
            if t == "i64":
                ks += ["c.p.i64.o", "g.own", "g.idx"]
            return ks
        if ty in ("double", "float"):
            return []
        if ty.startswith("%") or ty.startswith("[") or ty.startswith("{"):
            raise Unsupported("aggregate store")
        return ["c." + ty]

    def static_ct(self, f, defs, v):
        """Static C type of an SSA pointer value (best effort)."""
        n = v.replace('"', "")
        d = defs.get(n)
        if d is None:
            for (t, pn) in f.params:
                if pn == n:
                    a = n + ".addr"
                    return self.var_ct(f, a)
            return None
        if d.op == "alloca":
            ct = self.var_ct(f, d.res)
            return ("ptr", ct) if ct else None
        if d.op == "load":
            ct = self.static_ct(f, defs, d.a["ptr"])
            if ct and ct[0] == "ptr":
                return ct[1]
            return None
        if d.op == "getelementptr":
            base = d.a["ty"]
            if base.startswith("%") and len(d.a["idx"]) >= 2:
                s = base[1:].split(".", 1)[1] if "." in base else base[1:]
                k = int(d.a["idx"][1][1])
                try:
                    return ("ptr", self.env.members[s][k][1])
                except Exception:
                    return None
            return self.static_ct(f, defs, d.a["ptr"])
        if d.op in ("call", "invoke"):
            g = self.env.find((d.a["callee"] or "@?")[1:])
            if g:
                return g.module.ret_ctype(g)
        if d.op == "phi":
            for x, _ in d.a["inc"]:
                if x.startswith("%"):
                    ct = self.static_ct(f, defs, x)
                    if ct:
                        return ct
        if d.op == "select":
            return self.static_ct(f, defs, d.a["x"]) or self.static_ct(f, defs, d.a["y"])
        return None

    def var_ct(self, f, alloca):
        f.module.parse_body(f)
        n = f.alloca_di.get(alloca)
        if n is None:
            if alloca == "%retval":
                return f.module.ret_ctype(f)
            if alloca.startswith("%ref.tmp") or True:
                return None
        t = f.module.mdfield(n, "type")
        return f.module.ctype(t)

    def var_name(self, f, alloca):
        n = f.alloca_di.get(alloca)
        return f.module.mdfield(n, "name") if n is not None else None

    def defs(self, f):
        if not hasattr(f, "defs"):
            f.module.parse_body(f)
            f.defs = {i.res: i for b in f.blocks.values() for i in b if i.res}
        return f.defs

    def escaping(self, f):
        """Allocas whose address is used other than by a direct load/store."""
        if hasattr(f, "esc"):
            return f.esc
        defs = self.defs(f)
        al = {i.res: i for i in defs.values() if i.op == "alloca"}
        esc = set()
        for a, i in al.items():
            if i.a["cnt"] is not None or not re.match(r"^(i\d+|ptr|double|float)$", i.a["ty"]):
                esc.add(a)

        def use(x):
            x = x.replace('"', "")
            if x in al:
                esc.add(x)
        for b in f.blocks.values():
            for i in b:
                if i.op == "load":
                    continue
                if i.op == "store":
                    use(i.a["val"])
                    continue
                if i.op == "alloca":
                    continue
                for m in re.finditer(r'%"[^"]+"|%[\w.$-]+', i.text.split(", !dbg")[0].split(" = ", 1)[-1]):
                    use(m.group(0))
        f.esc = esc
        return esc

    def modset(self, f, blocks, seen=()):
        """(vars, keys) possibly written by the given blocks of f."""
        defs = self.defs(f)
        vs, ks = set(), set()
        for b in blocks:
            for i in f.blocks[b]:
                if i.op == "store":
                    for k in self.static_region(f, defs, i.a["ptr"], i.a["ty"]):
                        if isinstance(k, tuple):
                            vs.add(k[1])
                        else:
                            ks.add(k)
                elif i.op == "alloca":
                    ks.add("nb")
                elif i.op in ("call", "invoke"):
                    ks |= self.call_mods(f, i, seen)
        return vs, ks

    def spec_of(self, name):
        """Contract of a callee (a library function may have one per element type)."""
        return self.specs.get(getattr(self.specs.get(self.fname), "calls", {}).get(name, name))

    def call_mods(self, f, i, seen):
        name = (i.a["callee"] or "%?")
        if name.startswith("%"):
            raise Unsupported("indirect call")
        name = name[1:]
        c = self.spec_of(name)
        if c and not c.inline:
            ks = set(c.static_mods(self)) if hasattr(c, "static_mods") else set()
            ks |= set(self.contract_keys(c))
            if c.allocs:
                ks.add("nb")
            return ks
        if name in ("malloc", "calloc", "strdup"):
            return {"nb"}
        if name == "free":
            return {"freed"}
        defs = self.defs(f)
        if name == "realloc":
            ct = self.static_ct(f, defs, i.a["args"][0][1])
            if ct is None:
                ct = None
                # the destination decides (realloc(NULL-typed)): handled by users of the result
                for st in (x for b in f.blocks.values() for x in b if x.op == "store" and x.a["val"] == i.res):
                    p = self.static_ct(f, defs, st.a["ptr"])
                    if p and p[0] == "ptr":
                        ct = p[1]
            ks = self.elem_keys(ct[1]) if ct and ct[0] == "ptr" else None
            if ks is None:
                raise Unsupported("realloc of unknown type")
            return set(ks) | {"nb", "freed"} | ({"g.own"} if any(k.startswith("c.p.") for k in ks) else set())
        if name.startswith("llvm.memcpy") or name in ("memcpy", "memmove") or name.startswith("llvm.memset") or name in ("memset", "bzero") or name.startswith("llvm.memmove"):
            ks = None
            for a in i.a["args"][:2]:
                if a[0] == "ptr":
                    ct = self.static_ct(f, defs, a[1])
                    if ct and ct[0] == "ptr":
                        k = self.elem_keys(ct[1])
                        if k:
                            ks = k
            if ks is None:
                raise Unsupported("mem* of unknown type")
            return set(ks)
        g = self.env.find(name)
        if g is not None and name not in seen and not name.startswith("llvm."):
            if len(seen) > self.MAXINLINE:
                raise Unsupported("inline depth")
            self.cfg(g)
            _, ks = self.modset(g, [b for b in g.order if b in self.cfg(g)[1]], tuple(seen) + (name,))
            if self.escaping(g):
                ks = ks | {"nb"}
            return ks
        return set()

    def contract_keys(self, c):
        """Keys a contract may modify (evaluated with dummy arguments)."""
        if not hasattr(c, "_keys"):
            g = self.env.find(c.name)
            args = self.dummy_args(c, g)
            st = State()
            st.nb = z3.Int("nbdummy")
            ctx = SpecCtx(self, args, View(self, st))
            try:
                c._keys = set(c.modifies(ctx).keys())
            except NoFit:
                raise
            if c.frees:
                c._keys.add("freed")
        return c._keys

    def dummy_args(self, c, g):
        args = {}
        if g is None:
            for n, ct in (c.decl or []):
                args[n] = PVal(z3.Int("d_" + n), IV(0), None, ct) if ct and ct[0] == "ptr" else z3.Int("d_" + n)
            return args
        for (t, n) in g.params:
            nm = n[1:]
            if t == "ptr":
                args[nm] = PVal(z3.Int("d_" + nm), IV(0), None, self.var_ct(g, n + ".addr"))
            elif t == "i1":
                args[nm] = z3.Bool("d_" + nm)
            else:
                args[nm] = z3.Int("d_" + nm)
        return args

    # ------------------------------------------------------------ merging
    def merge_val(self, conds, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if any(isinstance(v, (Poison,)) or v is None for v in vals):
            return Poison("partially defined")
        if any(isinstance(v, Opaque) for v in vals):
            return Opaque()
        if any(isinstance(v, PVal) for v in vals):
            if not all(isinstance(v, PVal) for v in vals):
                return Poison("mixed")
            paths = {v.path for v in vals if not is_lit(v.blk, 0)}
            if len(paths) > 1:
                return Poison("different field addresses")
            ct = next((v.ct for v in vals if v.ct), None)
            return PVal(self.merge_val(conds, [v.blk for v in vals]), self.merge_val(conds, [v.off for v in vals]),
                        next(iter(paths)) if paths else None, ct)
        if all(v.eq(v0) for v in vals):
            return v0
        sorts = {v.sort() for v in vals}
        if len(sorts) > 1:
            vals = [self.asint(v) for v in vals]
        if vals[0].sort() != z3.BoolSort():
            r = fresh("m", vals[0].sort())
            for c, v in zip(conds, vals):
                self.fact(z3.Implies(c, r == v))
            return r
        r = vals[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            r = z3.If(c, v, r)
        return r

    def merge(self, ins):
        """ins: list of (guard, state) -> (guard, state)."""
        if len(ins) == 1:
            return ins[0]
        g = fresh("b", z3.BoolSort())
        self.gfact(g == z3.Or(*[x[0] for x in ins]))
        conds = [x[0] for x in ins]
        st = State()
        st.nb = self.merge_val(conds, [x[1].nb for x in ins])
        keys = set().union(*[x[1].mem.keys() for x in ins])
        for k in keys:
            for x in ins:
                self.getmem(x[1], k)
            st.mem[k] = self.merge_val(conds, [x[1].mem[k] for x in ins])
        for v in set().union(*[x[1].vars.keys() for x in ins]):
            st.vars[v] = self.merge_val(conds, [x[1].vars.get(v) for x in ins])
        return g, st

    # ------------------------------------------------------------ execution
    def run_func(self, f, args, st, guard, depth=0):
        """Executes f's body symbolically; returns (guard, state, retval)."""
        succ, pred, back, loops, order = self.cfg(f)

        class Fr:
            pass
        fr = Fr()
        fr.f, fr.env, fr.allocas = f, {}, set()
        self.inv_id += 1
        fr.id = self.inv_id
        fr.depth = depth
        fr.retct = f.module.ret_ctype(f)
        for (t, n), a in zip(f.params, args):
            fr.env[n] = a
        incoming = {b: [] for b in order}
        incoming[f.order[0]].append((guard, st, None))
        rets = []
        fr.loopinfo = {}
        fr.incoming = incoming
        for b in order:
            ins = incoming[b]
            if not ins:
                continue
            g, s = self.merge([(x[0], x[1]) for x in ins])
            if len(ins) == 1:
                s = s.copy()
            else:
                self.last_merge = [x[0] for x in ins]
            fr.preds_g = [(x[0], x[2]) for x in ins]
            if b in loops:
                g, s = self.loop_head(fr, b, loops[b], g, s)
            self.run_block(fr, b, g, s, succ, back, loops, incoming, rets)
        if not rets:
            return None, None, None
        g, s = self.merge([(x[0], x[1]) for x in rets])
        if len(rets) == 1:
            s = s.copy()
        rv = self.merge_val([x[0] for x in rets], [x[2] for x in rets]) if rets[0][2] is not None else None
        # drop this frame's locals
        for k in [k for k in s.vars if k[0] == fr.id]:
            if depth > 0:
                del s.vars[k]
        fr.exit_guards = [x[0] for x in rets]
        if depth == 0:
            self.exit_split = []
            for b in order:
                if f.blocks[b][-1].op == "ret" and incoming[b]:
                    self.exit_split += [x[0] for x in incoming[b]]
        self.last_frame = fr
        return g, s, rv

    def edge(self, fr, b, t, g, s, back, loops, incoming):
        if (b, t) in back:
            self.loop_back(fr, t, g, s, self.curline)
        else:
            incoming[t].append((g, s, b))

    def run_block(self, fr, b, g, s, succ, back, loops, incoming, rets):
        f = fr.f
        mod = f.module
        # enclosing loops of this block (within this frame), innermost last
        for ins in f.blocks[b]:
            line = mod.line(ins.line)
            self.curline = line or getattr(self, "curline", 0)
            line = self.curline
            op = ins.op
            if op == "alloca":
                fr.allocas.add(ins.res)
                if ins.res in self.escaping(f):
                    ct = self.var_ct(f, ins.res)
                    sz = self.env.sizeof(ins.a["ty"], mod)
                    if ins.a["cnt"] is not None:
                        cnt = self.val(fr, *ins.a["cnt"])
                        size = cnt * sz
                        ct = ct[1] if ct and ct[0] == "array" else ct
                    else:
                        size = IV(sz)
                        if ct and ct[0] == "array":
                            ct = ct[1]
                    p = self.malloc(s, size, g, "local" if ct and (ins.a["cnt"] is None and ct[0] in ("ptr", "int") or ct[0] == "int" and ct[1] == 32) else None)
                    fr.env[ins.res] = p.with_ct(("ptr", ct) if ct else None)
                else:
                    s.vars[(fr.id, ins.res)] = Poison("uninitialised " + ins.res)
            elif op == "load":
                p = self.val(fr, "ptr", ins.a["ptr"])
                if ins.a["ptr"] in ("@stderr", "@stdout"):
                    fr.env[ins.res.replace('"', "")] = Opaque()
                    continue
                if isinstance(p, tuple):
                    v = s.vars.get((fr.id, p[1]))
                    if isinstance(v, PVal):
                        ct = self.var_ct(f, p[1])
                        if ct and ct[0] == "ptr" and ct[1][0] != "void":
                            v = v.with_ct(ct)
                    if isinstance(v, Poison):
                        if ins.a["ty"] == "ptr":
                            v = PVal(fresh("uninit"), fresh("uninit"), None, self.var_ct(f, p[1]))
                        elif ins.a["ty"] in ("double", "float"):
                            v = Opaque()
                        else:
                            v = fresh("uninit")
                    fr.env[ins.res] = v
                else:
                    fr.env[ins.res] = self.load(s, p, ins.a["ty"], g, line, mod)
            elif op == "store":
                p = self.val(fr, "ptr", ins.a["ptr"])
                v = self.val(fr, ins.a["ty"], ins.a["val"])
                if isinstance(v, tuple):
                    raise Unsupported("address of local stored")
                if isinstance(p, tuple):
                    s.vars[(fr.id, p[1])] = v
                else:
                    self.store(s, p, ins.a["ty"], v, g, line, mod)
            elif op == "getelementptr":
                fr.env[ins.res] = self.gep(fr, ins, mod)
            elif op in ("icmp",):
                a, c = self.val(fr, ins.a["ty"], ins.a["x"]), self.val(fr, ins.a["ty"], ins.a["y"])
                fr.env[ins.res] = self.icmp(ins, a, c)
            elif op == "fcmp":
                fr.env[ins.res] = fresh("fcmp", z3.BoolSort())
            elif op == "fneg":
                fr.env[ins.res] = Opaque()
            elif op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
                fr.env[ins.res] = self.cast(ins, self.val(fr, ins.a["fr"], ins.a["x"]))
            elif op == "phi":
                cs, vs = [], []
                for x, pb in ins.a["inc"]:
                    gs = [pg for pg, pp in fr.preds_g if pp == pb]
                    if not gs:
                        continue
                    cs.append(z3.Or(*gs) if len(gs) > 1 else gs[0])
                    vs.append(self.val(fr, ins.a["ty"], x))
                fr.env[ins.res] = self.merge_val(cs, vs)
            elif op == "select":
                c = self.val(fr, "i1", ins.a["c"])
                fr.env[ins.res] = self.merge_val([c, z3.Not(c)], [self.val(fr, ins.a["ty"], ins.a["x"]), self.val(fr, ins.a["ty"], ins.a["y"])])
            elif op in ("call", "invoke"):
                g, s, rv, dead = self.call(fr, ins, g, s, line)
                if ins.res:
                    fr.env[ins.res] = rv
                if dead:
                    return
                if op == "invoke":
                    self.edge(fr, b, ins.a["to"], g, s, back, loops, incoming)
                    return
            elif op == "br":
                if ins.a["cond"] is None:
                    self.edge(fr, b, ins.a["to"][0], g, s, back, loops, incoming)
                else:
                    c = self.val(fr, "i1", ins.a["cond"])
                    t, e = ins.a["to"]
                    if z3.is_true(c):
                        self.edge(fr, b, t, g, s, back, loops, incoming)
                    elif z3.is_false(c):
                        self.edge(fr, b, e, g, s, back, loops, incoming)
                    else:
                        gt, ge = fresh("b", z3.BoolSort()), fresh("b", z3.BoolSort())
                        self.gfact(gt == z3.And(g, c))
                        self.gfact(ge == z3.And(g, z3.Not(c)))
                        self.edge(fr, b, t, gt, s.copy(), back, loops, incoming)
                        self.edge(fr, b, e, ge, s.copy(), back, loops, incoming)
                return
            elif op == "switch":
                v = self.val(fr, ins.a["ty"], ins.a["x"])
                others = []
                for k, t in ins.a["cases"]:
                    gt = fresh("b", z3.BoolSort())
                    self.gfact(gt == z3.And(g, v == k))
                    others.append(v != k)
                    self.edge(fr, b, t, gt, s.copy(), back, loops, incoming)
                gt = fresh("b", z3.BoolSort())
                self.gfact(gt == z3.And(g, *others))
                self.edge(fr, b, ins.a["default"], gt, s.copy(), back, loops, incoming)
                return
            elif op == "ret":
                rv = None
                if ins.a["x"] is not None:
                    rv = self.val(fr, ins.a["ty"], ins.a["x"])
                    if isinstance(rv, PVal):
                        rv = rv.with_ct(fr.retct if fr.retct and fr.retct[0] == "ptr" else rv.ct)
                rets.append((g, s, rv))
                return
            elif op == "unreachable":
                return
            elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul",
                        "fdiv", "frem"):
                a, c = self.val(fr, ins.a["ty"], ins.a["x"]), self.val(fr, ins.a["ty"], ins.a["y"])
                if op in ("sdiv", "srem", "udiv", "urem"):
                    self.oblige("division by zero", "div", line, g, c != 0)
                fr.env[ins.res] = self.binop(ins, a, c)
            else:
                raise Unsupported("instruction " + op)

    def gep(self, fr, ins, mod):
        p = self.val(fr, "ptr", ins.a["ptr"])
        if isinstance(p, (Poison, Opaque)):
            return p
        if isinstance(p, tuple):
            raise Unsupported("gep of local")
        ty = ins.a["ty"]
        idx = [self.val(fr, t, v) for t, v in ins.a["idx"]]
        if p.path:
            raise Unsupported("gep through field address")
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m:
            if len(idx) == 2 and is_lit(idx[0], 0):
                return PVal(p.blk, self.adr(p.off, idx[1]), None, p.ct)
            raise Unsupported("array gep")
        if ty.startswith("%"):
            off = self.adr(p.off, idx[0]) if not is_lit(idx[0], 0) else p.off
            if len(idx) == 1:
                return PVal(p.blk, off, None, p.ct)
            if len(idx) > 2 or not is_lit(idx[1]):
                raise Unsupported("nested gep")
            s = ty[1:].split(".", 1)[1] if "." in ty else ty[1:]
            s = re.sub(r"\.\d+$", "", s)
            mem = self.env.members.get(s)
            if not mem:
                raise Unsupported("unknown struct " + s)
            fld = mem[idx[1].as_long()]
            return PVal(p.blk, off, (s, fld[0]), ("ptr", fld[1]))
        if ty == "i8" and p.ct and p.ct[0] == "ptr" and p.ct[1][0] != "int":
            raise Unsupported("byte arithmetic")
        return PVal(p.blk, self.adr(p.off, idx[0]), None, p.ct)

    # ------------------------------------------------------------ loops
    def left_by_break(self, f, h2, h):
        """Block h lies in the source body of the loop headed by h2 although control never returns to h2 from it
        (the body ends in break or return): every path to h passes the edge from h2 into the body."""
        succ, body = self.cfg(f)[0], self.cfg(f)[3][h2]
        ins = [x for x in succ[h2] if x in body and x != h2]
        if len(succ[h2]) != 2 or len(ins) != 1:
            return False
        seen, work = set(), [f.order[0]]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += [y for y in succ[x] if not (x == h2 and y == ins[0])]
        return h not in seen

    def loop_head(self, fr, h, body, g, s):
        f = fr.f
        k = self.loopno
        self.loopno += 1
        vs, ks = self.modset(f, [b for b in f.order if b in body])
        spec = (self.loops_override or {}).get(k)
        info = LoopCtx()
        info.no, info.vs, info.fr, info.head = k, vs, fr, h
        info.entry = s.copy()
        info.line = self.curline
        info.parent = None
        for h2, i2 in list(fr.loopinfo.items()):
            if h2 != h and (h in self.cfg(f)[3][h2] or self.left_by_break(f, h2, h)):
                if info.parent is None or i2.no > info.parent.no:
                    info.parent = i2
        if info.parent is None:
            info.parent = getattr(self, "call_parent", None)
        info.ivar = self.find_ivar(f, h, body, vs)
        info.vs = vs
        info.body = body
        info.spec = spec
        info.auto = self.auto_bounds(f, h, body, vs, fr, s)
        fr.loopinfo[h] = info
        self.skeleton.append([info.parent.no if info.parent else -1, self.step_of(f, body, info.ivar) if info.ivar else None,
                              self.head_pred(f, h)])
        # initial
        for lbl, fm in self.inv(info, s):
            if lbl == "@def":
                self.fact(fm)
                continue
            self.oblige("loop %d invariant '%s' holds on entry" % (k, lbl), "inv-init", self.curline, g, fm)
        # havoc
        cut = len(self.facts)
        n = s.copy()
        pref = "L%d" % k
        for v in sorted(vs):
            old = n.vars.get((fr.id, v))
            t = self.defs(f)[v].a["ty"]
            if t == "ptr":
                ct = self.var_ct(f, v)
                n.vars[(fr.id, v)] = PVal(fresh(pref + v), fresh(pref + v + ".o"), None, ct)
            elif t in ("double", "float"):
                n.vars[(fr.id, v)] = Opaque()
            else:
                c = fresh(pref + v)
                if t == "i32":
                    self.fact(self.rng32(c))
                n.vars[(fr.id, v)] = c
        for key in sorted(ks):
            if key == "nb":
                n.nb = fresh("nb")
                self.fact(n.nb >= s.nb)
                continue
            old = self.getmem(n, key)
            new = fresh(key, keysort(key))
            n.mem[key] = new
            x = z3.Int("fb!")
            # function-level frame: every write inside was checked against it
            pred = self.modpred.get(key)
            base = self.getmem(self.st0, key)
            cond = x < self.nb0
            if pred is not None:
                cond = z3.And(cond, z3.Not(pred(x)))
            self.fact(forall([x], z3.Implies(cond, z3.Select(new, x) == z3.Select(base, x)), [z3.Select(new, x)]))
            if key == "freed":
                self.fact(forall([x], z3.Implies(z3.Select(old, x), z3.Select(new, x)), [z3.Select(new, x)]))
        g2 = fresh("b", z3.BoolSort())
        self.gfact(g2 == g)
        for lbl, fm in self.inv(info, n):
            self.fact(fm, None if lbl == "@def" else g2)
        # what stays known when the facts before this loop are left out (see solve.discharge)
        keep = [n.nb >= self.nb0]
        for key in sorted(n.mem):
            base = self.getmem(self.st0, key)
            if key in ks or n.mem[key] is base or n.mem[key].eq(base) or key.startswith("g."):
                continue
            x = z3.Int("fb!")
            pred = self.modpred.get(key)
            cond = x < self.nb0 if pred is None else z3.And(x < self.nb0, z3.Not(pred(x)))
            keep.append(forall([x], z3.Implies(cond, z3.Select(n.mem[key], x) == z3.Select(base, x)), [z3.Select(n.mem[key], x)]))
        self.cuts.append((cut, keep))
        if info.parent is None:
            self.topcut = self.cuts[-1]
        info.head_state = n.copy()
        self.cover.append((g2, len(self.facts), "loop %d body" % k))
        return g2, n

    def head_pred(self, f, h):
        t = f.blocks[h][-1]
        if t.op != "br" or not t.a["cond"]:
            return t.op
        d = self.defs(f).get(t.a["cond"].replace('"', ""))
        # "<" and "<=" are one kind: the proofs go through for "i <= n - 1" written for "i < n"
        return {"le": "lt", "ge": "gt"}.get(d.a["pred"].lstrip("us"), d.a["pred"].lstrip("us")) if d is not None and d.op == "icmp" else (d.op if d is not None else "?")

    def loop_back(self, fr, h, g, s, line):
        info = fr.loopinfo[h]
        for lbl, fm in self.inv(info, s):
            if lbl == "@def":
                self.fact(fm)
                continue
            self.oblige("loop %d invariant '%s' is preserved" % (info.no, lbl), "inv-pres", line, g, fm)

    def find_ivar(self, f, h, body, vs):
        defs = self.defs(f)
        # int variables read in the header (transitively to its branch) and written in the body
        used = []
        term = f.blocks[h][-1]
        seen = set()

        def walk(x):
            x = x.replace('"', "")
            if x in seen:
                return
            seen.add(x)
            d = defs.get(x)
            if d is None:
                return
            if d.op == "load":
                p = d.a["ptr"].replace('"', "")
                dd = defs.get(p)
                if dd is not None and dd.op == "alloca" and p in vs and dd.a["ty"] in ("i32", "i64"):
                    used.append(p)
                    return
                walk(p)
                return
            for m in re.finditer(r'%"[^"]+"|%[\w.$-]+', d.text.split(", !dbg")[0].split(" = ", 1)[-1]):
                walk(m.group(0))
        if term.op == "br" and term.a["cond"]:
            walk(term.a["cond"])
        if not used:
            # condition spread over several blocks (a ?: in it): look at the other exits
            for b in f.blocks:
                t = f.blocks[b][-1]
                if b in body and t.op == "br" and t.a["cond"] and any(x not in body for x in t.a["to"]):
                    walk(t.a["cond"])
            used = [v for v in used if self.step_of(f, body, v)][:1]
        if not used:
            # do-while or loop controlled elsewhere: any int var incremented in the latch
            for v in vs:
                d = defs.get(v)
                if d is not None and d.a["ty"] in ("i32", "i64"):
                    used.append(v)
            used = used if len(used) == 1 else []
        used = list(dict.fromkeys(used))
        return used[0] if used else None

    def step_of(self, f, body, v):
        """+1/-1 if every store to v in the loop adds that constant, else None."""
        defs = self.defs(f)
        st = set()
        for b in body:
            for i in f.blocks[b]:
                if i.op == "store" and i.a["ptr"].replace('"', "") == v:
                    d = defs.get(i.a["val"].replace('"', ""))
                    if d is None or d.op not in ("add", "sub"):
                        return None
                    l = defs.get(d.a["x"].replace('"', ""))
                    if l is None or l.op != "load" or l.a["ptr"].replace('"', "") != v or not re.match(r"^-?\d+$", d.a["y"]):
                        return None
                    y = int(d.a["y"])
                    st.add(y if d.op == "add" else -y)
        return st.pop() if len(st) == 1 else None

    def auto_bounds(self, f, h, body, vs, fr, s):
        """Automatic invariants: a variable only stepped by a constant never crosses its entry value."""
        out = []
        for v in sorted(vs):
            d = self.defs(f)[v]
            if d.a["ty"] not in ("i32", "i64"):
                continue
            stp = self.step_of(f, body, v)
            v0 = s.vars.get((fr.id, v))
            if stp and isinstance(v0, z3.ExprRef):
                out.append((v, stp, v0))
        return out

    def inv(self, info, st):
        out = []
        fr = info.fr
        for v, stp, v0 in info.auto:
            c = st.vars.get((fr.id, v))
            if isinstance(c, z3.ExprRef):
                out.append(("%s stays %s its initial value" % (self.var_name(fr.f, v) or v, ">=" if stp > 0 else "<="), (c >= v0) if stp > 0 else (c <= v0)))
        if info.spec is not None:
            L = LoopView(self, info, st)
            r = info.spec(L)
            for x in r:
                if isinstance(x, tuple):
                    out.append(x)
                else:
                    out.append(("inv", x))
        return out

    # ------------------------------------------------------------ calls
    def call(self, fr, ins, g, s, line):
        name = ins.a["callee"]
        if name is None or name.startswith("%"):
            raise Unsupported("indirect call")
        name = name[1:]
        args = []
        for t, x in ins.a["args"]:
            if t == "?":
                args.append(Opaque())
                continue
            v = self.val(fr, t, x)
            args.append(v)
        if name == "__assert_fail":
            self.oblige("assertion in the code cannot fail", "assert", line, g, z3.Not(g))
            return g, s, None, True
        if name in ("exit", "abort"):
            return g, s, None, True
        if name in ("abs", "llabs", "labs") or name.startswith("llvm.abs."):
            a = args[0]
            return g, s, self.nm(z3.If(a >= 0, a, -a)), False
        if name == "malloc":
            p = self.malloc(s, args[0], g, self.alloc_kind(fr.f, ins))
            return g, s, p, False
        if name == "calloc":
            raise Unsupported("calloc")
        if name == "free":
            if isinstance(args[0], (Poison, Opaque)):
                raise Unsupported("free of unknown")
            pre = s.copy()
            self.free(s, args[0], g, line)
            if fr.f.name == self.fname:
                self.hints("free", g, pre, s, None, [args[0]], fr, line, len(self.facts))
            return g, s, None, False
        if name == "realloc":
            ct = args[0].ct
            if ct is None or ct[0] != "ptr" or ct[1][0] in ("void", "other"):
                for x in (x for b in fr.f.blocks.values() for x in b if x.op == "store" and x.a["val"] == ins.res):
                    pc = self.static_ct(fr.f, self.defs(fr.f), x.a["ptr"])
                    if pc and pc[0] == "ptr":
                        ct = pc[1]
            return g, s, self.realloc(s, args[0], args[1], g, line, ct, self.alloc_kind(fr.f, ins)), False
        if name.startswith("llvm.memcpy") or name in ("memcpy", "memmove") or name.startswith("llvm.memmove"):
            self.copy_region(s, args[0], args[1], args[2], g, line, "memcpy")
            return g, s, args[0], False
        if name in ("bzero",):
            self.zero_region(s, args[0], args[1], g, line)
            return g, s, None, False
        if name in ("memset",) or name.startswith("llvm.memset"):
            if not is_lit(args[1], 0):
                raise Unsupported("memset non-zero")
            self.zero_region(s, args[0], args[2], g, line)
            return g, s, args[0], False
        if name == "strdup":
            n = fresh("slen")
            self.fact(n >= 1)
            p = self.malloc(s, n, g)
            return g, s, p.with_ct(("ptr", ("int", 8, False))), False
        if name == "strcmp":
            return g, s, fresh("strcmp"), False
        if name == "llvm.stacksave.p0" or name == "llvm.stacksave":
            return g, s, Poison("stack"), False
        if name in PURE_EXT or name.startswith("llvm.stackrestore"):
            return g, s, fresh("ext"), False
        c = self.spec_of(name)
        if c is None:
            m = re.match(r"_ZL?(\d+)", name)
            if m:
                c = self.specs.get(name[m.end():m.end() + int(m.group(1))])
        if c is not None and not c.inline:
            return self.call_contract(fr, c, ins, args, g, s, line)
        callee = self.env.find(name)
        if callee is None:
            raise Unsupported("no contract or body for " + name)
        if fr.depth >= self.MAXINLINE:
            raise Unsupported("inline depth")
        self.inlined.add(name)
        sv = getattr(self, "call_parent", None)
        # innermost loop enclosing the call site
        cur = sv
        for h2, i2 in fr.loopinfo.items():
            if any(ins is x for b in self.cfg(fr.f)[3][h2] for x in fr.f.blocks[b]):
                if cur is None or i2.no > cur.no or cur is sv:
                    if cur is sv or i2.no > cur.no:
                        cur = i2
        self.call_parent = cur
        for a in args:
            if isinstance(a, tuple):
                raise Unsupported("address of local passed")
        g2, s2, rv = self.run_func(callee, args, s, g, fr.depth + 1)
        self.call_parent = sv
        if g2 is None:
            return g, s, None, True
        return g2, s2, rv, False

    def bind(self, c, args):
        g = self.env.find(c.name)
        if g is None:
            names = [n for n, _ in (c.decl or [])]
        else:
            names = [n[1:] for t, n in g.params]
        d = {}
        for n, a in zip(names, args):
            d[n] = a
        for i, a in enumerate(args):
            d[i] = a
        return d

    def call_contract(self, fr, c, ins, args, g, s, line):
        self.used_contracts.add(c.name)
        for a in args:
            if isinstance(a, tuple):
                raise Unsupported("address of local passed")
        d = self.bind(c, args)
        pre = s.copy()
        ctx = SpecCtx(self, d, View(self, pre))
        ctx.line = line
        for x in c.requires(ctx):
            lbl, fm = x if isinstance(x, tuple) else ("precondition", x)
            if lbl.startswith("@size"):
                continue        # global size assumption (COMMON_ASSUMPTIONS): assumed at entry, not re-proved by callers
            self.oblige("call %s: %s" % (c.name, lbl), "pre", line, g, fm)
        post = s.copy()
        mods = c.modifies(ctx)
        x = z3.Int("fb!")
        for key, what in mods.items():
            old = self.getmem(post, key)
            if callable(what):
                new = fresh(key, keysort(key))
                self.fact(forall([x], z3.Implies(z3.Not(what(x)), z3.Select(new, x) == z3.Select(old, x)), [z3.Select(new, x)]))
                self.oblige("call %s: writes to %s stay in the frame" % (c.name, key), "frame", line, g, self.frame_sub(key, what))
                post.mem[key] = new
            else:
                m = old
                for b in what:
                    row = fresh(key + ".row", keysort(key).range())
                    m = z3.Store(m, b, row)
                    self.oblige("call %s: writes to %s stay in the frame" % (c.name, key), "frame", line, g, self.frame_ok(key, b))
                post.mem[key] = m
        if c.frees:
            old = self.getmem(post, "freed")
            new = fresh("freed", AB)
            pr = c.frees(ctx)
            self.fact(forall([x], z3.Implies(z3.Not(z3.And(pr(x), x < s.nb)), z3.Select(new, x) == z3.Select(old, x)), [z3.Select(new, x)]))
            y = z3.Int("fz!")
            self.oblige("call %s: frees only blocks in the frame" % c.name, "frame", line, g,
                        z3.ForAll([y], z3.Implies(z3.And(pr(y), y < s.nb), z3.Or(y >= self.nb0, self.modpred["freed"](y) if "freed" in self.modpred else False))))
            post.mem["freed"] = new
        if c.allocs:
            post.nb = fresh("nb")
            self.fact(post.nb >= s.nb)
        rt = ins.a["ty"]
        ret = None
        callee = self.env.find(c.name)
        if rt == "ptr":
            ct = c.ret_ct or (callee.module.ret_ctype(callee) if callee else None)
            ret = PVal(fresh("ret"), IV(0), None, ct)
        elif rt in ("i32", "i64", "i8"):
            ret = fresh("ret")
            if rt == "i32":
                self.fact(self.rng32(ret))
        elif rt == "i1":
            ret = fresh("ret", z3.BoolSort())
        elif rt in ("double", "float"):
            ret = Opaque()
        ctx = SpecCtx(self, d, View(self, pre), View(self, post), ret)
        ctx.line = line
        hs = len(self.facts)
        for x_ in c.ensures(ctx):
            lbl, fm = x_ if isinstance(x_, tuple) else ("post", x_)
            self.fact(fm, g)
        self.hints(c.name, g, pre, post, ret, d, fr, line, hs)
        return g, post, ret, False

    def hints(self, name, g, pre, post, ret, d, fr, line, hs):
        """Intermediate assertions after a call: proved here, then kept whatever else is forgotten."""
        hint = getattr(self.specs.get(self.fname), "hints", {}).get(name)
        if not hint:
            return
        n = self.ncalls[name] = self.ncalls.get(name, 0) + 1
        ctx = SpecCtx(self, self.argd, self.preview, View(self, post), ret)
        ctx.call, ctx.n, ctx.line, ctx.cpre = d, n - 1, line, View(self, pre)
        ctx.lv = lambda *names, fr=fr, post=post: LoopView(self, types.SimpleNamespace(fr=fr, entry=post), post).v(*names)
        tmp = []        # "@tmp" (definitional) and "~" (proved): used for what follows in the same hint, then forgotten
        for lbl, fm in hint(ctx):
            k = len(self.facts)
            if lbl.startswith("@def"):
                self.fact(fm, g)
                self.sticky += range(k, len(self.facts))
                continue
            if lbl.startswith("@tmp"):
                tmp.append(fm)
                continue
            goal = z3.Implies(z3.And(*tmp), fm) if tmp else fm
            self.oblige("after %s #%d: %s" % (name, n, lbl.lstrip("~")), "hint", line, g, goal, local=bool(tmp) or lbl[0] == "~")
            for o in self.obls[-1:]:
                o.hs = hs
            if lbl[0] == "~":
                tmp.append(fm)
            elif tmp:
                self.fact(fm, g)
                self.sticky += range(k, len(self.facts))
            else:
                self.sticky += range(k, len(self.facts))

    def frame_sub(self, key, what):
        y = z3.Int("fz!")
        return z3.ForAll([y], z3.Implies(what(y), self.frame_ok(key, y)))

    # ------------------------------------------------------------ top level
    def verify(self):
        c = self.specs[self.fname]
        f = self.env.find(self.fname)
        if f is None:
            raise NoFit("function %s not found" % self.fname)
        self.cfg(f)
        self.mulmode = getattr(c, "mulmode", "native")
        self.usediv = getattr(c, "usediv", False)
        if self.loops_override is None:
            self.loops_override = c.loops
        st = State()
        self.nb0 = z3.Int("nb@0")
        st.nb = self.nb0
        self.st0.nb = self.nb0
        self.fact(self.nb0 >= 1)
        args = []
        d = {}
        for k, (t, n) in enumerate(f.params):
            nm = n[1:]
            if t == "ptr":
                ct = self.var_ct(f, n + ".addr")
                v = PVal(z3.Int(nm), z3.Int(nm + ".off"), None, ct)
                if not (ct and ct[0] == "ptr" and is_i64(ct[1])):
                    v = PVal(z3.Int(nm), IV(0), None, ct)
                self.fact(z3.And(v.blk >= 0, v.blk < self.nb0))
            elif t == "i1":
                v = z3.Bool(nm)
            elif t in ("double", "float"):
                v = Opaque()
            else:
                v = z3.Int(nm)
                if t == "i32":
                    self.fact(self.rng32(v))
            args.append(v)
            d[nm] = v
            d[k] = v
        self.argd = d
        pre = State()
        pre.mem = self.st0.mem
        pre.nb = self.nb0
        self.preview = View(self, pre)
        ctx = SpecCtx(self, d, self.preview)
        ctx.line = 0
        a, b = z3.Ints("ad! bd!")
        self.fact(forall([a, b], ADR(a, b) == a + b, [ADR(a, b)]))
        own0 = self.getmem(self.st0, "g.own")
        self.fact(forall([a], z3.Implies(a < self.nb0, z3.Select(own0, a) < self.nb0), [z3.Select(own0, a)]))
        if c.setup:
            for x in c.setup(ctx):
                self.fact(x)
        reqs = []
        for x in c.requires(ctx):
            lbl, fm = x if isinstance(x, tuple) else ("requires", x)
            self.fact(fm)
            reqs.append(lbl)
        # NULL is never a live block
        self.modpred = {}
        for key, what in c.modifies(ctx).items():
            if callable(what):
                self.modpred[key] = what
            else:
                self.modpred[key] = (lambda bs: (lambda blk: z3.Or(*[blk == b for b in bs])))(list(what))
        if c.frees:
            self.modpred["freed"] = c.frees(ctx)
        self.cover.append((z3.BoolVal(True), len(self.facts), "precondition"))
        self.nentry = len(self.facts)
        self.curline = 0
        g, s, rv = self.run_func(f, args, st, z3.BoolVal(True))
        want = set(self.loops_override or {})
        if want and (max(want) >= self.loopno):
            raise NoFit("%s has %d loops, annotations name loop %d" % (self.fname, self.loopno, max(want)))
        need = getattr(c, "nloops", None)
        if need is not None and self.loops_override is c.loops and self.loopno != need:
            raise NoFit("%s has %d loops, annotations are for %d" % (self.fname, self.loopno, need))
        if g is None:
            return self
        post = View(self, s)
        ctx = SpecCtx(self, d, self.preview, post, rv)
        ctx.line = 0
        fr = self.last_frame
        ctx.fr = fr
        self.cover.append((g, len(self.facts), "exit"))
        for x in c.ensures(ctx):
            lbl, fm = x if isinstance(x, tuple) else ("ensures", x)
            if lbl == "@def":
                self.fact(fm)
                continue
            self.oblige("postcondition: " + lbl, "post", self.curline, g, fm)
        # ghost keys and fresh blocks need no frame; every store was checked
        return self


OFFS = {"f.row_info.row"}        # fields whose pointers may lie inside a block: their offset is kept too
OWNING = {"f.pluto_matrix.val", "f.pluto_constraints.val", "f.pluto_constraints.buf", "f.pluto_constraints.is_eq", "f.dependence.satvec", "f.dependence.dirvec",
          "f.statement.hyp_types", "f.statement.iterators", "f.statement.is_orig_loop", "f.plutoProg.hProps"}


class LoopView:
    """What a loop invariant may talk about."""

    def __init__(self, vf, info, st):
        self.vf, self.info, self.state = vf, info, st
        self.st = View(vf, st)
        self.pre = vf.preview
        self.entry = View(vf, info.entry)
        self.args = vf.argd

    def __getitem__(self, n):
        return self.args[n]

    @property
    def i(self):
        if self.info.ivar is None:
            raise NoFit("loop %d has no recognisable induction variable" % self.info.no)
        v = self.state.vars.get((self.info.fr.id, self.info.ivar))
        if not isinstance(v, z3.ExprRef):
            raise NoFit("induction variable has no value")
        return v

    def up(self, k=1):
        """Induction variable of the k-th enclosing loop."""
        inf = self.info
        for _ in range(k):
            inf = inf.parent
            if inf is None:
                raise NoFit("loop %d is not nested %d deep" % (self.info.no, k))
        v = self.state.vars.get((inf.fr.id, inf.ivar))
        if not isinstance(v, z3.ExprRef):
            raise NoFit("outer induction variable has no value")
        return v

    def upentry(self, k=1):
        inf = self.info
        for _ in range(k):
            inf = inf.parent
            if inf is None:
                raise NoFit("nesting")
        return View(self.vf, inf.entry)

    def uphead(self, k=1):
        """State at the head of the current iteration of the k-th enclosing loop."""
        inf = self.info
        for _ in range(k):
            inf = inf.parent
            if inf is None:
                raise NoFit("nesting")
        return View(self.vf, inf.head_state)

    def vm(self, name):
        """Like v, for the variable of that name which the loop itself changes (names reused in several scopes)."""
        fr = self.info.fr
        c = [al for al in fr.f.alloca_di if al in self.info.vs and self.vf.var_name(fr.f, al) == name]
        v = self.state.vars.get((fr.id, c[0])) if len(c) == 1 else None
        if not isinstance(v, (z3.ExprRef, PVal)):
            raise NoFit("no single local variable named %s changed by loop %d" % (name, self.info.no))
        return v

    def vu(self, name):
        """Like v, for the variable of that name which the loop mentions (names reused in several scopes)."""
        fr = self.info.fr
        text = "\n".join(i.text for b in self.info.body for i in fr.f.blocks[b])
        c = [al for al in fr.f.alloca_di if self.vf.var_name(fr.f, al) == name and re.search(re.escape(al) + r"(?![\w.$-])", text.replace('"', ""))]
        v = self.state.vars.get((fr.id, c[0])) if len(c) == 1 else None
        if not isinstance(v, (z3.ExprRef, PVal)):
            raise NoFit("no single local variable named %s mentioned by loop %d" % (name, self.info.no))
        return v

    def v0(self, *names):
        """Value of the local variable when the loop was entered."""
        return LoopView(self.vf, self.info, self.info.entry).v(*names)

    def v(self, *names):
        """Value of the local variable with (one of) the given source name(s)."""
        fr = self.info.fr
        best = None
        for name in names:
            for al in fr.f.alloca_di:
                if self.vf.var_name(fr.f, al) == name:
                    if al in self.vf.escaping(fr.f):
                        p = fr.env.get(al)
                        if p is None:
                            continue
                        ct = self.vf.var_ct(fr.f, al)
                        if ct and ct[0] == "array":
                            return p
                        if ct and ct[0] == "int":
                            return self.st.cell("c.i%d" % ct[1], p.blk, IV(0))
                        if ct and ct[0] == "ptr" and ct[1] and ct[1][0] == "int":
                            return PVal(self.st.cell("c.p.i%d.b" % ct[1][1], p.blk, IV(0)), IV(0), None, ct)
                        if ct and ct[0] == "ptr" and ct[1] and ct[1][0] == "struct":
                            return PVal(self.st.cell("c.p.%s.b" % ct[1][1], p.blk, IV(0)), IV(0), None, ct)
                        continue
                    v = self.state.vars.get((fr.id, al))
                    if isinstance(v, (z3.ExprRef, PVal)):
                        best = v
        if best is None:
            raise NoFit("no local variable named %s" % (names,))
        return best
