"""Executable contracts: calls the real libpluto (built from /repo's working tree) through ctypes."""
import ctypes
import json
import re
import subprocess


class Fail(Exception):
    """The real code broke its contract on this input."""


class Missing(Exception):
    """The function under test no longer exists under this name: nothing can be said."""


CT = {"p": ctypes.c_void_p, "i": ctypes.c_int, "u": ctypes.c_uint, "l": ctypes.c_longlong, "b": ctypes.c_bool, "d": ctypes.c_double, "s": ctypes.c_char_p, None: None}


class Lib:
    def __init__(self, so, layout):
        self.so = so
        self.dll = ctypes.CDLL(so)
        self.layout = layout
        self.sizes = {}
        self.off = {}
        for s, mem in layout.items():
            if not mem:
                continue
            for m in mem:
                name, ct, off, size = m[0], m[1], m[2], m[3]
                self.off[(s, name)] = (off, self._ctype(ct, size))
            last = max(mem, key=lambda m: m[2])
            self.sizes[s] = (last[2] + last[3] + 7) // 8 * 8
        self.cache = {}
        self.mangled = None
        self.libc = ctypes.CDLL(None)
        self.libc.malloc.restype = ctypes.c_void_p
        self.libc.malloc.argtypes = [ctypes.c_size_t]
        self.libc.free.argtypes = [ctypes.c_void_p]
        self.libc.free.restype = None
        self._ctx = None

    def _ctype(self, ct, size):
        k = ct[0]
        if k == "ptr":
            return ctypes.c_void_p
        if k == "int":
            return {(8, True): ctypes.c_uint8, (8, False): ctypes.c_int8, (16, False): ctypes.c_int16, (16, True): ctypes.c_uint16, (32, True): ctypes.c_uint32, (32, False): ctypes.c_int32,
                    (64, True): ctypes.c_uint64, (64, False): ctypes.c_int64}[(ct[1], bool(ct[2]))]
        if k == "float":
            return ctypes.c_double if ct[1] == 64 else ctypes.c_float
        return ctypes.c_uint8

    def sym(self, name):
        try:
            return getattr(self.dll, name)
        except AttributeError:
            pass
        if self.mangled is None:
            self.mangled = {}
            t = subprocess.run(["nm", "-D", self.so], stdout=subprocess.PIPE, text=True, env={"PATH": "/usr/bin:/bin"}).stdout
            for l in t.splitlines():
                p = l.split()
                if len(p) == 3 and p[1] in "TtWi":
                    m = re.match(r"_ZL?(\d+)", p[2])
                    if m:
                        n = p[2][m.end():m.end() + int(m.group(1))]
                        self.mangled.setdefault(n, p[2])
        if name in self.mangled:
            return getattr(self.dll, self.mangled[name])
        raise Missing(name)

    def call(self, name, sig, *args):
        """sig: 'ret:args' with letters p i u l b d s, v for void."""
        key = (name, sig)
        f = self.cache.get(key)
        if f is None:
            addr = ctypes.cast(self.sym(name), ctypes.c_void_p).value
            r, a = sig.split(":")
            f = ctypes.CFUNCTYPE(CT.get(r) if r != "v" else None, *[CT[x] for x in a])(addr)
            self.cache[key] = f
        return f(*args)

    def get(self, s, f, p):
        o = self.off.get((s, f))
        if o is None:
            raise Missing("%s.%s" % (s, f))
        v = o[1].from_address(p + o[0]).value
        return 0 if v is None else v

    def set(self, s, f, p, v):
        o = self.off.get((s, f))
        if o is None:
            raise Missing("%s.%s" % (s, f))
        o[1].from_address(p + o[0]).value = v

    def sizes4(self, s):
        """Size of a struct whose widest member is 4 bytes."""
        mem = self.layout[s]
        al = max(m[3] for m in mem)
        last = max(mem, key=lambda m: m[2])
        return (last[2] + last[3] + al - 1) // al * al

    def layout_size(self, s):
        return self.sizes[s]

    def has(self, s, f):
        return (s, f) in self.off

    def ctx(self):
        if self._ctx is None:
            self._ctx = self.call("pluto_context_alloc", "p:")
            o = self.get("plutoContext", "options", self._ctx)
            self.opts = o
            self.set("plutoOptions", "silent", o, 1)
            for k, v in (("islsolve", 1), ("pipsolve", 0), ("glpk", 0)):
                self.set("plutoOptions", k, o, v)
        return self._ctx

    def opt(self, **kw):
        self.ctx()
        for k, v in kw.items():
            self.set("plutoOptions", k, self.opts, v)

    # -------------------------------------------------------------- raw arrays
    def i64s(self, p, n):
        return list((ctypes.c_int64 * n).from_address(p)) if n else []

    def i32s(self, p, n):
        return list((ctypes.c_int32 * n).from_address(p)) if n else []

    def ptrs(self, p, n):
        return [x or 0 for x in (ctypes.c_void_p * n).from_address(p)] if n else []

    def put64(self, p, vals):
        for i, v in enumerate(vals):
            ctypes.c_int64.from_address(p + 8 * i).value = v

    def put32(self, p, vals):
        for i, v in enumerate(vals):
            ctypes.c_int32.from_address(p + 4 * i).value = v

    def putptr(self, p, vals):
        for i, v in enumerate(vals):
            ctypes.c_void_p.from_address(p + 8 * i).value = v

    def malloc(self, n):
        return self.libc.malloc(max(n, 1))

    def strdup(self, s):
        b = s.encode() + b"\0"
        p = self.malloc(len(b))
        ctypes.memmove(p, b, len(b))
        return p

    def cstr(self, p):
        return ctypes.string_at(p).decode() if p else None

    # -------------------------------------------------------------- matrices
    def mat(self, rows, nc, er=0, ec=0):
        nr = len(rows)
        m = self.call("pluto_matrix_alloc", "p:iip", nr + er, nc + ec, self.ctx())
        self.set("pluto_matrix", "nrows", m, nr)
        self.set("pluto_matrix", "ncols", m, nc)
        val = self.get("pluto_matrix", "val", m)
        for r, p in zip(rows, self.ptrs(val, nr)):
            self.put64(p, r)
        return m

    def rdmat(self, m):
        nr, nc = self.get("pluto_matrix", "nrows", m), self.get("pluto_matrix", "ncols", m)
        if nr > 100000 or nc > 100000:
            raise Fail("matrix extents %d x %d" % (nr, nc))
        anr, anc = self.get("pluto_matrix", "alloc_nrows", m), self.get("pluto_matrix", "alloc_ncols", m)
        if nr > anr or nc > anc:
            raise Fail("extents %dx%d exceed the capacity %dx%d" % (nr, nc, anr, anc))
        rp = self.ptrs(self.get("pluto_matrix", "val", m), nr)
        if len(set(rp)) != len(rp):
            raise Fail("rows share storage")
        return nr, nc, [self.i64s(p, nc) for p in rp]

    def freemat(self, m):
        self.call("pluto_matrix_free", "v:p", m)

    # -------------------------------------------------------------- constraints
    def cst(self, rows, eqs, nc, er=0, ec=0):
        nr = len(rows)
        c = self.call("pluto_constraints_alloc", "p:iip", nr + er, nc + ec, self.ctx())
        self.set("pluto_constraints", "nrows", c, nr)
        self.set("pluto_constraints", "ncols", c, nc)
        for r, p in zip(rows, self.ptrs(self.get("pluto_constraints", "val", c), nr)):
            self.put64(p, r)
        self.put32(self.get("pluto_constraints", "is_eq", c), eqs)
        return c

    def cstlist(self, systems, nc, er=0, ec=0):
        """systems: list of (rows, eqs)."""
        head = prev = None
        for rows, eqs in systems:
            c = self.cst(rows, eqs, nc, er, ec)
            if prev:
                self.set("pluto_constraints", "next", prev, c)
            head = head or c
            prev = c
        return head

    def rdcst1(self, c):
        nr, nc = self.get("pluto_constraints", "nrows", c), self.get("pluto_constraints", "ncols", c)
        anr, anc = self.get("pluto_constraints", "alloc_nrows", c), self.get("pluto_constraints", "alloc_ncols", c)
        if nr > 100000 or nc > 100000:
            raise Fail("constraint extents %d x %d" % (nr, nc))
        if nr > anr or nc > anc:
            raise Fail("extents %dx%d exceed the capacity %dx%d" % (nr, nc, anr, anc))
        rp = self.ptrs(self.get("pluto_constraints", "val", c), nr)
        rows = [self.i64s(p, nc) for p in rp]
        eqs = self.i32s(self.get("pluto_constraints", "is_eq", c), nr)
        return nc, rows, eqs

    def rdcst(self, c):
        out = []
        while c:
            out.append(self.rdcst1(c))
            c = self.get("pluto_constraints", "next", c)
            if len(out) > 10000:
                raise Fail("constraint list does not end")
        return out

    def freecst(self, c):
        self.call("pluto_constraints_free", "v:p", c)


def eq(got, want, what):
    if got != want:
        raise Fail("%s: got %r, expected %r" % (what, got, want))


BIG = [0, 1, -1, 2, -2, 3, 7, -5, 12, 2**31 - 1, 2**31, -2**31, 2**32, 2**32 + 1, -2**32, 2**33 + 5, -2**40, 2**62, -2**62 + 3, 2**63 - 1]
SMALL = [0, 0, 0, 1, 1, -1, 2, -2, 3, -3, 4, 5, -7]


def rnd_rows(rng, nr, nc, vals):
    return [[rng.choice(vals) for _ in range(nc)] for _ in range(nr)]
