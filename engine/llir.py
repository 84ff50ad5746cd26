"""Parser for the textual LLVM IR that clang -O0 -g emits for the real sources.

Only the subset clang produces for libpluto is understood; anything else raises
Unsupported when (and only when) a function containing it is verified."""
import re


class Unsupported(Exception):
    pass


class Instr:
    __slots__ = ("op", "res", "a", "line", "text")

    def __init__(self, op, res, a, line, text):
        self.op, self.res, self.a, self.line, self.text = op, res, a, line, text

    def __repr__(self):
        return "<%s %s %s>" % (self.res, self.op, self.a)


class Func:
    def __init__(self, name, rett, params):
        self.name, self.rett, self.params = name, rett, params
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.raw = []
        self.module = None
        self.alloca_di = {}


def split_top(s, sep=","):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            if ch == sep and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


TYPE_RE = re.compile(
    r'^(void|ptr|i\d+|double|float|x86_fp80|metadata|label|%"[^"]+"|%[\w.$:]+|\[\d+ x |\{|<\d+ x |<\{)')


def take_type(s):
    """Returns (type, rest)."""
    s = s.lstrip()
    m = TYPE_RE.match(s)
    if not m:
        raise Unsupported("type: " + s[:60])
    if s[0] == "[" or s[0] == "{" or s[0] == "<":
        d = 0
        for k, ch in enumerate(s):
            if ch in "[{<":
                d += 1
            elif ch in "]}>":
                d -= 1
                if d == 0:
                    return s[:k + 1], s[k + 1:].lstrip()
        raise Unsupported("type: " + s[:60])
    return m.group(1), s[m.end():].lstrip()


ATTRS = re.compile(
    r'^(noundef|nonnull|signext|zeroext|nocapture|readonly|writeonly|readnone|noalias|returned|immarg|inreg|nofpclass\([^)]*\)|'
    r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|sret\([^)]*\)|byval\([^)]*\)|inalloca|captures\([^)]*\))\s*')


def strip_attrs(s):
    attrs = []
    while True:
        m = ATTRS.match(s)
        if not m:
            return s, attrs
        attrs.append(m.group(1))
        s = s[m.end():]


def typed_operand(s):
    t, rest = take_type(s)
    rest, attrs = strip_attrs(rest)
    return t, rest.strip()


NAME = r'(?:%"[^"]+"|%[\w.$-]+)'
GNAME = r'(?:@"[^"]+"|@[\w.$-]+)'


def uq(n):
    return n.replace('"', "")


class Module:
    def __init__(self, text, name):
        self.name = name
        self.structs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self._members = None
        self._tds = None
        self._parse(text)

    # ---------------------------------------------------------------- parsing
    def _parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                nm, body = l.split(" = type ", 1)
                body = body.strip()
                if body == "opaque":
                    self.structs[uq(nm)] = None
                else:
                    b = body.strip()
                    if b.startswith("<{"):
                        b = b[2:-2]
                    elif b.startswith("{"):
                        b = b[1:-1]
                    self.structs[uq(nm)] = [uq(x) for x in split_top(b)]
            elif l.startswith("@"):
                m = re.match(r'(' + GNAME + r') = (.*)$', l)
                if m:
                    self.globals[uq(m.group(1))] = m.group(2)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self._func(lines[i:j + 1])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'(' + GNAME + r')\(', l)
                if m:
                    self.decls[uq(m.group(1))[1:]] = l
            elif l.startswith("!"):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1

    def _func(self, ls):
        h = ls[0]
        m = re.search(r'(' + GNAME + r')\(', h)
        name = uq(m.group(1))[1:]
        pre = h[len("define"):m.start()].strip()
        toks = pre
        while True:
            t2 = re.sub(r'^(dso_local|internal|linkonce_odr|weak_odr|hidden|local_unnamed_addr|noundef|zeroext|signext|nonnull|noalias|private|available_externally|external|align \d+|dereferenceable\(\d+\))\s+', "", toks)
            if t2 == toks:
                break
            toks = t2
        rett, rest = take_type(toks)
        d, k = 0, m.end() - 1
        for k2 in range(k, len(h)):
            if h[k2] == "(":
                d += 1
            elif h[k2] == ")":
                d -= 1
                if d == 0:
                    break
        ps = []
        for p in split_top(h[k + 1:k2]):
            if p == "...":
                continue
            t, nm = typed_operand(p)
            ps.append((uq(t), uq(nm)))
        f = Func(name, uq(rett), ps)
        f.internal = " internal " in h[:m.start() + 1]
        md = re.search(r'!dbg !(\d+)', h)
        f.dbg = int(md.group(1)) if md else None
        f.raw = ls
        f.module = self
        f.parsed = False
        self.funcs[name] = f

    def parse_body(self, f):
        if f.parsed:
            return f
        f.parsed = True
        cur = None
        i = 1
        ls = f.raw
        while i < len(ls) - 1:
            l = ls[i]
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                cur = uq(m.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
            elif l.strip():
                if cur is None:
                    cur = "entry"
                    f.blocks[cur] = []
                    f.order.append(cur)
                t = l.strip()
                if t.startswith("switch"):
                    while not t.rstrip().split(", !dbg")[0].rstrip().endswith("]"):
                        i += 1
                        t += " " + ls[i].strip()
                if (t.startswith("invoke") or " = invoke" in t) and " unwind " not in t:
                    i += 1
                    t += " " + ls[i].strip()
                if "landingpad" in t:
                    while i + 1 < len(ls) and re.match(r'\s+(cleanup|catch|filter)\b', ls[i + 1]):
                        i += 1
                f.blocks[cur].append(self._instr(t, f))
            i += 1
        f.blocks = {k: [x for x in v if x is not None] for k, v in f.blocks.items()}
        return f

    def _instr(self, t, f):
        line = None
        m = re.search(r', !dbg !(\d+)', t)
        if m:
            line = int(m.group(1))
        core = re.split(r', ![a-z][\w.]* !', t)[0]
        core = re.sub(r'\s*;.*$', "", core) if not core.count('"') else core
        res = None
        m = re.match(r'(' + NAME + r') = (.*)$', core)
        if m:
            res, core = uq(m.group(1)), m.group(2)
        op = core.split(None, 1)[0]
        rest = core[len(op):].strip()
        if op in ("tail", "musttail", "notail"):
            op = rest.split(None, 1)[0]
            rest = rest[len(op):].strip()
        I = lambda a, o=op: Instr(o, res, a, line, t)
        if op == "alloca":
            ps = split_top(rest)
            ty = uq(ps[0])
            cnt = None
            for x in ps[1:]:
                if not x.startswith("align"):
                    cnt = typed_operand(x)
            return I(dict(ty=ty, cnt=cnt))
        if op == "load":
            rest = re.sub(r'^volatile ', "", rest)
            ps = split_top(rest)
            return I(dict(ty=uq(ps[0]), ptr=typed_operand(ps[1])[1]))
        if op == "store":
            rest = re.sub(r'^volatile ', "", rest)
            ps = split_top(rest)
            ty, v = typed_operand(ps[0])
            return I(dict(ty=uq(ty), val=v, ptr=typed_operand(ps[1])[1]))
        if op == "getelementptr":
            rest = re.sub(r'^(inbounds|nusw|nuw)\s+', "", rest)
            ps = split_top(rest)
            return I(dict(ty=uq(ps[0]), ptr=typed_operand(ps[1])[1], idx=[typed_operand(x) for x in ps[2:]]))
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = []
            while True:
                m = re.match(r'^(nsw|nuw|exact|fast|disjoint|nnan|ninf|nsz|contract|afn|reassoc|arcp)\s+', rest)
                if not m:
                    break
                flags.append(m.group(1))
                rest = rest[m.end():]
            ps = split_top(rest)
            ty, a = typed_operand(ps[0])
            return I(dict(ty=ty, x=a, y=ps[1], flags=flags))
        if op == "fneg":
            return I(dict(ty="double"))
        if op in ("icmp", "fcmp"):
            pred, r2 = rest.split(None, 1)
            ps = split_top(r2)
            ty, a = typed_operand(ps[0])
            return I(dict(pred=pred, ty=ty, x=a, y=ps[1]))
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui",
                  "fpext", "fptrunc"):
            rest = re.sub(r'^(nneg|nuw|nsw)\s+', "", rest)
            m = re.match(r'(.*) to (\S+.*)$', rest)
            ty, a = typed_operand(m.group(1))
            return I(dict(fr=ty, x=a, to=m.group(2).strip()))
        if op == "br":
            ps = split_top(rest)
            if len(ps) == 1:
                return I(dict(to=[uq(ps[0].split()[-1])[1:]], cond=None))
            return I(dict(cond=typed_operand(ps[0])[1], to=[uq(ps[1].split(None, 1)[1])[1:], uq(ps[2].split(None, 1)[1])[1:]]))
        if op == "switch":
            m = re.match(r'(.*?), label (\S+) \[(.*)\]', rest)
            ty, v = typed_operand(m.group(1))
            cases = re.findall(r'i\d+ (-?\d+), label (' + NAME + ')', m.group(3))
            return I(dict(ty=ty, x=v, default=uq(m.group(2))[1:], cases=[(int(a), uq(b)[1:]) for a, b in cases]))
        if op == "ret":
            if rest == "void":
                return I(dict(ty="void", x=None))
            ty, v = typed_operand(rest)
            return I(dict(ty=ty, x=v))
        if op == "unreachable":
            return I({})
        if op == "phi":
            ty, r2 = take_type(rest)
            inc = []
            for x in split_top(r2):
                x = x.strip()[1:-1]
                a, b = split_top(x)
                inc.append((a, uq(b)[1:]))
            return I(dict(ty=ty, inc=inc))
        if op == "select":
            ps = split_top(rest)
            c = typed_operand(ps[0])[1]
            ty, a = typed_operand(ps[1])
            _, b = typed_operand(ps[2])
            return I(dict(ty=ty, c=c, x=a, y=b))
        if op in ("call", "invoke"):
            if "@llvm.dbg." in rest:
                m = re.search(r'metadata ptr (' + NAME + r'), metadata !(\d+)', rest)
                if m and "dbg.declare" in rest:
                    f.alloca_di[uq(m.group(1))] = int(m.group(2))
                return None
            m = re.search(r'(' + GNAME + r'|' + NAME + r')\(', rest)
            if not m:
                return I(dict(callee=None, args=[], ty="void"))
            callee = uq(m.group(1))
            d = 0
            st = m.end() - 1
            for k in range(st, len(rest)):
                if rest[k] == "(":
                    d += 1
                elif rest[k] == ")":
                    d -= 1
                    if d == 0:
                        break
            args = []
            for x in split_top(rest[st + 1:k]):
                if x.startswith("metadata"):
                    continue
                try:
                    args.append(typed_operand(x))
                except Unsupported:
                    args.append(("?", x))
            pre = rest[:m.start()].strip()
            pre = re.sub(r'^(fast |nnan )*', "", pre)
            while True:
                p2, _ = strip_attrs(pre)
                p2 = re.sub(r'^(ccc|fastcc)\s+', "", p2)
                if p2 == pre:
                    break
                pre = p2
            ty = take_type(pre)[0]
            a = dict(callee=callee, args=args, ty=uq(ty))
            if op == "invoke":
                m2 = re.search(r'to label (' + NAME + r') unwind label (' + NAME + ')', rest)
                a["to"] = uq(m2.group(1))[1:]
            return I(a)
        return I(dict(unsup=True))

    # ---------------------------------------------------------------- debug info
    def mdfield(self, n, key):
        m = re.search(r'\b' + key + r': (!?\d+|"[^"]*"|[\w|]+)', self.md.get(n, ""))
        if not m:
            return None
        v = m.group(1)
        if v.startswith("!"):
            return int(v[1:])
        return v.strip('"')

    def ctype(self, n, depth=0):
        """Structural C type of metadata node n."""
        if n is None:
            return ("void",)
        s = self.md.get(n, "")
        if s.startswith("!DIBasicType"):
            sz = int(self.mdfield(n, "size") or 0)
            enc = self.mdfield(n, "encoding") or ""
            if "float" in enc:
                return ("float", sz)
            return ("int", sz, "unsigned" in enc or "boolean" in enc)
        if s.startswith("!DIDerivedType"):
            tag = self.mdfield(n, "tag")
            base = self.mdfield(n, "baseType")
            if tag in ("DW_TAG_pointer_type", "DW_TAG_reference_type"):
                return ("ptr", self.ctype(base, depth + 1))
            return self.ctype(base, depth)
        if s.startswith("!DICompositeType"):
            tag = self.mdfield(n, "tag")
            if tag in ("DW_TAG_structure_type", "DW_TAG_class_type", "DW_TAG_union_type"):
                return ("struct", self.mdfield(n, "name") or self.typedef_of(n) or "anon%d" % n)
            if tag == "DW_TAG_enumeration_type":
                return ("int", int(self.mdfield(n, "size") or 32), True)
            if tag == "DW_TAG_array_type":
                return ("array", self.ctype(self.mdfield(n, "baseType"), depth + 1))
        if s.startswith("!DISubroutineType"):
            return ("func",)
        return ("other",)

    def typedef_of(self, n):
        """Name of the typedef of an unnamed structure."""
        if self._tds is None:
            self._tds = {}
            for k, s in self.md.items():
                if s.startswith("!DIDerivedType") and "DW_TAG_typedef" in s:
                    self._tds[self.mdfield(k, "baseType")] = self.mdfield(k, "name")
        return self._tds.get(n)

    def listmd(self, n):
        s = self.md.get(n, "")
        return [int(x[1:]) if x.startswith("!") else None for x in
                [y.strip() for y in s.strip()[2:-1].split(",")] if x]

    def struct_members(self):
        """name -> [(member name, ctype, byte offset)] in declaration order."""
        if self._members is not None:
            return self._members
        out = {}
        for n, s in self.md.items():
            if s.startswith("!DICompositeType") and "DW_TAG_structure_type" in s and "elements:" in s:
                nm = self.mdfield(n, "name") or self.typedef_of(n)
                if not nm:
                    continue
                mem = []
                for e in self.listmd(self.mdfield(n, "elements")):
                    if e is None or not self.md.get(e, "").startswith("!DIDerivedType"):
                        continue
                    if self.mdfield(e, "tag") != "DW_TAG_member":
                        continue
                    mem.append((self.mdfield(e, "name"), self.ctype(self.mdfield(e, "baseType")),
                                int(self.mdfield(e, "offset") or 0) // 8, self.ctype_size(self.mdfield(e, "baseType"))))
                out[nm] = mem
        self._members = out
        return out

    def ctype_size(self, n):
        s = self.md.get(n, "")
        z = self.mdfield(n, "size")
        if z:
            return int(z) // 8
        b = self.mdfield(n, "baseType")
        return self.ctype_size(b) if b is not None else 0

    def line(self, n):
        """Source line of a !DILocation."""
        if n is None:
            return 0
        v = self.mdfield(n, "line")
        return int(v) if v else 0

    def subprogram(self, f):
        return f.dbg

    def ret_ctype(self, f):
        """C return type of a function definition."""
        if f.dbg is None:
            return ("other",)
        t = self.mdfield(f.dbg, "type")
        types = self.mdfield(t, "types")
        l = self.listmd(types)
        return self.ctype(l[0]) if l and l[0] is not None else ("void",)
