"""Parser for the textual LLVM IR clang emits from /repo's sources."""
import re, subprocess, os

TOK = re.compile(r'''
  c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*" | "(?:[^"\\]|\\.)*" |
  %"[^"]*" | %[-\w$.]+ | @"[^"]*" | @[-\w$.]+ | !"[^"]*" | ![-\w.]* | \#\d+ | \$[-\w.$]+ |
  0x[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | [A-Za-z_][\w.]* | \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)


def tokens(s):
    return TOK.findall(s)


class Ty:
    __slots__ = ("k", "n", "el", "els", "name", "_size", "_align", "offs")

    def __init__(self, k, n=0, el=None, els=None, name=None):
        self.k, self.n, self.el, self.els, self.name = k, n, el, els, name
        self._size = self._align = None
        self.offs = None

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.els))
        if self.k == "named":
            return self.name
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
_ints = {}


def ity(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty("i", n)
    return t


class GRef:
    """reference to a global + constant offset (linked when executed)"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "@%s+%d" % (self.name, self.off)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Unsupported(Exception):
    """the engine cannot model something: an undecided obligation, never a violation"""


class Function:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.lines = []
        self.header = ""
        self.parsed = False

    def parse(self):
        if not self.parsed:
            _parse_function(self)
            self.parsed = True
        return self


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (Ty, init-token-list or None, constant?)
        self.funcs = {}
        self.decls = set()
        self.ctors = []
        self.aliases = {}
        self.dem = {}
        self.rdem = {}

    # -- types
    def size(self, t):
        if t._size is None:
            self._layout(t)
        return t._size

    def align(self, t):
        if t._align is None:
            self._layout(t)
        return t._align

    def _layout(self, t):
        k = t.k
        if k == "i":
            b = (t.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            t._size, t._align = p, min(p, 16)
        elif k == "ptr":
            t._size = t._align = 8
        elif k == "float":
            t._size = t._align = t.n
        elif k == "arr":
            t._size, t._align = t.n * self.size(t.el), self.align(t.el)
        elif k == "struct":
            o, al, offs = 0, 1, []
            for e in t.els:
                a = 1 if t.n else self.align(e)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += self.size(e)
                al = max(al, a)
            t.offs = offs
            t._size, t._align = (o + al - 1) // al * al, al
        elif k == "named":
            u = self.types.get(t.name)
            if u is None:
                raise Unsupported("opaque type " + t.name)
            t._size, t._align = self.size(u), self.align(u)
        else:
            raise Unsupported("layout of type %r" % t)

    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.name]
        return t


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise Unsupported("IR parse: expected %s got %s in %s" % (s, x, " ".join(self.t)[:200]))

    def type(self):
        x = self.next()
        if x == "ptr":
            return PTR
        if x == "void":
            return VOID
        if x == "float":
            return Ty("float", 4)
        if x == "double":
            return Ty("float", 8)
        if x == "x86_fp80":
            return Ty("float", 16)
        if x[0] == "i" and x[1:].isdigit():
            return ity(int(x[1:]))
        if x == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            return Ty("arr", n, el)
        if x == "<":
            if self.peek() == "{":
                t = self.type()
                self.expect(">")
                t.n = 1
                return t
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect(">")
            return Ty("vec", n, el)
        if x == "{":
            els = []
            while self.peek() != "}":
                els.append(self.type())
                self.eat(",")
            self.expect("}")
            return Ty("struct", 0, None, els)
        if x[0] == "%":
            return Ty("named", name=x)
        if x in ("metadata", "label", "token", "opaque"):
            return Ty(x)
        raise Unsupported("IR type token %r in %s" % (x, " ".join(self.t)[:200]))

    ATTRS = {"noundef", "nonnull", "noalias", "signext", "zeroext", "inreg", "nocapture", "readonly", "readnone",
             "returned", "writeonly", "immarg", "writable", "dead_on_unwind", "nofree", "nest", "swiftself", "allocptr",
             "noundef,", "dso_local", "unnamed_addr", "local_unnamed_addr", "hidden", "nsw", "nuw", "exact", "inbounds",
             "volatile", "fast", "nneg", "disjoint", "tail", "musttail", "notail"}

    def attrs(self):
        r = []
        while True:
            x = self.peek()
            if x in self.ATTRS:
                r.append(self.next())
            elif x == "align":
                self.next()
                if self.eat("("):
                    self.next(); self.expect(")")
                else:
                    self.next()
            elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "memory", "range", "captures"):
                a = self.next()
                self.expect("(")
                d = 1
                st = self.i
                while d:
                    y = self.next()
                    d += (y == "(") - (y == ")")
                r.append((a, self.t[st:self.i - 1]))
            elif x is not None and x[0] == "#" and x[1:].isdigit():
                self.next()
            else:
                return r

    def value(self, ty):
        """operand of type ty -> int | '%reg' | GRef | UNDEF | tuple aggregate"""
        x = self.next()
        if x[0] == "%":
            return x
        if x[0] == "@":
            return GRef(x[1:].strip('"'))
        if x in ("true", "false"):
            return int(x == "true")
        if x == "null":
            return 0
        if x in ("undef", "poison"):
            return UNDEF
        if x == "none":
            return 0
        if x == "zeroinitializer":
            return self.zero(ty)
        if x.startswith('c"'):
            return tuple(_cstr(x[2:-1]))
        if x == "[":
            r = []
            while self.peek() != "]":
                t = self.type()
                r.append(self.value(t))
                self.eat(",")
            self.expect("]")
            return tuple(r)
        if x == "<":
            if self.peek() == "{":
                self.next()
                r = []
                while self.peek() != "}":
                    t = self.type()
                    r.append(self.value(t))
                    self.eat(",")
                self.expect("}")
                self.expect(">")
                return tuple(r)
            r = []
            while self.peek() != ">":
                t = self.type()
                r.append(self.value(t))
                self.eat(",")
            self.expect(">")
            return tuple(r)
        if x == "{":
            r = []
            while self.peek() != "}":
                t = self.type()
                r.append(self.value(t))
                self.eat(",")
            self.expect("}")
            return tuple(r)
        if x == "getelementptr":
            self.attrs()
            while self.peek() == "inrange":
                self.next()
                self.expect("(")
                while self.next() != ")":
                    pass
            self.expect("(")
            st = self.type()
            self.expect(",")
            self.type()
            base = self.value(PTR)
            idx = []
            while self.eat(","):
                self.eat("inrange")
                t = self.type()
                idx.append(self.value(t))
            self.expect(")")
            off = const_gep(self.m, st, idx)
            if isinstance(base, GRef):
                return GRef(base.name, base.off + off)
            if isinstance(base, int):
                return base + off
            raise Unsupported("constexpr gep")
        if x in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if re.fullmatch(r"-?\d+", x):
            v = int(x)
            if ty.k == "i":
                return v & ((1 << ty.n) - 1)
            return v
        if ty.k == "float":
            return ("float", x)
        raise Unsupported("IR value token %r in %s" % (x, " ".join(self.t)[:200]))

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t.k in ("i", "ptr"):
            return 0
        if t.k == "arr" or t.k == "vec":
            return (self.zero(t.el),) * t.n
        if t.k == "struct":
            return tuple(self.zero(e) for e in t.els)
        return 0

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def _cstr(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def const_gep(m, st, idx):
    off = 0
    t = st
    for n, i in enumerate(idx):
        if n == 0:
            i = i - (1 << 64) if i >> 63 else i
            off += i * m.size(t)
            continue
        t = m.resolve(t)
        if t.k == "struct":
            m.size(t)
            off += t.offs[i]
            t = t.els[i]
        else:
            off += i * m.size(t.el)
            t = t.el
    return off


def gep_steps(m, st, idx):
    """-> (constant offset, [(reg, scale, width)])"""
    off, dyn, t = 0, [], st
    for n, (ity_, i) in enumerate(idx):
        if n == 0:
            el = t
        else:
            t = m.resolve(t)
            if t.k == "struct":
                m.size(t)
                off += t.offs[i]
                t = t.els[i]
                continue
            el = t = t.el
        sc = m.size(el)
        if isinstance(i, int):
            w = ity_.n
            i = i - (1 << w) if i >> (w - 1) else i
            off += i * sc
        else:
            dyn.append((i, sc, ity_.n))
    return off, dyn


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"}


def _instr(p, m):
    res = None
    if p.peek(1) == "=" and p.peek()[0] == "%":
        res = p.next()
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        p.attrs()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return ("bin", res, op, t, a, b)
    if op == "icmp":
        while p.peek() == "samesign":
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return ("icmp", res, pred, t, a, b)
    if op in CAST:
        p.attrs()
        t, v = p.tv()
        p.expect("to")
        t2 = p.type()
        return ("cast", res, op, t, v, t2)
    if op == "alloca":
        p.attrs()
        t = p.type()
        n = 1
        if p.peek() == "," and p.peek(1) != "align":
            p.next()
            _, n = p.tv()
        return ("alloca", res, m.size(t), n, t)
    if op == "load":
        p.attrs()
        t = p.type()
        p.expect(",")
        _, a = p.tv()
        return ("load", res, t, a)
    if op == "store":
        p.attrs()
        t, v = p.tv()
        p.expect(",")
        _, a = p.tv()
        return ("store", t, v, a)
    if op == "getelementptr":
        p.attrs()
        st = p.type()
        p.expect(",")
        _, base = p.tv()
        idx = []
        while p.peek() == "," and p.peek(1) and not p.peek(1).startswith("!"):
            p.next()
            idx.append(p.tv())
        off, dyn = gep_steps(m, st, idx)
        return ("gep", res, base, off, dyn)
    if op == "br":
        if p.peek() == "label":
            p.next()
            return ("br", p.next())
        t, c = p.tv()
        p.expect(","); p.expect("label")
        a = p.next()
        p.expect(","); p.expect("label")
        b = p.next()
        return ("cbr", c, a, b)
    if op == "switch":
        t, v = p.tv()
        p.expect(","); p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while p.peek() != "]":
            tt = p.type()
            c = p.value(tt)
            p.expect(","); p.expect("label")
            cases.append((c, p.next()))
        return ("switch", t, v, d, cases)
    if op == "ret":
        if p.peek() == "void":
            return ("ret", None, None)
        t, v = p.tv()
        return ("ret", t, v)
    if op == "unreachable":
        return ("unreachable",)
    if op == "phi":
        t = p.type()
        inc = []
        while p.peek() == "[":
            p.next()
            v = p.value(t)
            p.expect(",")
            inc.append((p.next(), v))
            p.expect("]")
            if not p.eat(","):
                break
        return ("phi", res, t, inc)
    if op == "select":
        _, c = p.tv()
        p.expect(",")
        t, a = p.tv()
        p.expect(",")
        _, b = p.tv()
        return ("select", res, t, c, a, b)
    if op == "extractvalue":
        t, v = p.tv()
        idx = []
        while p.peek() == ",":
            p.next()
            idx.append(int(p.next()))
        return ("extractvalue", res, v, idx)
    if op == "insertvalue":
        t, v = p.tv()
        p.expect(",")
        _, e = p.tv()
        idx = []
        while p.peek() == ",":
            p.next()
            idx.append(int(p.next()))
        return ("insertvalue", res, v, e, idx, t)
    if op in ("call", "invoke"):
        while p.peek() in ("fastcc", "ccc", "coldcc"):
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == "(":      # function type for varargs
            d = 0
            while True:
                y = p.next()
                d += (y == "(") - (y == ")")
                if d == 0:
                    break
        cal = p.next()
        if cal[0] == "@":
            callee = GRef(cal[1:].strip('"'))
        elif cal[0] == "%":
            callee = cal
        elif cal == "asm":
            strs = []
            while p.peek() != "(":
                y = p.next()
                if y[0] == '"':
                    strs.append(y)
            callee = GRef("asm " + ("cpuid" if "cpuid" in strs[0] else strs[0]))
        else:
            raise Unsupported("callee " + cal)
        p.expect("(")
        args = []
        while p.peek() != ")":
            t = p.type()
            if t.k == "metadata":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    y = p.next()
                    d += (y in "([{") - (y in ")]}")
                args.append((t, 0, []))
            else:
                at = p.attrs()
                args.append((t, p.value(t), at))
            p.eat(",")
        p.expect(")")
        p.attrs()
        if op == "invoke":
            p.expect("to"); p.expect("label")
            n = p.next()
            p.expect("unwind"); p.expect("label")
            u = p.next()
            return ("invoke", res, rt, callee, args, n, u)
        return ("call", res, rt, callee, args)
    if op == "landingpad":
        return ("landingpad", res)
    if op == "resume":
        return ("resume",)
    if op == "fence":
        return ("nop",)
    if op in ("freeze",):
        t, v = p.tv()
        return ("cast", res, "bitcast", t, v, t)
    raise Unsupported("IR instruction " + op)


def _parse_function(f):
    m = f.mod
    # header: parameters
    h = f.header
    i = h.index("@")
    toks = tokens(h[i:])
    p = P(m, toks)
    p.next()
    p.expect("(")
    params = []
    while p.peek() != ")":
        if p.peek() == "...":
            p.next()
            continue
        t = p.type()
        at = p.attrs()
        nm = p.next() if p.peek() and p.peek()[0] == "%" else "%%%d" % len(params)
        params.append((nm, t, at))
        p.eat(",")
    f.params = params
    # return type
    pre = tokens(h[:i])
    pre = [x for x in pre if x not in ("define", "dso_local", "linkonce_odr", "internal", "weak_odr", "weak", "noundef",
                                       "available_externally", "private", "hidden", "zeroext", "signext", "nonnull", "noalias",
                                       "mustprogress", "fastcc", "unnamed_addr", "local_unnamed_addr", "comdat")]
    q = P(m, pre)
    q.attrs()
    f.ret = q.type()
    f.blocks = {}
    f.order = []
    cur = None
    first = None
    buf = ""
    for ln in f.lines:
        s = ln.strip()
        if not s or s[0] == ";":
            continue
        mm = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
        if mm and not ln.startswith(" "):
            cur = "%" + mm.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = "%entry0"
            f.blocks[cur] = []
            f.order.append(cur)
        buf = buf + " " + s if buf else s
        # multi-line: switch [ ... ], landingpad/invoke continuation
        if buf.count("[") != buf.count("]") and re.search(r"^switch ", buf):
            continue
        if re.search(r"(^|= )invoke ", buf) and " unwind label" not in buf:
            continue
        if s in ("cleanup",) or s.startswith("catch ") or s.startswith("filter "):
            buf = ""
            continue
        toks = tokens(buf)
        # drop trailing metadata
        k = len(toks)
        for j, t in enumerate(toks):
            if t == "," and j + 1 < len(toks) and toks[j + 1][0] == "!":
                k = j
                break
        toks = toks[:k]
        buf = ""
        f.blocks[cur].append(_instr(P(m, toks), m))
    f.entry = f.order[0]
    _order(f)
    f.nregs = 0


def succs(ins):
    op = ins[0]
    if op == "br":
        return [ins[1]]
    if op == "cbr":
        return [ins[2], ins[3]]
    if op == "switch":
        return [ins[3]] + [c[1] for c in ins[4]]
    if op == "invoke":
        return [ins[5], ins[6]]
    return []


def _order(f):
    seen, post = set(), []
    st = [(f.entry, iter(_bs(f, f.entry)))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(_bs(f, s))))
                break
        else:
            post.append(b)
            st.pop()
    post.reverse()
    f.rpo = {b: i for i, b in enumerate(post)}
    _loops(f, post)


def _loops(f, post):
    """natural loops (by back edges in a DFS order); the scheduling key nests loops so that a loop
    body is scheduled before the blocks after the loop"""
    preds = {b: [] for b in post}
    for b in post:
        for s in _bs(f, b):
            preds[s].append(b)
    rp = f.rpo
    # dominators
    idom = {post[0]: post[0]}
    ch = True
    while ch:
        ch = False
        for b in post[1:]:
            ps = [q for q in preds[b] if q in idom]
            n = ps[0]
            for q in ps[1:]:
                x, y = n, q
                while x != y:
                    while rp[x] > rp[y]:
                        x = idom[x]
                    while rp[y] > rp[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in post:
        for s in _bs(f, b):
            if rp[s] <= rp[b] and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
    f.loops = loops
    f.preds = preds
    f.idom = idom
    # scheduling order: RPO with loop bodies contiguous
    inl = {b: sorted([h for h in loops if b in loops[h]], key=lambda h: rp[h]) for b in post}
    f.loopnest = inl
    def key(b):
        k = []
        for h in inl[b]:
            k.append(rp[h])
        return k
    order = []
    def place(blocks, outer):
        done = set()
        for b in sorted(blocks, key=lambda x: rp[x]):
            if b in done:
                continue
            hs = [h for h in inl[b] if h not in outer]
            if hs:
                h = hs[0]
                sub = [x for x in blocks if x in loops[h]]
                order.append(h)
                done.add(h)
                rest = [x for x in sub if x != h]
                place(rest, outer | {h})
                done.update(sub)
            else:
                order.append(b)
                done.add(b)
    place(list(post), set())
    f.sched = {b: i for i, b in enumerate(order)}


def _bs(f, b):
    ins = f.blocks[b]
    return succs(ins[-1]) if ins else []


def parse_text(text, mod):
    lines = text.split("\n")
    i, n = 0, len(lines)
    pend = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!":
            continue
        if ln.startswith("define "):
            nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln).group(1).strip('"')
            f = Function(nm, mod)
            f.header = ln
            while lines[i] != "}":
                f.lines.append(lines[i])
                i += 1
            i += 1
            old = mod.funcs.get(nm)
            if "available_externally" in ln and old:
                continue
            mod.funcs[nm] = f
        elif ln[0] == "%" and " = type " in ln:
            nm, rest = ln.split(" = type ", 1)
            if rest.strip() == "opaque":
                continue
            mod.types[nm] = P(mod, tokens(rest)).type()
        elif ln[0] == "@":
            pend.append(ln)
    for ln in pend:
        nm, rest = ln.split(" = ", 1)
        nm = nm[1:].strip('"')
        toks = tokens(rest)
        k = 0
        if "alias" in toks[:6] or "ifunc" in toks[:6]:
            tgt = [t for t in toks if t[0] == "@"]
            mod.aliases[nm] = ("ifunc" if "ifunc" in toks[:6] else "alias", tgt[-1][1:].strip('"'))
            continue
        ext = False
        while toks[k] not in ("global", "constant"):
            if toks[k] in ("external", "extern_weak"):
                ext = True
            k += 1
        const = toks[k] == "constant"
        p = P(mod, toks)
        p.i = k + 1
        ty = p.type()
        if nm == "llvm.global_ctors":
            mod.ctors += [t[1:] for t in toks if t[0] == "@"]
            continue
        if ext:
            mod.globals.setdefault(nm, (ty, None, const))
            continue
        init = p.value(ty)
        mod.globals[nm] = (ty, init, const)


def demangle(names):
    r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, r))


def load(paths):
    """parse several .ll files; file-local symbols are renamed per file before merging"""
    mod = Module()
    for k, pth in enumerate(paths):
        text = open(pth).read()
        # rename internal symbols so that files can be merged
        loc = set(re.findall(r'^define internal [^@]*@("[^"]*"|[-\w$.]+)\(', text, re.M))
        loc |= set(re.findall(r'^@("[^"]*"|[-\w$.]+) = (?:private|internal) ', text, re.M))
        if loc:
            names = sorted(loc, key=len, reverse=True)
            s = set(names)
            text = re.sub(r'@("[^"]*"|[-\w$.]+)', lambda mm: ("@" + (mm.group(1).strip('"') + ".f%d" % k if '"' not in mm.group(1) else '"' + mm.group(1).strip('"') + ".f%d\"" % k)) if mm.group(1) in s else mm.group(0), text)
        # struct names may differ between files only by numbering suffix: rename clashes
        tys = re.findall(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', text, re.M)
        ren = {}
        rn = lambda tx: re.sub(r'%(?:"[^"]*"|[-\w$.]+)', lambda mm: ren.get(mm.group(0), mm.group(0)), tx)
        if not hasattr(mod, "_tytext"):
            mod._tytext = {}
        more = True
        while more:                      # a type that mentions a renamed type is a different type as well
            more = False
            for nm, body in tys:
                if nm not in ren and nm in mod._tytext and mod._tytext[nm] != rn(body):
                    ren[nm] = nm[:-1] + '.f%d"' % k if nm.endswith('"') else nm + ".f%d" % k
                    more = True
        if ren:
            text = rn(text)
        for nm, body in tys:
            mod._tytext[ren.get(nm, nm)] = rn(body)
        parse_text(text, mod)
    base = {}
    for n in list(mod.funcs):
        base[n] = re.sub(r"\.f\d+$", "", n)
    dm = demangle(sorted(set(base.values()) | set(mod.globals) | set(mod.aliases)))
    for n in mod.funcs:
        mod.dem[n] = dm[base[n]]
        mod.rdem.setdefault(dm[base[n]], n)
    for n in mod.globals:
        mod.dem[n] = dm[n]
        mod.rdem.setdefault(dm[n], n)
    mod.dem_cache = dict(mod.dem)
    return mod


def compile_ir(srcs, outdir, incs, extra=()):
    """clang every source to textual IR, in parallel; returns list of .ll paths"""
    os.makedirs(outdir, exist_ok=True)
    ps, outs = [], []
    for s in srcs:
        o = os.path.join(outdir, os.path.basename(s).rsplit(".", 1)[0] + ".ll")
        cmd = ["clang++", "-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-S", "-emit-llvm"]
        cmd += ["-I" + i for i in incs] + list(extra) + [s, "-o", o]
        ps.append((subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True), s))
        outs.append(o)
    for p, s in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError("clang failed on %s:\n%s" % (s, err[:3000]))
    return outs
