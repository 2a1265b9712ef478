"""Hexadecimal text: the fixed-size readers and writers cell by cell, the dynamic ones for an arbitrary iteration of
their loop (any length).  std::string, std::string_view, std::span and std::vector are seen through their contracts."""
import time
import z3
from . import term as t, smt, verify, props, exec as ex
from .term import T
from .exec import Ptr, Violation, Contract
from .ir import Unsupported
from .loopcut import Cut
from .c_int import execute, bv, decide, bvdecide
from .c_code import frame
C = {}
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
SV = "std::basic_string_view<char, std::char_traits<char>>"
VEC = "std::vector<unsigned char, std::allocator<unsigned char>>"
DYN = "18446744073709551615ul"
LIMIT = 1 << 62


def reg(c):
    C[c.name] = c
    return c


class Text(Contract):
    """element access of an abstract sequence: a cell per index term"""

    def __init__(self, name, kind, size, limit):
        self.name, self.kind, self.size, self.limit = name, kind, size, limit

    def apply(self, exr, st, args, I):
        i = args[1]
        n = self.size(st, args[0])
        if n is not None:
            ok = i < n if isinstance(i, int) and isinstance(n, int) else smt.valid(t.ult(i, n, 64), st.pc)[0]
            if ok is not True:
                if ok is False:
                    raise Violation("index beyond the %s" % self.kind, st)
                raise Unsupported("index may be beyond the %s" % self.kind)
        key = (self.kind, i if isinstance(i, int) else i.id)
        d = dict(st.ghost.get("cells", {}))
        if key not in d:
            p = st.new(1, "%s[%s]" % (self.kind, i if isinstance(i, int) else "i%d" % i.id), "arg")
            if self.kind != "result":
                v = t.var("%s_%s" % (self.kind, key[1]), 8)
                st.store(p, 1, v)
            d[key] = (p, i)
            st.ghost = dict(st.ghost)
            st.ghost["cells"] = d
        return [(st, d[key][0])]


class Do(Contract):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def apply(self, exr, st, args, I):
        st.ghost = dict(st.ghost)
        return [(st, self.f(st, args))]


def ctor(st, args):
    st.ghost["strlen"] = args[1]
    st.ghost["fill"] = args[2]


def push(st, args):
    st.ghost["pushed"] = st.ghost.get("pushed", ()) + (st.load(args[1], 1),)


def vnew(st, args):
    st.ghost["vec"] = st.ghost.get("vec", 0) + 1


def contracts(kind_in, size_in):
    u8 = "std::span<unsigned char const, %s>::operator[](unsigned long) const"
    out = [Text(u8 % DYN, "bytes", size_in, None)]
    out += [Text(u8 % ("%dul" % n), "bytes", lambda s, p, n=n: n, None) for n in (1, 32, 48, 96)]
    out += [Text(STR + "::operator[](unsigned long)", "result", lambda s, p: s.ghost.get("strlen"), None),
            Text(STR + "::operator[](unsigned long) const", "text", size_in, None),
            Text(SV + "::operator[](unsigned long) const", "text", size_in, None),
            Do(STR + "::basic_string<std::allocator<char>>(unsigned long, char, std::allocator<char> const&)", ctor),
            Do(STR + "::~basic_string()", lambda s, a: None),
            Do(VEC + "::vector()", vnew),
            Do(VEC + "::reserve(unsigned long)", lambda s, a: None),
            Do(VEC + "::push_back(unsigned char&&)", push),
            Do(VEC + "::push_back(unsigned char const&)", push),
            Do(VEC + "::~vector()", lambda s, a: None)]
    return {c.name: c for c in out}


def digit(en, x):
    """hex digit character of a 4-bit value (8-bit term)"""
    return z3.If(z3.ULT(x, 10), x + ord("0"), x - 10 + ord("a"))


def isdigit(c):
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)))


def value(c):
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.UGE(c, 97), c - 87, c - 55))


class Generic(Cut):
    """loop whose iteration k sees every counter at (start + step k): one arbitrary iteration, then the exit"""

    def __init__(self, exr, fn, count):
        super().__init__(exr)
        self.fn, self.count = fn, count

    def match(self, f, st, env, blk):
        return f.name == self.fn

    def enter(self, f, st, env, blk, changed):
        lin = {}
        for oid, offs in changed.items():
            for off in sorted({o & ~7 for o in offs}):
                v = [self.get(s, oid, off) for s in [st] + [b[0] for b in self.trial_states]]
                if v[0] is None:
                    continue
                d = set()
                for x in v[1:]:
                    e = t.sub(x, v[0], 64) if x is not None else None
                    d.add(e if isinstance(e, int) else None)
                if len(d) != 1 or None in d:
                    raise Unsupported("the loop changes something that is not a counter")
                lin[(oid, off)] = (v[0], d.pop())
        if self.envch:
            raise Unsupported("loop-carried registers")
        self.lin = lin
        self.I = I = t.fresh("iter", 64)
        N = self.count(st)
        s = st.copy()
        s.assume(t.ult(N, I, 64), False)
        for (oid, off), (v, d) in lin.items():
            s.store(Ptr(oid, off), 8, t.add(v, t.mul(d & (2**64 - 1), I, 64), 64))
        s.ghost = dict(s.ghost)
        s.ghost["before"] = s.ghost.get("cells", {})
        s.ghost["I"], s.ghost["N"] = I, N
        self.cut_cells = {oid: dict(o.cells) for oid, o in s.mem.items()}
        self.backs = []
        return [(s, dict(env))]

    def get(self, s, oid, off):
        try:
            x = s.load(Ptr(oid, off), 8)
        except Exception:
            return None
        return x if isinstance(x, (int, T)) else None

    def back(self, f, st, env, blk):
        st.ghost = dict(st.ghost)
        bad = None
        for (oid, off), (v, d) in self.lin.items():
            want = t.add(v, t.mul(d & (2**64 - 1), t.add(self.I, 1, 64), 64), 64)
            if smt.valid(t.eq(self.get(st, oid, off), want, 64), st.pc)[0] is not True:
                bad = "a counter does not advance evenly"
        lo = {oid: {o for k, o in self.lin if k == oid} for oid, _ in self.lin}
        for oid, c in self.cut_cells.items():
            o = st.mem.get(oid)
            if o is None or o.cells == c:
                continue
            for off, x in c.items():
                if (off & ~7) not in lo.get(oid, ()) and o.cells.get(off) != x and not any(p.obj == oid for p, _ in st.ghost.get("cells", {}).values()):
                    bad = "an iteration changes other memory"
        self.backs.append((st, bad))

    @property
    def envch_(self):
        return self.envch


class Hex(Contract):
    home = "C15"
    callers = False
    inline = True

    def apply(self, exr, st, args, I):
        raise Unsupported("inline")

    def size_in(self, st, p):
        return None

    def go(self, exr, rep, st, args, hook=None):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return None
        old = exr.contracts
        tmp = contracts(None, self.size_in)
        exr.contracts = dict(old)
        exr.contracts.update(tmp)
        cut = None
        oh = exr.loop_hook
        if hook:
            cut = Generic(exr, fn, hook)
            exr.loop_hook = cut.hook
        try:
            r = execute(exr, rep, self.name, fn, st, args)
        finally:
            exr.contracts, exr.loop_hook = old, oh
            rep.used -= set(tmp)
        if r is None:
            return None
        for s, what in r[1]:
            rep.add(self.name, "no exception", False if smt.valid(0, s.pc)[0] is False else verify.UNKNOWN, "symexec", 0, str(what)[:100])
        return r[0], cut

    def cellpairs(self, s, en, rep, tag, base, x, before=()):
        """the two characters of byte x at base, base + 1, nothing else written"""
        cells = {k: v for k, v in s.ghost.get("cells", {}).items() if k[0] == "result" and k not in before}
        want = {}
        for d in (0, 1):
            i = t.add(base, d, 64)
            hit = [p for p, j in cells.values() if (j == i if isinstance(i, int) else not isinstance(j, int) and smt.valid(t.eq(i, j, 64), s.pc)[0] is True)]
            if len(hit) != 1:
                rep.add(self.name, tag + "the two characters of a byte are written once", False if not hit and isinstance(i, int) else verify.UNKNOWN, "symexec")
                return False
            c = bv(en, s.load(hit[0], 1), 8)
            v = bv(en, x, 8)
            nib = z3.LShR(v, 4) if d == 0 else v & 15
            decide(s, c == digit(en, nib), en, rep, self.name, tag + "character %d of a byte is its hexadecimal digit" % d)
            want[hit[0].obj] = 1
        return set(want)

    def prefix(self, s, rep, tag, cells, size):
        ok = s.ghost.get("strlen")
        r = smt.valid(t.eq(ok, size, 64), s.pc)[0] if not (isinstance(ok, int) and isinstance(size, int)) else ok == size
        rep.add(self.name, tag + "length is two and two per byte", r if r in (True, False) else verify.UNKNOWN, "z3 bit-vectors")
        for i, ch in ((0, "0"), (1, "x")):
            p = cells.get(("result", i))
            v = s.load(p[0], 1) if p else None
            rep.add(self.name, tag + "starts with 0x (%d)" % i, v == ord(ch), "symexec", 0, "" if v == ord(ch) else "character is %r" % (v,))


class FixedOut(Hex):
    def __init__(self, n):
        self.n = n
        self.name = "%s bls12_381::bytesToHex<%dul>(std::span<unsigned char const, %dul> const&)" % (STR, n, n)

    def verify(self, exr, rep):
        st = exr.base.copy()
        out, sp = st.new(32, "ret", "arg"), st.new(8, "span", "arg")
        st.store(sp, 8, st.new(self.n, "bytes", "arg"))
        r = self.go(exr, rep, st, [out, sp])
        if r is None:
            return
        for k, (s, _) in enumerate(r[0]):
            en = smt.Enc()
            cells = s.ghost.get("cells", {})
            self.prefix(s, rep, "path%d: " % k, cells, 2 + 2 * self.n)
            for i in range(self.n):
                self.cellpairs(s, en, rep, "path%d, byte %d: " % (k, i), 2 + 2 * i, t.var("bytes_%d" % i, 8))
            m = sum(1 for q in cells if q[0] == "result")
            rep.add(self.name, "path%d: nothing else written" % k, m == 2 + 2 * self.n, "symexec")


class FixedIn(Hex):
    """requires a string of at least the stated length (documented)"""

    def __init__(self, n, ret):
        self.n, self.ret = n, ret
        self.name = ("std::array<unsigned char, %dul> bls12_381::hexToBytes<%dul>(%s const&)" % (n, n, STR) if ret else
                     "void bls12_381::hexToBytes<%dul>(%s const&, std::span<unsigned char, %dul>)" % (n, STR, n))

    def verify(self, exr, rep):
        n = self.n
        st = exr.base.copy()
        out, s0 = st.new(n, "out", "arg"), st.new(None, "string", "arg")
        slot = None
        if self.ret:
            from .c_int import byreg
            fn = exr.find(self.name)
            args, slot = byreg(exr, fn, [out, s0]) if fn else ([out, s0], None)
        else:
            args = [s0, out]
        r = self.go(exr, rep, st, args)
        if r is None:
            return
        ch = lambda i: t.var("text_%d" % i, 8)
        for k, (s, rv) in enumerate(r[0]):
            en = smt.Enc()
            pre = z3.And(bv(en, ch(0), 8) == 48, bv(en, ch(1), 8) == 120)
            for i in range(n):
                got = bv(en, s.load(Ptr(out.obj, i), 1) if slot is None else t.trunc(rv, t.width(rv) if False else 8, 8), 8)
                alts = []
                for start, c in ((2, pre), (0, z3.Not(pre))):
                    a, b = bv(en, ch(start + 2 * i), 8), bv(en, ch(start + 2 * i + 1), 8)
                    alts.append(z3.Implies(z3.And(c, isdigit(a), isdigit(b)), got == value(a) * 16 + value(b)))
                decide(s, z3.And(*alts), en, rep, self.name, "path%d: byte %d is read from its two digits" % (k, i))
        if r[0] and slot is None:
            frame(rep, self.name, st, r[0][0][0], {out.obj} | {p.obj for p, _ in r[0][0][0].ghost.get("cells", {}).values()}, "frame")


class DynOut(Hex):
    name = "bls12_381::bytesToHex[abi:cxx11](std::span<unsigned char const, %s>)" % DYN

    def size_in(self, st, p):
        return t.var("n", 64)

    def verify(self, exr, rep):
        st = exr.base.copy()
        n = t.var("n", 64)
        st.assume(t.ult(n, LIMIT, 64), True)
        out, data = st.new(32, "ret", "arg"), st.new(None, "data", "arg")
        r = self.go(exr, rep, st, [out, data, n], lambda s: n)
        if r is None:
            return
        res, cut = r
        if not getattr(cut, "backs", None):
            rep.add(self.name, "loop over the bytes", verify.UNKNOWN, "symexec", 0, "no loop recognised")
            return
        for k, (s, bad) in enumerate(cut.backs):
            rep.add(self.name, "iteration path%d: counters and frame" % k, True if not bad else verify.UNKNOWN, "loop invariant", 0, bad or "")
            en = smt.Enc()
            I = s.ghost["I"]
            mine = [(q, v) for q, v in s.ghost["cells"].items() if q[0] == "bytes" and smt.valid(t.eq(v[1], I, 64) if isinstance(v[1], T) else 0, s.pc)[0] is True]
            if len(mine) != 1:
                rep.add(self.name, "iteration path%d: reads byte I" % k, verify.UNKNOWN, "symexec", 0, "other elements are read")
                continue
            before = set(s.ghost["before"])
            w = self.cellpairs(s, en, rep, "iteration path%d: " % k, t.add(2, t.mul(2, I, 64), 64), t.var("bytes_%s" % mine[0][0][1], 8), before)
            new = [v[0].obj for q, v in s.ghost["cells"].items() if q[0] == "result" and q not in before]
            rep.add(self.name, "iteration path%d: nothing else written" % k, w is not False and set(new) == w, "symexec")
        for k, (s, _) in enumerate(res):
            g = s.ghost
            if "I" not in g:
                rep.add(self.name, "exit path%d" % k, verify.UNKNOWN, "symexec", 0, "returns without the loop")
                continue
            ok = smt.valid(t.eq(g["I"], n, 64), s.pc)[0]
            rep.add(self.name, "exit path%d: after all bytes" % k, ok if ok in (True, False) else verify.UNKNOWN, "z3 bit-vectors")
            self.prefix(s, rep, "exit path%d: " % k, g["cells"], t.add(2, t.mul(2, n, 64), 64))
            extra = [q for q in g["cells"] if q[0] == "result" and q not in g["before"]]
            rep.add(self.name, "exit path%d: nothing written after the loop" % k, not extra or verify.UNKNOWN, "symexec")


class DynIn(Hex):
    name = "bls12_381::hexToBytes(%s)" % SV

    empty = False

    def size_in(self, st, p):
        return 0 if self.empty else t.var("len", 64)

    def verify(self, exr, rep):
        ln = t.var("len", 64)
        c0, c1 = t.var("text_0", 8), t.var("text_1", 8)
        for case in ("odd length", "empty", "0x prefix", "first character not 0", "second character not x"):
            st = exr.base.copy()
            st.assume(t.ult(ln, LIMIT, 64), True)
            odd = t.eq(t.and_(ln, 1, 64), 1, 64)
            st.assume(odd, case == "odd length")
            d = {}
            for i, v in ((0, c0), (1, c1)):
                p = st.new(1, "text[%d]" % i, "arg")
                st.store(p, 1, v)
                d[("text", i)] = (p, i)
            st.ghost = dict(st.ghost)
            st.ghost["cells"] = d
            start = 0
            if case == "0x prefix":
                start = 2
                st.assume(t.ult(ln, 2, 64), False)
                st.assume(t.eq(c0, 48, 8), True)
                st.assume(t.eq(c1, 120, 8), True)
            elif case.startswith("first") or case.startswith("second"):
                st.assume(t.ult(ln, 2, 64), False)
                st.assume(t.eq(c0, 48, 8), case.startswith("second"))
                if case.startswith("second"):
                    st.assume(t.eq(c1, 120, 8), False)
            self.empty = case == "empty"
            num = t.lshr(t.sub(ln, start, 64), 1, 64)
            out, data = st.new(24, "ret", "arg"), st.new(None, "data", "arg")
            r = self.go(exr, rep, st, [out, 0 if case == "empty" else ln, data], lambda s: num)
            if r is None:
                return
            res, cut = r
            if case in ("odd length", "empty"):
                if not res:
                    rep.add(self.name, case + ": returns", verify.UNKNOWN, "symexec")
                for k, (s, _) in enumerate(res):
                    ok = not s.ghost.get("pushed") and "I" not in s.ghost and s.ghost.get("vec") == 1
                    rep.add(self.name, "%s: the result is empty (path %d)" % (case, k), ok, "symexec")
                continue
            if not getattr(cut, "backs", None):
                rep.add(self.name, case + ": loop over the digits", verify.UNKNOWN, "symexec", 0, "no loop recognised")
                continue
            for k, (s, bad) in enumerate(cut.backs):
                tag = "%s: iteration path%d: " % (case, k)
                rep.add(self.name, tag + "counters and frame", True if not bad else verify.UNKNOWN, "loop invariant", 0, bad or "")
                en = smt.Enc()
                I = s.ghost["I"]
                cs = []
                for e in (0, 1):
                    want = t.add(t.mul(2, I, 64), start + e, 64)
                    hit = [q for q, v in s.ghost["cells"].items() if q[0] == "text" and isinstance(v[1], T) and smt.valid(t.eq(v[1], want, 64), s.pc)[0] is True]
                    cs.append(hit[0][1] if len(hit) == 1 else None)
                if None in cs:
                    rep.add(self.name, tag + "reads the two digits of byte I", verify.UNKNOWN, "symexec", 0, "other characters are read")
                    continue
                pu = s.ghost.get("pushed", ())
                rep.add(self.name, tag + "appends one byte", len(pu) == 1, "symexec", 0, "%d appended" % len(pu))
                if len(pu) == 1:
                    a, b = (bv(en, t.var("text_%s" % q, 8), 8) for q in cs)
                    decide(s, z3.Implies(z3.And(isdigit(a), isdigit(b)), bv(en, pu[0], 8) == value(a) * 16 + value(b)), en, rep, self.name, tag + "the byte read from its two digits")
            for k, (s, _) in enumerate(res):
                g = s.ghost
                tag = "%s: exit path%d: " % (case, k)
                if "I" not in g:
                    rep.add(self.name, tag + "after the loop", verify.UNKNOWN, "symexec", 0, "returns without the loop")
                    continue
                ok = smt.valid(t.eq(g["I"], num, 64), s.pc)[0]
                rep.add(self.name, tag + "after all digits", ok if ok in (True, False) else verify.UNKNOWN, "z3 bit-vectors")
                rep.add(self.name, tag + "nothing appended outside the loop", not g.get("pushed"), "symexec")


for _n in (1, 32, 48, 96):
    reg(FixedOut(_n))
    reg(FixedIn(_n, True))
    reg(FixedIn(_n, False))
reg(DynOut())
reg(DynIn())


def roundtrip(_e, rep):
    """reading what was written returns the byte, for each of the 256 bytes (lemma over the two contracts)"""
    x = z3.BitVec("x", 8)
    s = z3.Solver()
    hi, lo = digit(None, z3.LShR(x, 4)), digit(None, x & 15)
    s.add(z3.Not(z3.And(isdigit(hi), isdigit(lo), value(hi) * 16 + value(lo) == x)))
    rep.add("hexadecimal text", "reading what was written returns the byte", s.check() == z3.unsat, "z3 bit-vectors")


props.extra("C15", "hexadecimal round trip")(roundtrip)
