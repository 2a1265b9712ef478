"""Multi-word integers (addition, multiplication, comparison, shifts), their byte strings and hexadecimal text."""
import time
import z3
from . import term as t, smt, verify, props, exec as ex, c_div
from .term import T, mk
from .exec import Ptr, Violation, Contract
from .ir import Unsupported
from .c_exp import words
NS = "bls12_381::scalar::"
C = {}


def reg(c):
    C[c.name] = c
    return c


def arr(n):
    return "std::array<unsigned long, %dul>" % n


def bvdecide(st, c):
    for v in (True, False):
        if smt.valid(c if v else t.not_(c), st.pc)[0] is True:
            return v
    return None


def execute(exr, rep, name, fn, st, args, dec=None):
    """-> (returns, exceptions) or None"""
    t0 = time.time()
    exr.exclude, exr.merge, exr.throws, exr.used, exr.inlined = {name}, False, [], set(), set()
    old = exr.smt
    exr.smt = dec or bvdecide
    try:
        return exr.run(fn, st.copy(), args), list(exr.throws)
    except Violation as e:
        rep.add(name, "safe execution", False, "symexec", time.time() - t0, str(e))
    except (Unsupported, RecursionError, TypeError, KeyError, AttributeError) as e:
        rep.add(name, "execution", verify.UNKNOWN, "symexec", time.time() - t0, "%s: %s" % (type(e).__name__, e))
    finally:
        exr.smt = old
        exr.exclude = set()
        rep.used |= exr.used
        rep.inlined |= exr.inlined
    return None


def bv(en, x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else en.e(x, w)


def cat(en, ws, w=64):
    ws = [bv(en, x, w) for x in reversed(ws)]
    return z3.Concat(*ws) if len(ws) > 1 else ws[0]


def decide(st, goal, en, rep, name, what):
    """one bit-vector obligation under the path condition"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 120000)
    for c, v in st.pc:
        s.add(en.e(c, 1) == (1 if v else 0))
    s.add(z3.Not(goal))
    r = s.check()
    det = ""
    if r == z3.sat:
        m = s.model()
        det = "counterexample: " + ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls()[:16])
    rep.add(name, what, True if r == z3.unsat else False if r == z3.sat else verify.UNKNOWN, "z3 bit-vectors", time.time() - t0, det)


def byreg(exr, fn, args):
    """small results come back in registers: -> (arguments without the result slot, slot or None)"""
    f = exr.mod.funcs[fn]
    f.parse()
    return (args[1:], args[0]) if len(f.params) == len(args) - 1 else (args, None)


def spill(s, rv, slot):
    """write a register result into its slot"""
    if slot is not None:
        for i, x in enumerate(rv if isinstance(rv, (list, tuple)) else [rv]):
            s.store(Ptr(slot.obj, 8 * i), 8, x)


class Fn(Contract):
    home = "C15"
    callers = False

    def apply(self, exr, st, args, I):
        raise Unsupported("inline")

    inline = True

    def setup(self, exr, st):
        raise NotImplementedError

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        for tag, st, args, goal, outs in self.cases(exr):
            args, slot = byreg(exr, fn, args)
            r = execute(exr, rep, self.name, fn, st, args)
            if r is None:
                return
            from .c_code import frame
            for s, rv in r[0]:
                spill(s, rv, slot)
            en = smt.Enc()
            for k, (s, rv) in enumerate(r[0]):
                g, what = goal(s, rv, en, False)
                decide(s, g, en, rep, self.name, "%spath%d: %s" % (tag, k, what))
            for k, (s, what_) in enumerate(r[1]):
                g, what = goal(s, None, en, True)
                decide(s, g, en, rep, self.name, "%sexception%d: %s" % (tag, k, what))
            if r[0]:
                frame(rep, self.name, st, r[0][0][0], outs, tag + "frame")


def mkarr(st, nm, n, ws=None):
    p = st.new(8 * n, nm, "arg")
    ws = [t.var("%s%d" % (nm, i), 64) for i in range(n)] if ws is None else ws
    for i, w in enumerate(ws):
        st.store(Ptr(p.obj, 8 * i), 8, w)
    return p, ws


class Add(Fn):
    """a + b if it fits NC words, otherwise an exception"""

    def __init__(self, nc, na, nb):
        self.k = (nc, na, nb)
        self.name = "%s %sadd<%dul, %dul, %dul>(%s const&, %s const&)" % (arr(nc), NS, nc, na, nb, arr(na), arr(nb))

    def cases(self, exr):
        nc, na, nb = self.k
        st = exr.base.copy()
        out = st.new(8 * nc, "ret", "arg")
        (a, A), (b, Bw) = mkarr(st, "a", na), mkarr(st, "b", nb)
        W = 64 * (max(na, nb, nc) + 1)

        def goal(s, rv, en, thrown):
            S = z3.ZeroExt(W - 64 * na, cat(en, A)) + z3.ZeroExt(W - 64 * nb, cat(en, Bw))
            if thrown:
                if max(na, nb) > nc:
                    return z3.BoolVal(True), "operands are wider than the result"
                return z3.LShR(S, 64 * nc) != 0, "thrown only when the sum does not fit"
            return S == z3.ZeroExt(W - 64 * nc, cat(en, words(s, out, nc))), "result is the sum"
        yield "", st, [out, a, b], goal, {out.obj}


U_ = "unsigned long const&"


class Prim(Fn):
    """Add64: sum and carry of two words and a carry;  Mul64: (high, low) word of the product"""

    def __init__(self, kind):
        self.kind = kind
        self.name = "bls12_381::%s(%s)" % (kind, ", ".join([U_] * (2 if kind == "Mul64" else 3)))

    def cases(self, exr):
        st = exr.base.copy()
        out = st.new(16, "ret", "arg")
        vals = [t.var("x", 64), t.var("y", 64), t.zext(t.var("c", 1), 1, 64)][:2 if self.kind == "Mul64" else 3]
        ps = []
        for v in vals:
            p = st.new(8, "a", "arg")
            st.store(p, 8, v)
            ps.append(p)

        def goal(s, rv, en, thrown):
            if thrown:
                return z3.BoolVal(False), "no exception"
            a, b = bv(en, s.load(Ptr(out.obj, 8), 8), 64), bv(en, s.load(out, 8), 64)
            X, Y = (z3.ZeroExt(64, bv(en, v, 64)) for v in vals[:2])
            if self.kind == "Mul64":
                return z3.Concat(a, b) == X * Y, "high and low word of the product"
            return z3.Concat(b, a) == X + Y + z3.ZeroExt(64, bv(en, vals[2], 64)), "carry and sum"
        yield "", st, [out] + ps, goal, {out.obj}


class AddInt(Contract):
    """the verified contract of Add64, read over the integers"""
    name = "bls12_381::Add64(%s, %s, %s)" % (U_, U_, U_)

    def apply(self, exr, st, args, I):
        out = args[0]
        x, y, c = (c_div.iv(st.load(a, 8), 64, st) for a in args[1:])
        if c_div.check(st, c_div.le(c, c_div.pc(1)), real=True) is not True:
            raise Unsupported("carry into Add64 may exceed 1")
        a, b = c_div.fresh_words("s", 1)[0], c_div.fresh_words("c", 1)[0]
        S, A, Bv = c_div.padd(c_div.padd(x, y), c), c_div.iv(a, 64, st), c_div.iv(b, 64, st)
        c_div.fact(st, c_div.eq(S, c_div.padd(A, c_div.pscale(Bv, 1 << 64))), c_div.le(Bv, c_div.pc(1)))
        st.store(Ptr(out.obj, ex.addoff(out.off, 8)), 8, a)
        st.store(out, 8, b)
        return [(st, None)]


class Mul(Fn):
    """a * b  (NC >= NA + NB)"""

    def __init__(self, nc, na, nb):
        self.k = (nc, na, nb)
        self.name = "%s %smultiply<%dul, %dul, %dul>(%s const&, %s const&)" % (arr(nc), NS, nc, na, nb, arr(na), arr(nb))

    def verify(self, exr, rep):
        from .c_code import frame
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        nc, na, nb = self.k
        st = exr.base.copy()
        out = st.new(8 * nc, "ret", "arg")
        (a, A), (b, Bw) = mkarr(st, "a", na), mkarr(st, "b", nb)
        addname = Add(nc, nc, nc).name

        class Sum(Contract):
            """the verified contract of add, with the partial products known in closed form"""
            name = addname

            def apply(self, exr, s, args, I):
                if len(args) == 3:
                    o, x, y = args
                else:
                    (x, y), o = args, None
                X, Y = c_div.val(words(s, x, nc), s), c_div.val(words(s, y, nc), s)
                i = s.ghost.get("row", 0)
                s.ghost["row"] = i + 1
                AV, BV = c_div.val(A, s), [c_div.iv(w, 64, s) for w in Bw]
                done = {}
                for j in range(min(i, nb)):
                    done = c_div.padd(done, c_div.pscale(c_div.pmul(AV, BV[j]), 1 << 64 * j))
                if i < nb:
                    row = c_div.pscale(c_div.pmul(AV, BV[i]), 1 << 64 * i)
                    if c_div.check(s, c_div.eq(Y, row), 60000) is True:
                        Y = row
                if c_div.check(s, c_div.eq(X, done), 60000) is True:
                    X = done
                S = c_div.padd(X, Y)
                if c_div.check(s, c_div.lt(S, c_div.pc(1 << 64 * nc)), 60000) is not True:
                    raise Unsupported("the sum of the partial products may not fit")
                rs = c_div.fresh_words("row", nc)
                c_div.fact(s, c_div.eq(c_div.val(rs, s), S))
                if o is not None:
                    c_div.put(s, o, rs)
                    return [(s, None)]
                return [(s, rs[0] if nc == 1 else tuple(rs))]
        oldc = exr.contracts
        exr.contracts = dict(oldc)
        exr.contracts[addname] = Sum()
        exr.contracts[AddInt.name] = AddInt()
        t0 = time.time()
        args, slot = byreg(exr, fn, [out, a, b])
        try:
            r = execute(exr, rep, self.name, fn, st, args, c_div.decide)
        finally:
            exr.contracts = oldc
        if r is None:
            return
        for k, (s, w) in enumerate(r[1]):
            rep.add(self.name, "exception%d: cannot happen" % k, True if c_div.check(s, c_div.FALSE) is True else verify.UNKNOWN, "z3 integers", 0)
        for k, (s, rv) in enumerate(r[0]):
            spill(s, rv, slot)
            ok = c_div.check(s, c_div.eq(c_div.val(words(s, out, nc), s), c_div.pmul(c_div.val(A, s), c_div.val(Bw, s))), 60000)
            rep.add(self.name, "path%d: result is the product" % k, True if ok is True else verify.UNKNOWN, "z3 integers", time.time() - t0)
        if r[0]:
            frame(rep, self.name, st, r[0][0][0], {out.obj}, "frame")


class Cmp(Fn):
    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        self.name = "%s %s%s<%dul>(%s const&, %s const&)" % ("bool" if kind == "equal" else "std::strong_ordering", NS, kind, n, arr(n), arr(n))

    def cases(self, exr):
        for alias in (False, True):
            st = exr.base.copy()
            a, A = mkarr(st, "a", self.n)
            b, Bw = (a, A) if alias else mkarr(st, "b", self.n)

            def goal(s, rv, en, thrown):
                X, Y = cat(en, A), cat(en, Bw)
                if thrown:
                    return z3.BoolVal(False), "no exception"
                if self.kind == "equal":
                    return (bv(en, rv, 1) == 1) == (X == Y), "result is a == b"
                r = bv(en, rv, 8)
                return r == z3.If(X == Y, z3.BitVecVal(0, 8), z3.If(z3.ULT(X, Y), z3.BitVecVal(255, 8), z3.BitVecVal(1, 8))), "result orders a and b"
            yield "same object, " if alias else "", st, [a, b], goal, set()


class Rsh(Fn):
    """out = in >> bits; the shift may be any number of bits"""

    def __init__(self, n):
        self.n = n
        self.name = "void %srsh<%dul>(%s&, %s const&, unsigned long)" % (NS, n, arr(n), arr(n))

    def cases(self, exr):
        n = self.n
        for alias in (False, True):
            for amount in list(range(64 * (n + 1))) + ["whole words", "and bits"]:
                if True:
                    st = exr.base.copy()
                    a, A = mkarr(st, "a", n)
                    out = a if alias else st.new(8 * n, "out", "arg")
                    sh = amount
                    if isinstance(amount, str):           # any amount beyond the last word
                        sh = t.var("bits", 64)
                        st.assume(t.ult(sh, 64 * (n + 1), 64), False)
                        st.assume(t.eq(t.and_(sh, 63, 64), 0, 64), amount == "whole words")

                    def goal(s, rv, en, thrown, sh=sh, A=A, out=out):
                        if thrown:
                            return z3.BoolVal(False), "no exception"
                        X = cat(en, A)
                        k = bv(en, sh, 64)
                        W = 64 * n
                        K = z3.ZeroExt(W - 64, k) if W > 64 else k
                        want = z3.If(z3.ULT(k, W), z3.LShR(X, K), z3.BitVecVal(0, W))
                        return cat(en, words(s, out, n)) == want, "result is the shifted integer"
                    yield "%s%s, " % ("by %s" % amount if isinstance(amount, int) else "beyond the end, " + amount, ", in place" if alias else ""), st, [out, a, sh], goal, {out.obj}


class Bytes(Fn):
    """integer <-> bytes in either order"""

    def __init__(self, n, to, be, ret):
        self.n, self.to, self.be, self.ret = n, to, be, ret
        f = "%s%s<%dul>" % ("toBytes" if to else "fromBytes", "BE" if be else "LE", n)
        sp = "std::span<unsigned char%s, %dul * 8>" % ("" if to else " const", n)
        if to:
            self.name = "std::array<unsigned char, %dul * 8> %s%s(%s const&)" % (n, NS, f, arr(n)) if ret else "void %s%s(%s const&, %s)" % (NS, f, arr(n), sp)
        else:
            self.name = "%s %s%s(%s const&)" % (arr(n), NS, f, sp) if ret else "void %s%s(%s const&, %s&)" % (NS, f, sp, arr(n))

    def cases(self, exr):
        n = self.n
        st = exr.base.copy()
        if self.to:
            out = st.new(8 * n, "out", "arg")
            a, A = mkarr(st, "a", n)
            args = [out, a] if self.ret else [a, out]
        else:
            out = st.new(8 * n, "out", "arg")
            by = st.new(8 * n, "bytes", "arg")
            A = [t.var("y%d" % i, 8) for i in range(8 * n)]
            for i, x in enumerate(A):
                st.store(Ptr(by.obj, i), 1, x)
            sp = st.new(8, "span", "arg")
            st.store(sp, 8, by)
            args = [out, sp] if self.ret else [sp, out]

        def goal(s, rv, en, thrown):
            if thrown:
                return z3.BoolVal(False), "no exception"
            if self.to:
                bs = [s.load(Ptr(out.obj, i), 1) for i in range(8 * n)]
                X = cat(en, A)
                Y = cat(en, bs[::-1] if self.be else bs, 8)
            else:
                X = cat(en, words(s, out, n))
                Y = cat(en, A[::-1] if self.be else A, 8)
            return X == Y, "bytes are the integer's"
        yield "", st, args, goal, {out.obj}


reg(Prim("Add64"))
reg(Prim("Mul64"))
for _w in (1, 2, 4, 6, 8):
    reg(Cmp(_w, "cmp"))
    reg(Cmp(_w, "equal"))
    reg(Rsh(_w))
    for _to in (0, 1):
        for _be in (0, 1):
            for _r in (0, 1):
                reg(Bytes(_w, _to, _be, _r))
for _k in ((1, 1, 1), (2, 1, 1), (4, 4, 4), (4, 2, 4), (5, 4, 4), (6, 4, 6), (6, 6, 6), (7, 6, 6), (8, 8, 8), (2, 4, 4)):
    reg(Add(*_k))
for _k in ((2, 1, 1), (5, 4, 1), (6, 4, 2), (8, 4, 4), (7, 2, 4), (12, 6, 6)):
    reg(Mul(*_k))
