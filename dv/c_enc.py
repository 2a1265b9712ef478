"""Point encodings: Jacobian, affine and compressed strings of both groups (C09)."""
import time
from . import term as t, field as fl, ref, exec as ex, verify, props, smt
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import prove_eq, prove_bool, UNKNOWN
from .field import fmul, fsq, fadd, fneg, f1, zero, one, comp
from .grp import *
from .c_group import B, CLS, oncurve_spec, isz
from .c_code import run, frame, canon, cdef, conj, read_words, coord_bytes, order, byte_of, ToBytes
from .c_sqrt import lex, lex2
P = ref.P
C = {}
CB = {G1: 48, G2: 96}          # bytes of a coordinate
NCO = {G1: 1, G2: 2}


def reg(c):
    C[c.name] = c
    return c


def element(g, cs):
    return cs[0] if g == G1 else fl.mk2(*cs)


def value(w, mont):
    F, k = ex.limbs_to_fp(w)
    return fmul(F, f1(ref.MR)) if mont else F


def same_byte(st, a, b):
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return True, ""
    if not isinstance(a, (int, T)):
        return False, "byte is not written"
    r, d, _ = smt.equal(a, b, 8, st.pc)
    return r, d


def dec(st, c, ws, extra=()):
    """True / False / None: what the path (with the definition of the canonicity literals) says about a literal"""
    if isinstance(c, int):
        return bool(c)
    d = st.decide(c)
    if d is not None:
        return d
    facts = list(st.pc) + [(cdef(w), True) for w in ws] + list(extra)
    for v in (True, False):
        r, _ = smt.valid(c if v else t.not_(c), facts)
        if r is True:
            return v
    return None


def split_on(st, c):
    for v in (True, False):
        s = st.copy()
        try:
            s.assume(c, v)
        except Infeasible:
            continue
        if verify.consistent(s):
            yield v, s


def infeasible(s):
    """the bit-vector literals of the path contradict each other"""
    if not s.pc:
        return False
    c, v = s.pc[-1]
    return smt.valid(t.not_(c) if v else c, s.pc)[0] is True


class Parse(Contract):
    """from{Affine,Jacobian}Bytes{BE,LE}: accepted iff every coordinate is below p and, with check_valid, the point is on the
    curve (z = 0 and the affine string of zeros are the identity); the value is that point"""
    home = "C09"

    def __init__(self, g, form, be):
        self.g, self.form, self.be = g, form, be
        self.k = 3 if form == "Jacobian" else 2
        self.name = "%s%s::from%sBytes%s(std::span<unsigned char const, %dul>, bls12_381::conv_opt)" % (B, CLS[g], form, "BE" if be else "LE", CB[g] * self.k)

    def apply(self, exr, st, args, I):
        raise Unsupported("call of " + self.name)

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g, n = self.g, NCO[self.g]
        for chk in (0, 1):
            for mont in (0, 1):
                fl.reset()
                st = exr.base.copy()
                out, inp = st.new(PSIZE[g] + 8, "ret", "arg"), st.new(CB[g] * self.k, "in", "arg")
                ws = [[[t.var("x%d_%d_%d" % (c, i, j), 64) for j in range(6)] for i in range(n)] for c in range(self.k)]
                for c in range(self.k):
                    for i in range(n):
                        for j, b in enumerate(coord_bytes(ws[c][order(i, n, self.be)], self.be)):
                            st.store(Ptr(inp.obj, CB[g] * c + 48 * i + j), 1, b)
                tag = "check_valid=%d to_mont=%d" % (chk, mont)
                for k, (s, _) in enumerate(run(exr, rep, self.name, fn, st, [out, inp, chk | mont << 8]) or []):
                    if not verify.consistent(s):
                        continue
                    tg = "%s path%d" % (tag, k)
                    self.post(rep, st, s, out, ws, chk, mont, tg)
                    frame(rep, self.name, st, s, (out.obj,), tg)

    def post(self, rep, st, s, out, ws, chk, mont, tag):
        g = self.g
        flag = s.load(Ptr(out.obj, PSIZE[g]), 1)
        if isinstance(flag, T):
            for v, s2 in split_on(s, t.eq(flag, 1, flag.w)):
                s3 = s2.copy()
                s3.store(Ptr(out.obj, PSIZE[g]), 1, int(v))
                self.post(rep, st, s3, out, ws, chk, mont, tag + "/%d" % v)
            return
        t0 = time.time()
        allw = [w for c in ws for w in c]
        can = [dec(s, canon(w), [w]) for w in allw]
        co = [element(g, [value(w, mont) for w in c]) for c in ws]
        at0 = conj([isz(c) for c in co]) if self.k == 2 else 0
        c3 = co if self.k == 3 else co + [one(SORT[g])]
        good = t.or_(at0, oncurve_spec(g)(c3), 1) if chk else 1
        if flag == 0:
            if False in can:
                rep.add(self.name, tag + ": rejected only when a coordinate is not below p or the point is off the curve", True, "symexec", 0)
                return
            v = dec(s, conj([canon(w) for w in allw]), allw)
            if v is False:
                rep.add(self.name, tag + ": rejected only when a coordinate is not below p or the point is off the curve", True, "symexec", 0)
                return
            if v is not True:
                rep.add(self.name, tag + ": rejected only when a coordinate is not below p or the point is off the curve", UNKNOWN, "symexec", 0, "not decided")
                return
            if chk:
                ok, d = prove_bool(s, good, 0)
                rep.add(self.name, tag + ": rejected only when a coordinate is not below p or the point is off the curve", UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)
                return
            rep.add(self.name, tag + ": rejected only when a coordinate is not below p or the point is off the curve", False, "symexec", 0, "nothing is wrong with the string")
            return
        if flag != 1:
            rep.add(self.name, tag + ": decision", False, "symexec", 0, "flag %r" % (flag,))
            return
        bad = [i for i, v in enumerate(can) if v is not True]
        rep.add(self.name, tag + ": accepted only when every coordinate is below p", not bad, "symexec + z3", 0, "coordinate word %s" % bad[:1])
        if bad:
            return
        if chk:
            ok, d = prove_bool(s, good, 1)
            rep.add(self.name, tag + ": accepted only on the curve", UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)
        try:
            got = read_coords(s, g, out, "result")
        except Violation as e:
            rep.add(self.name, tag + ": point", False, "symexec", 0, str(e))
            return
        for v, s2 in (split_on(s, at0) if isinstance(at0, T) else ((False, s),)):
            if v:
                ok, d = prove_eq(s2, got[2], zero(SORT[g]))
                rep.add(self.name, tag + ": the string of zeros is the identity", UNKNOWN if ok is None else ok, "poly", 0, d)
                continue
            for i in range(3):
                ok, d = prove_eq(s2, got[i], c3[i])
                rep.add(self.name, "%s: coordinate %s" % (tag, "xyz"[i]), UNKNOWN if ok is None else ok, "poly", 0, d)


def tobytes(st, F, mont):
    """words of the encoding of a coordinate"""
    return ToBytes.canonical(F) if mont else [ex.limb(F, 1, i) for i in range(6)] if F.op != "fconst" else [F.args[0] * ref.MR % P >> 64 * i & t.mask(64) for i in range(6)]


def comps(g, F):
    return [F] if g == G1 else [comp(F, 0), comp(F, 1)]


def sized(F):
    """fact: the top word of a canonical integer is below 2^61"""
    w = ex.limb(F, 1, 5)
    return (t.ult(w, 1 << 61, 64), True) if isinstance(w, T) else None


class Serialise(Contract):
    """to{Affine,Jacobian}Bytes{BE,LE}: coordinates (affine ones, or zeros for the identity) as fixed-width strings"""
    home = "C09"

    def __init__(self, g, form, be, span):
        self.g, self.form, self.be, self.span = g, form, be, span
        self.k = 3 if form == "Jacobian" else 2
        self.name = "%s%s::to%sBytes%s(%sbls12_381::from_mont) const" % (B, CLS[g], form, "BE" if be else "LE", "std::span<unsigned char, %dul>, " % (CB[g] * self.k) if span else "")

    def bytes(self, st, co, fm):
        g, n = self.g, NCO[self.g]
        out = []
        for F in co:
            cs = [tobytes(st, q, fm) for q in comps(g, F)]
            for i in range(n):
                out += coord_bytes(cs[order(i, n, self.be)], self.be)
        return out

    def apply(self, exr, st, args, I):
        this, out, fm = (args[0], args[1], args[2]) if self.span else (args[1], args[0], args[2])
        if not isinstance(fm, int):
            raise Unsupported("symbolic conversion option")
        res = []
        if self.k == 3:
            cases = [(st, self.bytes(st, read_coords(st, self.g, this), fm & 1))]
        else:
            cases = [(s, [0] * (2 * CB[self.g]) if v is None else self.bytes(s, v, fm & 1)) for s, v in affine_cases(st, self.g, this, self.name)]
        for s, bs in cases:
            for j, b in enumerate(bs):
                s.store(Ptr(out.obj, ex.addoff(out.off, j)), 1, b)
            res.append((s, None))
        return res

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        for fm in (0, 1):
            fl.reset()
            st = exr.base.copy()
            out, this = st.new(CB[g] * self.k, "out", "arg"), st.new(PSIZE[g], "this", "arg")
            b = base(g, "P0")
            co = tuple(fl.fvar("c%d" % i, SORT[g]) for i in range(3)) if self.k == 3 else tuple(pco(b, i) for i in range(3))
            write_coords(st, g, this, co)
            for k, (s, _) in enumerate(run(exr, rep, self.name, fn, st, [this, out, fm] if self.span else [out, this, fm]) or []):
                if not verify.consistent(s):
                    continue
                tag = "from_mont=%d path%d" % (fm, k)
                frame(rep, self.name, st, s, (out.obj,), tag)
                for v, s2 in (((False, s),) if self.k == 3 else split_on(s, isz(co[2]))):
                    want = [0] * (CB[g] * 2) if v else self.bytes(s2, co if self.k == 3 else (afc(nfof(b), 0), afc(nfof(b), 1)), fm)
                    compare(rep, self.name, s2, out, want, tag + (", identity" if v else ""))


def compare(rep, name, s, out, want, tag, facts=()):
    t0 = time.time()
    s2 = s
    if facts:
        s2 = s.copy()
        s2.pc = list(s2.pc) + [f for f in facts if f]
    for j, b in enumerate(want):
        ok, d = same_byte(s2, s.load(Ptr(out.obj, j), 1), b)
        if ok is not True:
            rep.add(name, tag + ": every output byte", UNKNOWN if ok is None else False, "term identity", time.time() - t0, "byte %d: %s" % (j, d))
            return
    rep.add(name, tag + ": every output byte", True, "term identity", time.time() - t0)


def affine_cases(st, g, p, name):
    """(state, None) for the identity, (state, (x, y)) otherwise"""
    c = read_coords(st, g, p)
    if isconst(c[2], fl.CO[SORT[g]]):
        read_point(st, g, p, name)
        return [(st, (c[0], c[1]))]
    n = read_point(st, g, p, name)
    if len(n.d) == 1:
        (b, e), v = next(iter(n.d.items()))
        if e == 0 and v in (1, -1) and b.op == "pbase" and isinstance(b.args[0], tuple) and b.args[0][0] == "const":
            x, y = (fl.fconst(q, SORT[g]) for q in b.args[0][1])
            return [(st, (x, y if v == 1 else fneg(y)))]
    z = gzero(n)
    d = st.decide(z)
    res = []
    for v in (True, False) if d is None else (d,):
        s = st.copy()
        try:
            s.assume(z, v)
        except Infeasible:
            continue
        res.append((s, None if v else (afc(n, 0), afc(n, 1))))
    return res


def lexof(st, g, y):
    """the ordering bit of y as a literal; -y of a non-zero y has the opposite one"""
    if g == G1:
        return lex(y)
    z = st.decide(isz(comp(y, 1)))
    if z is None:
        return lex2(y)
    return lex(comp(y, 0 if z else 1))


def decide_lex(st, g, y):
    """case-split y (known non-zero): yields (state, 0/1 or None)"""
    parts = [(st, y)]
    if g == G2:
        parts = [(s, comp(y, 0 if v else 1)) for v, s in split_on(st, isz(comp(y, 1)))]
    for s, c in parts:
        if c.op == "fconst":
            yield s, int(c.args[0] > (P - 1) // 2)
            continue
        a, b = s.decide(lex(c)), s.decide(lex(fneg(c)))
        yield s, int(a) if a is not None else None if b is None else 1 - int(b)


class Compress(Contract):
    """toCompressedBytesBE: bit 7 set; identity: bit 6 and nothing else; otherwise x (c1 first) and bit 5 iff y is the
    lexicographically larger root"""
    home = "C09"

    def __init__(self, g, span):
        self.g, self.span = g, span
        self.name = "%s%s::toCompressedBytesBE(%s) const" % (B, CLS[g], "std::span<unsigned char, %dul>" % CB[g] if span else "")

    def bytes(self, co, bit):
        g = self.g
        bs = []
        for q in reversed(comps(g, co[0])):
            bs += coord_bytes(ToBytes.canonical(q), True)
        bs[0] = t.or_(bs[0], 0x80 | (0x20 if bit else 0), 8)
        return bs

    def apply(self, exr, st, args, I):
        this, out = (args[0], args[1]) if self.span else (args[1], args[0])
        g = self.g
        res = []
        for s, v in affine_cases(st, g, this, self.name):
            if v is None:
                cases = [(s, [0xc0] + [0] * (CB[g] - 1))]
            else:
                cases = []
                for s1, bit in decide_lex(s, g, v[1]):
                    if bit is None:
                        y = v[1] if g == G1 else comp(v[1], 0 if s1.decide(isz(comp(v[1], 1))) else 1)
                        cases += [(s2, self.bytes(v, b)) for b, s2 in split_on(s1, lex(y))]
                    else:
                        cases.append((s1, self.bytes(v, bit)))
            for s2, bs in cases:
                for j, b in enumerate(bs):
                    s2.store(Ptr(out.obj, ex.addoff(out.off, j)), 1, b)
                res.append((s2, None))
        return res

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        fl.reset()
        st = exr.base.copy()
        out, this = st.new(CB[g], "out", "arg"), st.new(PSIZE[g], "this", "arg")
        b = base(g, "P0")
        co = tuple(pco(b, i) for i in range(3))
        write_coords(st, g, this, co)
        for k, (s, _) in enumerate(run(exr, rep, self.name, fn, st, [this, out] if self.span else [out, this]) or []):
            if not verify.consistent(s):
                continue
            tag = "path%d" % k
            frame(rep, self.name, st, s, (out.obj,), tag)
            for v, s2 in split_on(s, isz(co[2])):
                if v:
                    compare(rep, self.name, s2, out, [0xc0] + [0] * (CB[g] - 1), tag + ", identity")
                    continue
                y = afc(nfof(b), 1)
                for s3, bit in decide_lex(s2, g, y):
                    for bt, s4 in (((bit, s3),) if bit is not None else split_on(s3, lex(y if g == G1 else comp(y, 0 if s3.decide(isz(comp(y, 1))) else 1)))):
                        x = afc(nfof(b), 0)
                        facts = [sized(fmul(q, f1(ref.MRI))) for q in comps(g, x)]
                        compare(rep, self.name, s4, out, self.bytes((x, y), bt), tag + ", y %s" % ("larger" if bt else "smaller"), facts)


class Decompress(Contract):
    """fromCompressedBytesBE: accepted iff bit 7 is set and either bit 6 is set and everything else is zero (the identity), or
    bit 6 is clear, the coordinate below the flag bits is canonical and x^3 + b is a square; then y is the root whose ordering
    bit is bit 5"""
    home = "C09"

    def __init__(self, g):
        self.g = g
        self.name = "%s%s::fromCompressedBytesBE(std::span<unsigned char const, %dul>)" % (B, CLS[g], CB[g])

    def apply(self, exr, st, args, I):
        raise Unsupported("call of " + self.name)

    def setup(self, st, flags):
        g, n = self.g, NCO[self.g]
        ws = [[t.var("x%d_%d" % (i, j), 64) for j in range(6)] for i in range(n)]
        top = t.var("top", 61)
        ws[n - 1][5] = t.zext(top, 61, 64)
        raw = [list(w) for w in ws]
        raw[n - 1][5] = t.or_(ws[n - 1][5], flags << 61, 64)
        inp = st.new(CB[g], "in", "arg")
        for i in range(n):
            for j, b in enumerate(coord_bytes(raw[n - 1 - i], True)):
                st.store(Ptr(inp.obj, 48 * i + j), 1, b)
        return ws, inp

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        for flags in range(8):
            fl.reset()
            st = exr.base.copy()
            ws, inp = self.setup(st, flags)
            out = st.new(PSIZE[g] + 8, "ret", "arg")
            for k, (s, _) in enumerate(run(exr, rep, self.name, fn, st, [out, inp]) or []):
                if not verify.consistent(s) or infeasible(s):
                    continue
                tag = "flag bits %s path%d" % (bin(flags + 8)[3:], k)
                self.post(rep, s, out, ws, flags, tag)
                frame(rep, self.name, st, s, (out.obj,), tag)

    def post(self, rep, s, out, ws, flags, tag):
        g = self.g
        flag = s.load(Ptr(out.obj, PSIZE[g]), 1)
        if isinstance(flag, T):
            for v, s2 in split_on(s, t.eq(flag, 1, flag.w)):
                s3 = s2.copy()
                s3.store(Ptr(out.obj, PSIZE[g]), 1, int(v))
                self.post(rep, s3, out, ws, flags, tag + "/%d" % v)
            return
        if flag not in (0, 1):
            rep.add(self.name, tag + ": decision", False, "symexec", 0, "flag %r" % (flag,))
            return
        t0 = time.time()
        if not flags & 4:
            rep.add(self.name, tag + ": a string without the compression bit is rejected", flag == 0, "symexec")
            return
        if flags & 2:
            rest = conj([t.eq(w, 0, 64) for c in ws for w in c]) if not flags & 1 else 0
            ok = dec(s, rest, [])
            rep.add(self.name, tag + ": with the infinity bit, accepted iff everything else is zero", UNKNOWN if ok is None else ok == (flag == 1), "z3 bit-vectors", time.time() - t0)
            if flag == 1:
                try:
                    ok, d = prove_eq(s, read_coords(s, g, out, "result")[2], zero(SORT[g]))
                except Violation as e:
                    ok, d = False, str(e)
                rep.add(self.name, tag + ": the result is the identity", UNKNOWN if ok is None else ok, "poly", 0, d)
            return
        can = [dec(s, canon(w), [w]) for w in ws]
        X = element(g, [value(w, 1) for w in ws])
        rhs = fadd(fmul(fsq(X), X), curve_b(g))
        if flag == 0:
            if False in can:
                ok, d = True, ""
            elif dec(s, conj([canon(w) for w in ws]), ws) is False:
                ok, d = True, ""
            elif None in can:
                ok, d = None, "the path does not decide whether x is below p"
            else:
                sq = fl.issq(rhs)
                v = s.decide(sq) if isinstance(sq, T) else bool(sq)
                ok, d = (None, "") if v is None else (not v, "x is canonical and x^3 + b is a square")
                if v is None and not any(c.op == "issq" for c, _ in s.pc):
                    ok, d = False, "the string is rejected without a test of x^3 + b"
            rep.add(self.name, tag + ": rejected only when x is not below p or x^3 + b is not a square", UNKNOWN if ok is None else ok, "symexec", time.time() - t0, d)
            return
        bad = [i for i, v in enumerate(can) if v is not True]
        rep.add(self.name, tag + ": accepted only when x is below p", not bad, "symexec + z3", 0, "coordinate %s" % bad[:1])
        if bad:
            return
        try:
            got = read_coords(s, g, out, "result")
        except Violation as e:
            rep.add(self.name, tag + ": point", False, "symexec", 0, str(e))
            return
        for v, w, nm in ((got[0], X, "x is the encoded coordinate"), (fsq(got[1]), rhs, "y^2 = x^3 + b"), (got[2], one(SORT[g]), "z = 1")):
            ok, d = prove_eq(s, v, w)
            rep.add(self.name, "%s: %s" % (tag, nm), UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)
        for s2, bit in decide_lex(s, g, got[1]):
            rep.add(self.name, tag + ": the ordering bit of y is the sign bit", UNKNOWN if bit is None else bit == flags & 1, "symexec", 0)


for g in (G1, G2):
    for be in (True, False):
        for form in ("Affine", "Jacobian"):
            reg(Parse(g, form, be))
            reg(Serialise(g, form, be, True))
            reg(Serialise(g, form, be, False))
    reg(Compress(g, True))
    reg(Compress(g, False))
    reg(Decompress(g))


def words_of(bs, g, be, flagged=False):
    """coordinates of a string -> words (and the three flag bits of the leading word)"""
    n = NCO[g]
    ws = [None] * n
    for i in range(n):
        b = bs[48 * i:48 * i + 48]
        b = b[::-1] if be else b
        w = []
        for k in range(6):
            v = 0
            for j in range(8):
                x = b[8 * k + j]
                v = t.or_(v, t.shl(t.zext(x, 8, 64) if isinstance(x, T) else x, 8 * j, 64), 64)
            w.append(t.bitnorm(v))
        ws[order(i, n, be)] = w
    if not flagged:
        return ws
    fl_ = t.bitnorm(t.lshr(ws[n - 1][5], 61, 64))
    ws[n - 1][5] = t.bitnorm(t.and_(ws[n - 1][5], (1 << 61) - 1, 64))
    return ws, fl_


def reads_back(ws, g, F, mont=1):
    """the words are canonical and stand for the coordinate"""
    if not all(canon(w) == 1 for w in ws):
        return False
    return fl.same(element(g, [value(w, mont) for w in ws]), F)


def round_trip(e, rep):
    st = e.base.copy()
    nm = "round trip"

    def ok(what, v, by="contracts"):
        rep.add(nm, what, UNKNOWN if v is None else bool(v), by)
    for g in (G1, G2):
        for k in C.values():
            if k.g == g:
                rep.used.add(k.name)
        c = CLS[g]
        fl.reset()
        b = base(g, "P0")
        n = nfof(b)
        x, y = afc(n, 0), afc(n, 1)
        curve = curve_poly(g, x, y, one(SORT[g]))
        rhs = fadd(fmul(fsq(x), x), curve_b(g))
        rel = oncurve_rel([x, y])
        # compressed, decode(encode(P)) = P
        cz = [0xc0] + [0] * (CB[g] - 1)
        ws, fl_ = words_of(cz, g, True, True)
        ok("%s compressed: the string of the identity is accepted as the identity" % c, fl_ == 6 and all(v == 0 for w in ws for v in w))
        for bit in (0, 1):
            ws, fl_ = words_of(Compress(g, True).bytes((x, y), bit), g, True, True)
            ok("%s compressed: flag bits of a point, sign %d" % (c, bit), fl_ == 4 | bit)
            ok("%s compressed: the coordinate of a point is canonical and reads back, sign %d" % (c, bit), reads_back(ws, g, x))
        ok("%s compressed: x^3 + b is the square y^2" % c, prove_eq(st, rhs, fsq(y), zeros=rel)[0], "poly")
        Y = fl.fvar("Y", SORT[g])
        ok("%s compressed: a root with the same square is y or -y" % c, prove_eq(st, fmul(fl.fsub(Y, y), fadd(Y, y)), zero(SORT[g]), zeros=rel + [fl.fsub(fsq(Y), rhs)])[0], "poly")
        # compressed, encode(decode(s)) = s
        for bit in (0, 1):
            s2 = e.base.copy()
            D = Decompress(g)
            ws, inp = D.setup(s2, 4 | bit)
            X = element(g, [value(w, 1) for w in ws])
            same = all(fl.same(fmul(q, f1(ref.MRI)), mk("fraw", tuple(w), -1)) for q, w in zip(comps(g, X), ws))
            ok("%s compressed: the canonical words of a decoded coordinate are those of the string, sign %d" % (c, bit), same)
            got = [v for w in reversed(ws) for v in coord_bytes(w, True)]
            got[0] = t.or_(got[0], 0x80 | (0x20 if bit else 0), 8)
            r = [same_byte(s2, s2.load(Ptr(inp.obj, j), 1), q)[0] for j, q in enumerate(got)]
            ok("%s compressed: re-encoding an accepted string gives the string, sign %d" % (c, bit), None if None in r else all(r), "term identity")
        # affine and Jacobian
        for be in (True, False):
            for mont in (0, 1):
                for form, co in (("Affine", (x, y)), ("Jacobian", tuple(pco(b, i) for i in range(3)))):
                    S = Serialise(g, form, be, True)
                    bs = S.bytes(st, co, mont)
                    r = all(reads_back(words_of(bs[CB[g] * i:CB[g] * (i + 1)], g, be), g, F, mont) for i, F in enumerate(co))
                    ok("%s %s %s: every coordinate is canonical and reads back (Montgomery conversion %d)" % (c, form, "BE" if be else "LE", mont), r)
        ok("%s affine: (0, 0) is not on the curve" % c, prove_eq(st, curve_b(g), zero(SORT[g]))[0] is False, "poly")
        ok("%s affine: an affine point passes the curve check" % c, prove_eq(st, curve, zero(SORT[g]), zeros=rel)[0], "poly")


props.extra("C09", "lemma: round trips")(round_trip)
