"""Byte encodings of field elements: contracts of fromBytes*/toBytes* and of the validity predicate."""
import time
from . import term as t, field as fl, ref, exec as ex, verify, props, smt
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import prove_eq, UNKNOWN
from .field import fmul, f1
from .c_field import S1, S2, S6, S12, canon_limb
P = ref.P
B = "bls12_381::"
C = {}
NC = {S1: 1, S2: 2, S6: 6, S12: 12}
CLS = {S1: "fp", S2: "fp2", S6: "fp6", S12: "fp12"}


def reg(c):
    C[c.name] = c
    return c


def canon(xs):
    """the 6-word integer is below p (an opaque literal; isValid is proved to decide it)"""
    if all(isinstance(x, int) for x in xs):
        return int(sum(x << (64 * i) for i, x in enumerate(xs)) < P)
    F, k = ex.limbs_to_fp(list(xs))
    if F.op != "fraw":
        return 1 if k == 1 else mk("fcanon", (mk("fraw", tuple(xs), -1),), 1)
    return mk("fcanon", (F,), 1)


def order(i, n, be):
    """which coordinate is the i-th one in the byte string"""
    return n - 1 - i if be else i


def byte_of(word, j):
    return t.extract_byte(word, j, 64) if not isinstance(word, int) else word >> (8 * j) & 255


def coord_bytes(words, be):
    bs = [byte_of(words[i], j) for i in range(6) for j in range(8)]
    return bs[::-1] if be else bs


def read_words(st, p, off, be):
    bs = [st.load(Ptr(p.obj, ex.addoff(p.off, off + i)), 1) for i in range(48)]
    for b in bs:
        if not isinstance(b, (int, T)):
            raise Violation("byte string is uninitialised", st)
    if be:
        bs = bs[::-1]
    return [t.concat_bytes(bs[8 * i:8 * i + 8]) for i in range(6)]


def words_bound(ws):
    F, k = ex.limbs_to_fp(list(ws))
    return F


class IsValid(Contract):
    """returns: the stored integer is below p"""
    name = B + "fp::isValid() const"
    home = "C08"

    def apply(self, exr, st, args, I):
        ws = [st.load(Ptr(args[0].obj, ex.addoff(args[0].off, 8 * i)), 8) for i in range(6)]
        return [(st, canon(ws))]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract")
            return
        st = exr.base.copy()
        p = st.new(48, "this", "arg")
        xs = [t.var("x%d" % i, 64) for i in range(6)]
        for i in range(6):
            st.store(Ptr(p.obj, 8 * i), 8, xs[i])
        res = run(exr, rep, self.name, fn, st, [p])
        if res is None:
            return
        X = 0
        for i in range(6):
            X = t.or_(X, t.shl(t.zext(xs[i], 64, 384), 64 * i, 384), 384)
        want = t.ult(X, P, 384)
        for k, (s, rv) in enumerate(res):
            t0 = time.time()
            ok, d, be = smt.equal(rv, want, 1, s.pc)
            rep.add(self.name, "path%d: result <=> integer < p" % k, UNKNOWN if ok is None else ok, be, time.time() - t0, d)
            frame(rep, self.name, st, s, (), "path%d" % k)


def run(exr, rep, name, fn, st, args, merge=False):
    t0 = time.time()
    exr.exclude, exr.merge, exr.throws, exr.used, exr.inlined = {name}, merge, [], set(), set()
    try:
        res = exr.run(fn, st.copy(), args)
    except Violation as e:
        rep.add(name, "safe execution", False, "symexec", time.time() - t0, str(e))
        return None
    except (Unsupported, RecursionError, TypeError, KeyError) as e:
        rep.add(name, "execution", UNKNOWN, "symexec", time.time() - t0, "%s: %s" % (type(e).__name__, e))
        return None
    finally:
        exr.exclude = set()
        rep.used |= exr.used
        rep.inlined |= exr.inlined
    if exr.throws:
        rep.add(name, "no exception", False, "symexec", time.time() - t0, str(exr.throws[0])[:200])
    if not res:
        rep.add(name, "returns", False, "symexec", time.time() - t0)
        return None
    return res


def frame(rep, name, before, after, outs, tag):
    for oid, o in before.mem.items():
        if oid in outs:
            continue
        o2 = after.mem.get(oid)
        if o2 is not None and o2.cells != o.cells and not (oid.startswith("g:") and not o.cells):
            rep.add(name, tag + ": frame", False, "symexec", 0, "object %s is modified" % oid)
            return
    rep.add(name, tag + ": only the result is written", True, "symexec")


reg(IsValid())
reg_mont = None


class ToMont(Contract):
    """requires: any six words.  ensures: the canonical Montgomery form of the integer (x * 2^384 mod p)"""
    home = "C01"

    def __init__(self, inner):
        self.inner, self.name = inner, inner.name

    def apply(self, exr, st, args, I):
        F, k = ex.read_fp(st, args[1])
        if F.op != "fraw":
            return self.inner.apply(exr, st, args, I)
        ex.write_fp(st, args[0], fmul(F, f1(ref.MR)))
        return [(st, None)]

    def verify(self, exr, rep):
        self.inner.verify(exr, rep)
        fn = exr.find(self.name)
        if fn is None:
            return
        st = exr.base.copy()
        out, p = st.new(48, "ret", "arg"), st.new(48, "this", "arg")
        xs = [t.var("x%d" % i, 64) for i in range(6)]
        for i in range(6):
            st.store(Ptr(p.obj, 8 * i), 8, xs[i])
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, p]) or []):
            F, b = ex.read_fp(s, out)
            ok, d = prove_eq(s, F, fmul(mk("fraw", tuple(xs), -1), f1(ref.MR)))
            rep.add(self.name, "any six words: value", UNKNOWN if ok is None else ok, "poly", 0, d)
            rep.add(self.name, "any six words: result is canonical", b == 1, "symexec")


from . import c_field as _cf
reg(ToMont(_cf.C[B + "fp::toMont() const"]))


class FromBytes(Contract):
    """requires: opt is known.  ensures: if check_valid, a value is returned iff every coordinate is below p (otherwise
    always); the value is the string's coordinates, converted to Montgomery form iff to_mont"""
    home = "C08"

    def __init__(self, s, be):
        self.s, self.be, self.n = s, be, NC[s]
        self.cls = CLS[s]
        self.name = "%s%s::fromBytes%s(std::span<unsigned char const, %dul>, bls12_381::conv_opt)" % (B, self.cls, "BE" if be else "LE", 48 * self.n)

    def opt(self, o, st):
        if not isinstance(o, int):
            o1 = (t.trunc(t.and_(o, 1, 16), 16, 1), t.trunc(t.and_(t.lshr(o, 8, 16), 1, 16), 16, 1))
            r = [st.decide(x) for x in o1]
            if None in r:
                raise Unsupported("symbolic conversion options")
            return r
        return o & 1, o >> 8 & 1

    def apply(self, exr, st, args, I):
        out, inp, o = args
        chk, mont = self.opt(o, st)
        ws = [None] * self.n
        for i in range(self.n):
            ws[order(i, self.n, self.be)] = read_words(st, inp, 48 * i, self.be)
        cond = 1
        if chk:
            for w in ws:
                cond = t.and_(cond, canon(w), 1)
        res = []
        for v in (True, False):
            s = st.copy()
            try:
                s.assume(cond, v)
            except Infeasible:
                continue
            s.store(Ptr(out.obj, ex.addoff(out.off, 48 * self.n)), 1, int(v))
            if v:
                for i, w in enumerate(ws):
                    q = Ptr(out.obj, ex.addoff(out.off, 48 * i))
                    if mont:
                        F, k = ex.limbs_to_fp(w)
                        ex.write_fp(s, q, fmul(F, f1(ref.MR)))
                    else:
                        for j in range(6):
                            s.store(Ptr(q.obj, ex.addoff(q.off, 8 * j)), 8, w[j])
            res.append((s, None))
        return res

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract")
            return
        for chk in (0, 1):
            for mont in (0, 1):
                st = exr.base.copy()
                out = st.new(48 * self.n + 8, "ret", "arg")
                inp = st.new(48 * self.n, "in", "arg")
                ws = [[t.var("x%d_%d" % (c, i), 64) for i in range(6)] for c in range(self.n)]
                for i in range(self.n):
                    for j, b in enumerate(coord_bytes(ws[order(i, self.n, self.be)], self.be)):
                        st.store(Ptr(inp.obj, 48 * i + j), 1, b)
                tag = "check_valid=%d to_mont=%d" % (chk, mont)
                res = run(exr, rep, self.name, fn, st, [out, inp, chk | mont << 8])
                if res is None:
                    continue
                for k, (s, _) in enumerate(res):
                    self.post(rep, st, s, out, ws, chk, mont, "%s path%d" % (tag, k))

    def post(self, rep, st, s, out, ws, chk, mont, tag):
        t0 = time.time()
        fl_ = s.load(Ptr(out.obj, 48 * self.n), 1)
        allc = conj([canon(w) for w in ws])
        if fl_ == 1:
            rep.add(self.name, tag + ": accepted only when every coordinate is below p", not chk or holds(s, allc, ws), "symexec + z3", 0)
            for i, w in enumerate(ws):
                q = Ptr(out.obj, 48 * i)
                try:
                    if mont:
                        F, k = ex.read_fp(s, q)
                        ok, d = prove_eq(s, F, fmul(mk("fraw", tuple(w), -1), f1(ref.MR)))
                        rep.add(self.name, "%s: coordinate %d" % (tag, i), UNKNOWN if ok is None else ok and k == 1, "poly", time.time() - t0, d)
                    else:
                        ok = True
                        for j in range(6):
                            g = s.load(Ptr(q.obj, q.off + 8 * j), 8)
                            r, d, be = smt.equal(g, w[j], 64, s.pc)
                            ok = ok and r
                        rep.add(self.name, "%s: coordinate %d" % (tag, i), UNKNOWN if ok is None else ok, "term identity", time.time() - t0)
                except Violation as v:
                    rep.add(self.name, "%s: coordinate %d" % (tag, i), False, "symexec", 0, str(v))
        elif fl_ == 0:
            rep.add(self.name, tag + ": rejected only when a coordinate is not below p", holds(s, allc, ws, False) if chk else False, "symexec + z3", 0)
        else:
            rep.add(self.name, tag + ": decision", UNKNOWN, "symexec", 0, str(fl_)[:200])
        frame(rep, self.name, st, s, (out.obj,), tag)


def cdef(w):
    """definition of the opaque literal: the 384-bit integer is below p"""
    X = 0
    for i in range(6):
        X = t.or_(X, t.shl(t.zext(w[i], 64, 384), 64 * i, 384), 384)
    return t.eq(canon(w), t.ult(X, P, 384), 1)


def holds(st, c, ws, val=True):
    d = st.decide(c)
    if d is not None:
        return d is val
    r, _ = smt.valid(c if val else t.not_(c), list(st.pc) + [(cdef(w), True) for w in ws])
    return r if r is True else UNKNOWN if r is None else False


def conj(cs):
    r = 1
    for c in cs:
        r = t.and_(r, c, 1)
    return r


class ToBytes(Contract):
    """ensures: the output is the fixed-width big/little-endian string of the coordinates (canonical values for
    from_mont::yes, stored words for from_mont::no)"""
    home = "C08"

    def __init__(self, s, be, span):
        self.s, self.be, self.n, self.span = s, be, NC[s], span
        self.cls = CLS[s]
        self.name = "%s%s::toBytes%s(%sbls12_381::from_mont) const" % (B, self.cls, "BE" if be else "LE", "std::span<unsigned char, %dul>, " % (48 * self.n) if span else "")

    def words(self, st, p, fm):
        ws = []
        for i in range(self.n):
            q = Ptr(p.obj, ex.addoff(p.off, 48 * i))
            if fm:
                F, k = ex.read_fp(st, q)
                if F.op == "fraw" and k != 1 or F.op != "fraw" and k != 1:
                    raise Violation("coordinate is not reduced", st)
                ws.append(self.canonical(F))
            else:
                ws.append([st.load(Ptr(q.obj, ex.addoff(q.off, 8 * j)), 8) for j in range(6)])
        return ws

    @staticmethod
    def canonical(F):
        G = fmul(F, f1(ref.MRI))
        if G.op == "fconst":
            V = G.args[0] * ref.MR % P
            return [(V >> (64 * i)) & t.mask(64) for i in range(6)]
        return [ex.limb(G, 1, i) for i in range(6)]

    def apply(self, exr, st, args, I):
        this, out, fm = (args[0], args[1], args[2]) if self.span else (args[1], args[0], args[2])
        if not isinstance(fm, int):
            raise Unsupported("symbolic conversion option")
        ws = self.words(st, this, fm & 1)
        for i in range(self.n):
            for j, b in enumerate(coord_bytes(ws[order(i, self.n, self.be)], self.be)):
                st.store(Ptr(out.obj, ex.addoff(out.off, 48 * i + j)), 1, b)
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract")
            return
        for fm in (0, 1):
            st = exr.base.copy()
            out = st.new(48 * self.n, "out", "arg")
            this = st.new(48 * self.n, "this", "arg")
            if fm:
                for i in range(self.n):
                    ex.write_fp(st, Ptr(this.obj, 48 * i), verify.symbol("x%d" % i, S1, S1))
            else:
                for i in range(6 * self.n):
                    st.store(Ptr(this.obj, 8 * i), 8, t.var("x%d" % i, 64))
            res = run(exr, rep, self.name, fn, st, [this, out, fm] if self.span else [out, this, fm])
            for k, (s, _) in enumerate(res or []):
                tag = "from_mont=%d path%d" % (fm, k)
                ws = self.words(st, this, fm)
                bad, unk = None, None
                t0 = time.time()
                for i in range(self.n):
                    for j, b in enumerate(coord_bytes(ws[order(i, self.n, self.be)], self.be)):
                        g = s.load(Ptr(out.obj, 48 * i + j), 1)
                        if not isinstance(g, (int, T)):
                            bad = bad or "byte %d is not written" % (48 * i + j)
                        elif g is not b and g != b:
                            r, d, be = smt.equal(g, b, 8, s.pc)
                            if r is False:
                                bad = bad or "byte %d: %s" % (48 * i + j, d)
                            elif r is None:
                                unk = unk or "byte %d: %s" % (48 * i + j, d)
                rep.add(self.name, tag + ": every output byte", False if bad else UNKNOWN if unk else True, "term identity", time.time() - t0, str(bad or unk or ""))
                frame(rep, self.name, st, s, (out.obj,), tag)


for s in (S1, S2, S6, S12):
    for be in (True, False):
        reg(FromBytes(s, be))
        reg(ToBytes(s, be, True))
        reg(ToBytes(s, be, False))


def round_trip(e, rep):
    """lemma over the contracts: parsing the serialisation of an element returns the element (validation on)"""
    for s in (S1, S2, S6, S12):
        n = NC[s]
        for be in (True, False):
            nm = "parse(serialise(x)) = x for %s %s" % (CLS[s], "BE" if be else "LE")
            st = e.base.copy()
            this, buf, out = st.new(48 * n, "x", "arg"), st.new(48 * n, "b", "arg"), st.new(48 * n + 8, "r", "arg")
            X = verify.symbol("x", s, S1)
            ex.write_el(st, this, X)
            tb, fb = [k for k in C.values() if isinstance(k, ToBytes) and k.s == s and k.be == be and k.span][0], [k for k in C.values() if isinstance(k, FromBytes) and k.s == s and k.be == be][0]
            rep.used |= {tb.name, fb.name}
            tb.apply(e, st, [this, buf, 1], None)
            res = fb.apply(e, st, [out, buf, 0x101], None)
            ok = len(res) == 1 and res[0][0].load(Ptr(out.obj, 48 * n), 1) == 1
            rep.add("lemma", nm + ": accepted", ok, "symexec")
            if ok:
                r, d = prove_eq(res[0][0], ex.read_el(res[0][0], out, s), X)
                rep.add("lemma", nm + ": same element", UNKNOWN if r is None else r, "poly", 0, d)


props.extra("C08", "lemma: round trip")(round_trip)
