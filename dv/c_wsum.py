"""weightedSum: sum of scalar_i * point_i over two lists of any length.

The loop over the list is cut: its invariant is  bucket[d-1] = sum of the points i' < i whose digit is d.  One arbitrary
iteration is executed on an abstract element (point P_i, scalar s_i), the buckets being arbitrary group elements; the
loops over buckets, windows and digits are executed for each window width c.  The result has to be
sum_j 2^(c j) sum_d d * bucket_j[d-1], and  sum_j 2^(c j) digit_j(s) = s  closes the argument."""
import time
import z3
from . import term as t, field as fl, verify, smt, props, exec as ex
from .term import T, mk
from .exec import Ptr, Violation, Contract
from .ir import Unsupported
from .grp import G1, G2, PSIZE, NF, base, pco, write_coords, write_nf, read_point
B = "bls12_381::"
C = {}
U64 = 18446744073709551615


def list_loop(mod, f):
    """header of the innermost loop that indexes the lists"""
    best = None
    for h, body in f.loops.items():
        hit = False
        for b in body:
            for I in f.blocks[b]:
                if I[0] == "call" or I[0] == "invoke":
                    nm = next((getattr(x, "name", None) for x in I[1:] if getattr(x, "name", None)), None)
                    if nm and "span" in mod.dem.get(nm, "") and "operator[]" in mod.dem.get(nm, ""):
                        hit = True
        if hit and (best is None or len(body) < len(f.loops[best])):
            best = h
    return best


class SpanAt(Contract):
    """std::span::operator[]: element i of the list (an arbitrary one); requires i < size"""

    def __init__(self, kind, w):
        self.kind, self.w = kind, w

    def apply(self, exr, st, args, I):
        this, i = args
        size = st.load(Ptr(this.obj, ex.addoff(this.off, 8)), 8)
        if isinstance(i, int) and isinstance(size, int):
            if i >= size:
                raise Violation("list index out of range", st)
        elif smt.valid(t.ult(i, size, 64), st.pc)[0] is not True:
            raise Violation("list index is not shown to be below the list's size", st)
        p = st.load(Ptr(this.obj, this.off), 8)
        key = ("elem", p.obj, i if isinstance(i, int) else i.id)
        o = st.ghost.get(key)
        if o is None:
            st.ghost = dict(st.ghost)
            o = self.w.element(st, self.kind, i)
            st.ghost[key] = o
        return [(st, o)]


class VecAt(Contract):
    """std::vector::operator[] on the buckets; an index that is not a constant gives an arbitrary bucket"""

    def __init__(self, w):
        self.w = w

    def apply(self, exr, st, args, I):
        this, i = args
        data = st.load(Ptr(this.obj, this.off), 8)
        end = st.load(Ptr(this.obj, ex.addoff(this.off, 8)), 8)
        n = (end.off - data.off) // PSIZE[self.w.g]
        if isinstance(i, int):
            if i >= n:
                raise Violation("vector index %d out of range" % i, st)
            return [(st, Ptr(data.obj, data.off + PSIZE[self.w.g] * i))]
        if smt.valid(t.ult(i, n, 64), st.pc)[0] is not True:
            raise Violation("bucket index is not shown to be below %d" % n, st)
        al = st.ghost.get("alias")
        if al is None:
            b = base(self.w.g, "bucket")
            p = st.new(PSIZE[self.w.g], "bucket[d]", "arg")
            write_coords(st, self.w.g, p, tuple(pco(b, k) for k in range(3)))
            st.ghost = dict(st.ghost)
            st.ghost["alias"] = al = (data, i, p, b)
        if al[0] != data or al[1] is not i:
            raise Unsupported("more than one bucket is used per list element")
        return [(st, al[2])]


class Fun(Contract):
    def __init__(self, f):
        self.f = f

    def apply(self, exr, st, args, I):
        return [(st, self.f(st, args))]


class WSum:
    """sum of scalar_i * point_i, i below the shorter length; for list lengths below 2^21 (2^24 in the thorough tier)"""

    def __init__(self, g):
        self.g = g
        self.c = "g1" if g == G1 else "g2"
        c = B + self.c
        self.name = "%s::weightedSum(std::span<%s const, %dul>, std::span<std::array<unsigned long, 4ul> const, %dul>, std::function<void ()> const&)" % (c, c, U64, U64)

    def element(self, st, kind, i):
        if kind == "point":
            b = base(self.g, "P_i")
            p = st.new(PSIZE[self.g], "points[i]", "arg")
            write_coords(st, self.g, p, tuple(pco(b, k) for k in range(3)))
        else:
            p = st.new(32, "scalars[i]", "arg")
            for k in range(4):
                st.store(Ptr(p.obj, 8 * k), 8, self.s[k])
        return p

    def one(self, exr, rep, c, bits, order, withyield=0):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        f = exr.mod.funcs[fn]
        f.parse()
        hdr = list_loop(exr.mod, f)
        if hdr is None:
            raise Unsupported("no loop over the lists")
        name = self.name
        tag = ("lengths below 32" if bits is None else "length of %d bits" % bits) + (", scalars shorter" if order else "")
        fl.reset()
        st = exr.base.copy()
        g = self.g
        self.s = [t.var("s%d" % i, 64) for i in range(4)]
        n, m = t.var("n", 64), t.var("m", 64)
        if order:
            st.assume(t.ult(n, m, 64), True)
        else:
            st.assume(t.ult(m, n, 64), False)
        lo, hi = (0, 32) if bits is None else (1 << (bits - 1), 1 << bits)
        st.assume(t.ult(n, lo, 64), False)
        st.assume(t.ult(n, hi, 64), True)
        out = st.new(PSIZE[g], "ret", "arg")
        pts, scs, yl = st.new(None, "points", "arg"), st.new(None, "scalars", "arg"), st.new(32, "yield", "arg")
        W = {}
        u = str(U64) + "ul"
        cl = B + self.c
        tmp = {
            "std::span<%s const, %s>::operator[](unsigned long) const" % (cl, u): SpanAt("point", self),
            "std::span<std::array<unsigned long, 4ul> const, %s>::operator[](unsigned long) const" % u: SpanAt("scalar", self),
            "std::vector<%s, std::allocator<%s>>::operator[](unsigned long)" % (cl, cl): VecAt(self),
            "std::function<void ()>::operator bool() const": Fun(lambda s, a: withyield),
            "std::function<void ()>::operator()() const": Fun(lambda s, a: None),
        }
        if bits is not None:
            tmp["std::enable_if<__is_unsigned_integer<unsigned long>::value, int>::type std::countl_zero<unsigned long>(unsigned long)"] = Fun(lambda s, a: self.clz(s, a[0], n, bits))
        cut = Points(self, fn, hdr, n, c, rep, name, tag)
        old = {k: exr.contracts.get(k) for k in tmp}
        t0 = time.time()
        from .c_code import run as crun, frame
        exr.contracts.update(tmp)
        exr.loop_hook, old_smt, old_mv = cut.hook, exr.smt, exr.maxvisits
        exr.smt = decide
        exr.maxvisits = 100000
        # span arguments are passed as (pointer, size)
        a = [out, pts, m if order else n, scs, n if order else m, yl]
        try:
            res = crun(exr, rep, name, fn, st, a)
        finally:
            exr.loop_hook, exr.smt, exr.maxvisits = None, old_smt, old_mv
            for k, v in old.items():
                if v is None:
                    exr.contracts.pop(k, None)
                else:
                    exr.contracts[k] = v
            exr.used -= set(tmp)
            rep.used -= set(tmp)
        if not res:
            return
        J = len(cut.shifts)
        want = NF(g, {(base(g, "B%d.%d" % (j, d)), 0): d << (c * j) for j in range(J) for d in range(1, 1 << c)})
        for k, (s, rv) in enumerate(res):
            if s.ghost.get("window") != J:
                raise Unsupported("paths with different numbers of windows")
            got = read_point(s, g, out)
            ok = got.key() == want.key()
            rep.add(name, "%s: result = sum of 2^(%d j) d * bucket_j[d] (path %d)" % (tag, c, k), ok, "group normal form", time.time() - t0,
                    "" if ok else "the buckets are combined differently")
        frame(rep, name, st, res[0][0], {out.obj}, tag)
        # digits: the whole scalar is covered
        x = z3.Concat(*[z3.BitVec("s%d" % i, 64) for i in (3, 2, 1, 0)])
        w = max(256, c * J) + 8
        X = z3.ZeroExt(w - 256, x)
        tot = z3.BitVecVal(0, w)
        for j, sh in sorted(cut.shifts.items()):
            if sh != c * j:
                rep.add(name, "%s: window %d starts at bit %d" % (tag, j, c * j), False, "symexec", 0, "digit is taken at bit %d" % sh)
                return
            tot = tot + ((z3.LShR(X, sh) & ((1 << c) - 1)) << (c * j))
        sol = z3.Solver()
        sol.set("timeout", 60000)
        sol.add(tot != X)
        r = sol.check()
        rep.add(name, "%s: the %d digits of a scalar add up to it" % (tag, J), True if r == z3.unsat else False if r == z3.sat else verify.UNKNOWN, "z3 bit-vectors", time.time() - t0)

    def clz(self, st, x, n, bits):
        if x is not n and smt.valid(t.eq(x, n, 64), st.pc)[0] is not True:
            raise Unsupported("bit count of something else than the length")
        return 64 - bits


def decide(st, c):
    r, _ = smt.valid(c, st.pc)
    if r is True:
        return True
    r, _ = smt.valid(t.not_(c), st.pc)
    return False if r is True else None


class Points:
    """cut of the loop over the lists"""

    def __init__(self, w, fn, hdr, n, c, rep, name, tag):
        self.w, self.fn, self.hdr, self.n, self.c, self.rep, self.name, self.tag = w, fn, hdr, n, c, rep, name, tag
        self.shifts = {}

    def fail(self, what, hard=False):
        if hard:
            raise Violation(what)
        raise Unsupported(what)

    def buckets(self, st, env):
        """the vector of 2^c - 1 points"""
        k = (1 << self.c) - 1
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.size == k * PSIZE[self.w.g]:
                yield oid

    def hook(self, f, st, env, blk, isback):
        if f.name != self.fn or blk != self.hdr:
            return None
        g, c = self.w.g, self.c
        gh = st.ghost.get("loop")
        if not isback:
            bk = list(self.buckets(st, env))
            if len(bk) != 1:
                self.fail("buckets not recognised")
            bk = bk[0]
            sz = PSIZE[g]
            K = (1 << c) - 1
            for d in range(K):
                if not read_point(st, g, Ptr(bk, sz * d)).iszero():
                    self.fail("%s: bucket %d is not zero when a window starts" % (self.tag, d), True)
            j = st.ghost.get("window", 0)
            # the counter: the local variable compared with the length, zero here
            cnt = self.counter(f, st, env, blk)
            if st.load(cnt, 8) != 0:
                self.fail("%s: the list is not processed from its start" % self.tag, True)
            I = t.var("i%d" % j, 64)
            # an arbitrary iteration
            s = st.copy()
            s.store(cnt, 8, I)
            bo = s.wobj(Ptr(bk, 0))
            saved = dict(bo.cells)
            bo.cells.clear()
            s.ghost = dict(s.ghost)
            s.ghost.pop("alias", None)
            s.ghost["loop"] = (j, I, cnt, bk, {oid: dict(o.cells) for oid, o in s.mem.items()})
            s.assume(t.ult(I, self.n, 64), True)
            # after the loop
            e = st.copy()
            e.store(cnt, 8, self.n)
            e.ghost = dict(e.ghost)
            e.ghost["window"] = j + 1
            for d in range(K):
                write_nf(e, g, Ptr(bk, sz * d), NF(g, {(base(g, "B%d.%d" % (j, d + 1)), 0): 1}))
            return [(s, dict(env)), (e, dict(env))]
        if gh is None:
            self.fail("loop re-entered")
        j, I, cnt, bk, cells = gh
        got = st.load(cnt, 8)
        if got is not t.add(I, 1, 64) and smt.valid(t.eq(got, t.add(I, 1, 64), 64), st.pc)[0] is not True:
            self.fail("%s: the counter does not advance by one" % self.tag)
        al = st.ghost.get("alias")
        # digit of the element
        dig = self.digit(st, j, al)
        for oid, cs in cells.items():
            o = st.mem.get(oid)
            if oid in (cnt.obj,) or o is None or o.cells == cs:
                continue
            if oid == bk:
                self.fail("a bucket other than the digit's changes")
            if o.kind == "heap" or o.kind == "arg":
                self.fail("%s: the loop over the list changes %s" % (self.tag, oid))
            if any(off in cs and o.cells.get(off) != v for off, v in cs.items()) and not self.scratch(cs):
                self.fail("%s: the loop over the list changes the local %s" % (self.tag, oid))
        return []

    def scratch(self, cs):
        return not cs

    def counter(self, f, st, env, blk):
        """the pointer loaded first in the loop header"""
        for I in f.blocks[blk]:
            if I[0] == "load":
                for x in I[1:]:
                    nm = getattr(x, "name", None)
                    v = env.get(nm) if nm is not None else env.get(x) if isinstance(x, str) else None
                    if isinstance(v, Ptr):
                        return v
        self.fail("loop counter not recognised")

    def digit(self, st, j, al):
        """which digit of the scalar selects the bucket, and is the point added to that bucket exactly when it is not zero"""
        g, c = self.w.g, self.c
        x = z3.Concat(*[z3.BitVec("s%d" % i, 64) for i in (3, 2, 1, 0)])
        pt = NF(g, {(base(g, "P_i"), 0): 1})
        mask = (1 << c) - 1
        S = self.w.s
        # the shift in use: found on the first iteration of the window
        def digterm(sh):
            q, b = divmod(sh, 64)
            lo = t.lshr(S[q], b, 64) if q < 4 else 0
            if b + c > 64 and q < 3:
                lo = t.or_(lo, t.shl(S[q + 1], 64 - b, 64), 64)
            return t.and_(lo, mask, 64)
        D = digterm(c * j)
        if al is None:
            ok, det = smt.valid(t.eq(D, 0, 64), st.pc)
            if ok is not True:
                self.verdict(ok, j, "an element whose digit is not zero is skipped")
        else:
            data, i, p, b = al
            ok, det = smt.valid(t.eq(i, t.sub(D, 1, 64), 64), st.pc)
            if ok is not True:
                self.verdict(ok, j, "an element goes to another bucket than its digit's")
            ok, det = smt.valid(t.not_(t.eq(D, 0, 64)), st.pc)
            if ok is not True:
                self.verdict(ok, j, "an element with digit zero goes to a bucket")
            got = read_point(st, g, p)
            want = NF(g, {(b, 0): 1}) + pt
            if got.key() != want.key():
                self.fail("%s: window %d: the bucket does not become bucket + point" % (self.tag, j), True)
        self.shifts[j] = c * j

    def verdict(self, ok, j, what):
        self.fail("%s: window %d: %s" % (self.tag, j, what), ok is False)


def _units():
    for g in (G2, G1):
        w = WSum(g)
        for c in range(9, 2, -1):
            for k, bits in enumerate([None] if c == 3 else range(3 * (c - 2), 3 * (c - 1))):
                for order, wy in ((0, 0), (1, 0), (0, 1)):
                    if wy and k:
                        continue

                    def go(exr, rep, w=w, c=c, bits=bits, order=order, wy=wy):
                        w.one(exr, rep, c, bits, order, wy)
                    props.extra("C06", w.name, "quick" if c < 9 else "thorough")(go)


_units()
