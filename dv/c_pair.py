"""The pairing: line steps, precomputed lines, Miller loop over a list of any length, final exponentiation.

Line coefficients of a step at r (and q):  c * (lam x - y, -lam, 1)  with lam the slope of the tangent / chord and c != 0 in
Fp2 (c is removed by the final exponentiation, as are vertical lines).  The Miller function is then
prod_k (sum over pairs of line_k)^(2^i_k) with i_k the position of the bit of |x| that step k belongs to, conjugated as x < 0."""
import re
import time
from math import gcd
from . import term as t, field as fl, ref, exec as ex, verify, props, smt, c_int
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import prove_eq, UNKNOWN
from .field import fmul, fsq, fadd, fsub, fneg, fscale, one, S1, S2, S12
from .grp import G1, G2, PSIZE, SORT, curve_poly, read_coords, write_coords, isconst
from .c_code import run, frame
P, AX = ref.P, ref.AX
B = "bls12_381::"
PR = B + "pairing::"
C = {}
COEF = "std::array<bls12_381::fp2, 3ul>&"
ELL = "std::array<std::array<bls12_381::fp2, 3ul>, 68ul>&"
TUP = "std::tuple<bls12_381::g1, bls12_381::g2>"
SPAN = "std::span<%s const, 18446744073709551615ul>" % TUP
VELL = "std::vector<%s, std::allocator<%s>>" % ((ELL[:-1],) * 2)
VTUP = "std::vector<%s, std::allocator<%s>>" % (TUP, TUP)
FUN = "std::function<void ()>"
NDBL, NADD = PR + "doubling_step(%s, bls12_381::g2&)" % COEF, PR + "addition_step(%s, bls12_381::g2&, bls12_381::g2 const&)" % COEF
NPRE = PR + "pre_compute(%s, bls12_381::g2 const&)" % ELL
NMIL = PR + "miller_loop(%s, %s)" % (SPAN, FUN)
NFIN = PR + "final_exponentiation(bls12_381::fp12&)"
NCALC = PR + "calculate(%s, %s)" % (SPAN, FUN)
NADDP = PR + "add_pair(%s&, bls12_381::g1 const&, bls12_381::g2 const&)" % VTUP
F12 = B + "fp12"


def reg(c):
    C[c.name] = c
    return c


def at(p, k):
    return Ptr(p.obj, ex.addoff(p.off, k))


def coeffs(st, p):
    return [ex.read_el(st, at(p, 96 * i), S2, "line coefficient") for i in range(3)]


class Over:
    """contracts used while one function is verified"""

    def __init__(self, exr, rep, d):
        self.exr, self.rep, self.d = exr, rep, d

    def __enter__(self):
        self.old = self.exr.contracts
        self.exr.contracts = dict(self.old)
        self.exr.contracts.update(self.d)

    def __exit__(self, *a):
        self.exr.contracts = self.old
        self.rep.used -= {k for k in self.d if k not in self.old}
        self.exr.used -= {k for k in self.d if k not in self.old}


class Fn(Contract):
    def __init__(self, f):
        self.f = f

    def apply(self, exr, st, args, I):
        r = self.f(st, args)
        return r if isinstance(r, list) else [(st, r)]


class Base(Contract):
    home = "C11"

    def start(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
        return fn

    def apply(self, exr, st, args, I):
        raise Unsupported("used only through the contract of its caller")


def hom(q):
    """x, y numerators and z of homogeneous coordinates"""
    X, Y, Z = q
    return fsub(fmul(fsq(Y), Z), fadd(fmul(fsq(X), X), fmul(fl.f2c(4, 4), fmul(fsq(Z), Z))))


class Step(Base):
    """requires: r = (X : Y : Z) homogeneous, on the twist, Y, Z != 0 (addition: q affine on the twist, different x).
    ensures: r becomes 2r (r + q) homogeneous with Z != 0; coefficients c (lam x - y, -lam, 1), c != 0"""

    def __init__(self, name, add):
        self.name, self.add = name, add

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        fl.reset()
        st = exr.base.copy()
        r = tuple(fl.fvar(n, S2) for n in ("X", "Y", "Z"))
        X, Y, Z = r
        pr = st.new(PSIZE[G2], "r", "arg")
        pc = st.new(288, "coeff", "arg")
        write_coords(st, G2, pr, r)
        args = [pc, pr]
        rel, nz = [hom(r)], [Y, Z]
        if self.add:
            q = (fl.fvar("xq", S2), fl.fvar("yq", S2), one(S2))
            pq = st.new(PSIZE[G2], "tp", "arg")
            write_coords(st, G2, pq, q)
            args.append(pq)
            rel.append(hom(q))
            xq, yq = q[:2]
            num, den = fsub(Y, fmul(yq, Z)), fsub(X, fmul(xq, Z))       # slope
            x0, y0 = xq, yq                                            # a point of the line (denominator 1)
            zx = one(S2)
            x1, z1 = X, Z
        else:
            num, den = fscale(fsq(X), 3), fscale(fmul(Y, Z), 2)
            x0, y0, zx = X, Y, Z
            xq, x1, z1 = None, X, Z
        nz = nz + [den]
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, args) or []):
            if not verify.consistent(s):
                continue
            tg = "path%d: " % k
            try:
                c0, c1, c2 = coeffs(s, pc)
                X3, Y3, Z3 = read_coords(s, G2, pr, "result")
            except Violation as e:
                rep.add(self.name, tg + "results are canonical", False, "symexec", 0, str(e))
                continue
            t0 = time.time()

            def eq(what, a, b):
                nonlocal t0
                ok, d = prove_eq(s, a, b, nz, rel)
                rep.add(self.name, tg + what, UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)
                t0 = time.time()
            from .c_group import Facts
            eq("second coefficient is -slope times the third", fmul(c1, den), fneg(fmul(c2, num)))
            # c0 = c2 (lam x0/zx - y0/zx)
            eq("first coefficient", fmul(c0, fmul(den, zx)), fmul(c2, fsub(fmul(num, x0), fmul(y0, den))))
            f = Facts(s, [], nz)
            rep.add(self.name, tg + "the scale of the line is not zero", True if f.nonzero(c2) else UNKNOWN, "poly")
            rep.add(self.name, tg + "the new z is not zero", True if f.nonzero(Z3) else UNKNOWN, "poly")
            # x3 = lam^2 - x1 - x2 ; y3 = lam (x0 - x3) - y0
            if self.add:
                # x3 = num^2/den^2 - X/Z - xq
                D = fmul(fsq(den), Z)
                N = fsub(fmul(fsq(num), Z), fmul(fsq(den), fadd(X, fmul(xq, Z))))
            else:
                D = fmul(fsq(den), Z)
                N = fsub(fmul(fsq(num), Z), fscale(fmul(fsq(den), X), 2))
            eq("x of the new point", fmul(X3, D), fmul(N, Z3))
            # y3 * den * D * zx = num (x0 D - N zx) - y0 den D
            eq("y of the new point", fmul(Y3, fmul(den, fmul(D, zx))), fmul(Z3, fsub(fmul(num, fsub(fmul(x0, D), fmul(N, zx))), fmul(y0, fmul(den, D)))))
            frame(rep, self.name, before, s, {pr.obj, pc.obj}, "path%d" % k)


reg(Step(NDBL, False))
reg(Step(NADD, True))


class PreCompute(Base):
    """requires: q affine of order r, or the identity.  ensures: entry k of the table is the line of the k-th step of the
    double-and-add evaluation of |x| q (untouched for the identity)"""
    name = NPRE

    def steps(self):
        out, n = [], 1
        for i in range(AX.bit_length() - 2, -1, -1):
            out.append(("dbl", n))
            n *= 2
            if AX >> i & 1:
                out.append(("add", n))
                n += 1
        return out

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        want = self.steps()
        rep.add(self.name, "the table has one entry per step", len(want) == 68, "arithmetic")
        pts = {}

        def pt(n):
            if n not in pts:
                pts[n] = tuple(fl.fvar("%s[%d]" % (c, n), S2) for c in "XYZ") if n != 1 else (fl.fvar("xq", S2), fl.fvar("yq", S2), one(S2))
            return pts[n]

        def idx(st, p):
            c = read_coords(st, G2, p)
            for n, q in pts.items():
                if all(a is b for a, b in zip(c, q)):
                    return n
            raise Unsupported("the running point is not a known multiple of q")

        def put(st, pc, pr, what, n, m):
            if n % ref.R == 0 or what == "add" and n % ref.R in (1, ref.R - 1):
                raise Violation("exceptional step %s at %d q" % (what, n), st)
            for i in range(3):
                ex.write_el(st, at(pc, 96 * i), fl.fvar("line.%s.%d.%d" % (what, n, i), S2))
            write_coords(st, G2, pr, pt(m))

        def dbl(st, a):
            n = idx(st, a[1])
            put(st, a[0], a[1], "dbl", n, 2 * n)

        def add(st, a):
            n = idx(st, a[1])
            if idx(st, a[2]) != 1:
                raise Unsupported("addition of another point than q")
            put(st, a[0], a[1], "add", n, n + 1)
        for zero in (False, True):
            fl.reset()
            pts.clear()
            st = exr.base.copy()
            pe = st.new(68 * 288, "ellCoeffs", "arg")
            pq = st.new(PSIZE[G2], "twistPoint", "arg")
            write_coords(st, G2, pq, (fl.fvar("xq", S2), fl.fvar("yq", S2), fl.zero(S2)) if zero else pt(1))
            before = st.copy()
            with Over(exr, rep, {NDBL: Fn(dbl), NADD: Fn(add)}):
                res = run(exr, rep, self.name, fn, st, [pe, pq])
            for k, (s, rv) in enumerate(res or []):
                tg = "%spath%d: " % ("identity " if zero else "", k)
                if zero:
                    frame(rep, self.name, before, s, set(), tg)
                    continue
                bad = []
                for i, (w, n) in enumerate(want):
                    try:
                        c = coeffs(s, at(pe, 288 * i))
                    except Violation:
                        c = None
                    if c is None or any(x is not fl.fvar("line.%s.%d.%d" % (w, n, j), S2) for j, x in enumerate(c)):
                        bad.append(i)
                rep.add(self.name, tg + "the 68 lines of the evaluation of |x| q", not bad, "term identity", 0, "entries %s differ" % bad[:5])
                frame(rep, self.name, before, s, {pe.obj}, tg)


reg(PreCompute())


# ---- values of fp12 as formal products / powers ----------------------------------------------------------

VAL = {}


def val(key):
    """an opaque element of Fp12 standing for `key`"""
    v = fl.fvar("v%d" % len(VAL), S12) if key not in VAL else VAL[key]
    VAL[key] = v
    return v


def meaning(v):
    for k, x in VAL.items():
        if x is v:
            return k
    return None


def get12(st, p, isone):
    v = ex.read_el(st, p, S12)
    k = meaning(v)
    if k is None and isconst12(v):
        return isone
    if k is None:
        raise Unsupported("a value that is not one of the expected products")
    return k


def isconst12(v):
    return v is one(S12) or v.op == "fconst" and v.args[0] == one(S12).args[0]


class Final(Base):
    """requires: f != 0.  ensures: f becomes f^(3 (p^12 - 1) / r)"""
    name = NFIN
    N = P ** 12 - 1
    CYC = (P ** 6 - 1) * (P ** 2 + 1)

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        fl.reset()
        VAL.clear()
        N, CYC = self.N, self.CYC
        g = lambda st, p: get12(st, p, ("e", 0))[1]

        def w(st, p, e):
            ex.write_el(st, p, val(("e", e % N)))

        def power(st, p):
            k = st.load(p, 8)
            if not isinstance(k, int):
                raise Unsupported("Frobenius power is not a constant")
            return k

        def need(e, what):
            if e % CYC:
                raise Violation("precondition of %s: the operand is not in the cyclotomic subgroup" % what)
            return e

        def cexp(st, a):
            s = st.load(a[2], 8)
            if not isinstance(s, int):
                raise Unsupported("exponent is not a constant")
            w(st, a[0], need(g(st, a[1]), "cyclotomicExp") * s)
        c = F12 + " const&"
        ov = {
            F12 + "::frobeniusMap(unsigned long const&) const": lambda s, a: w(s, a[0], g(s, a[1]) * P ** (power(s, a[2]) % 12)),
            F12 + "::frobeniusMapAssign(unsigned long const&)": lambda s, a: w(s, a[0], g(s, a[0]) * P ** (power(s, a[1]) % 12)),
            F12 + "::conjugate() const": lambda s, a: w(s, a[0], g(s, a[1]) * P ** 6),
            F12 + "::inverse() const": lambda s, a: w(s, a[0], -g(s, a[1])),
            F12 + "::square() const": lambda s, a: w(s, a[0], 2 * g(s, a[1])),
            F12 + "::squareAssign()": lambda s, a: w(s, a[0], 2 * g(s, a[0])),
            F12 + "::multiply(%s) const" % c: lambda s, a: w(s, a[0], g(s, a[1]) + g(s, a[2])),
            F12 + "::multiplyAssign(%s)" % c: lambda s, a: w(s, a[0], g(s, a[0]) + g(s, a[1])),
            F12 + "::cyclotomicSquare() const": lambda s, a: w(s, a[0], 2 * need(g(s, a[1]), "cyclotomicSquare")),
            F12 + "::cyclotomicSquareAssign()": lambda s, a: w(s, a[0], 2 * need(g(s, a[0]), "cyclotomicSquare")),
            "%s %s::cyclotomicExp<1ul>(std::array<unsigned long, 1ul> const&) const" % (F12, F12): cexp,
        }
        st = exr.base.copy()
        p = st.new(576, "f", "arg")
        w(st, p, 1)
        before = st.copy()
        with Over(exr, rep, {k: Fn(f) for k, f in ov.items()}):
            res = run(exr, rep, self.name, fn, st, [p])
        want = 3 * (N // ref.R) % N
        for k, (s, rv) in enumerate(res or []):
            try:
                e = g(s, p)
            except Violation as x:
                rep.add(self.name, "path%d: result is canonical" % k, False, "symexec", 0, str(x))
                continue
            rep.add(self.name, "path%d: exponent is 3 (p^12 - 1) / r modulo p^12 - 1" % k, e == want, "integer arithmetic", 0,
                    "exponent differs (%d bits)" % e.bit_length())
            frame(rep, self.name, before, s, {p.obj}, "path%d" % k)


reg(Final())


class Miller(Base):
    """requires: every pair is a pair of affine points different from the identity, the second of order r.
    ensures: the conjugate of the product over the pairs and over the steps k of line_k(P)^(2^i_k); 1 for an empty list"""
    name = NMIL

    def want(self):
        d, k = {}, 0
        for i in range(AX.bit_length() - 2, -1, -1):
            d[k] = 1 << i
            k += 1
            if AX >> i & 1:
                d[k] = 1 << i
                k += 1
        return d

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        fl.reset()
        VAL.clear()
        st = exr.base.copy()
        n = t.var("n", 64)
        st.assume(t.ult(n, 1 << 40, 64), True)
        out = st.new(576, "ret", "arg")
        pp = st.new(None, "pairs", "arg")
        py = st.new(32, "yield", "arg")
        before = st.copy()
        M = List(self, exr, n, pp)
        with Over(exr, rep, M.contracts()):
            old = exr.smt, exr.maxvisits
            exr.smt, exr.maxvisits, exr.loop_hook = c_int.bvdecide, 100000, M.hook
            try:
                res = run(exr, rep, self.name, fn, st, [out, pp, n, py])
            finally:
                exr.smt, exr.maxvisits = old
                exr.loop_hook = None
        want = ("m", tuple(sorted(self.want().items())), (), 1)
        for k, (s, rv) in enumerate(res or []):
            if not verify.consistent(s):
                continue
            t0 = time.time()
            try:
                got = M.get(s, out)
            except Violation as x:
                rep.add(self.name, "path%d: result is canonical" % k, False, "symexec", 0, str(x))
                continue
            if got == ("m", (), (), 0) or got == ("m", (), (), 1):
                ok, d = smt.valid(t.eq(n, 0, 64), s.pc)
                rep.add(self.name, "path%d: one for the empty list only" % k, UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
            else:
                rep.add(self.name, "path%d: conjugated product of the lines to the powers 2^i" % k, got == want, "term identity", 0, "other exponents" if got != want else "")
            frame(rep, self.name, before, s, {out.obj}, "path%d" % k)
        rep.add(self.name, "loops over the list", M.loops >= 1 if res else UNKNOWN, "symexec", 0, "%d" % M.loops)


class List:
    """the list of pairs and its table of lines, seen through an arbitrary element in every loop over the list"""

    def __init__(self, c, exr, n, pp):
        self.c, self.exr, self.n, self.pp, self.loops, self.trial = c, exr, n, pp, 0, None

    def get(self, st, p):
        return get12(st, p, ("m", (), (), 0))

    def w(self, st, p, key):
        ex.write_el(st, p, val(key))

    def gh(self, st, k, v):
        st.ghost = dict(st.ghost)
        st.ghost[k] = v

    def inrange(self, st, i, what):
        if smt.valid(t.ult(i, self.n, 64), st.pc)[0] is not True:
            ok = smt.valid(t.ult(i, self.n, 64), st.pc)[0]
            if ok is False:
                raise Violation("%s index may be out of range" % what, st)
            raise Unsupported(what + " index")

    def name(self, i):
        return "#%s" % (i if isinstance(i, int) else i.args[0] if i.op == "var" else i.id)

    def pair(self, st, i):
        self.inrange(st, i, "list")
        key = ("pair", self.name(i))
        p = st.ghost.get(key)
        if p is None:
            p = st.new(PSIZE[G1] + PSIZE[G2], "pairs[%s]" % key[1], "arg")
            write_coords(st, G2, p, tuple(fl.fvar(c + key[1], S2) for c in ("xq", "yq")) + (one(S2),))
            write_coords(st, G1, at(p, PSIZE[G2]), tuple(fl.fvar(c + key[1], S1) for c in ("xp", "yp")) + (one(S1),))
            self.gh(st, key, p)
        return p

    def at(self, st, a):
        if st.load(a[0], 8) != self.pp or st.load(at(a[0], 8), 8) is not self.n:
            raise Unsupported("element of another list")
        return self.pair(st, a[1])

    def row(self, st, i):
        if st.ghost.get("rows") is None:
            raise Violation("the table of lines is used before it is sized", st)
        self.inrange(st, i, "table")
        key = ("row", self.name(i))
        p = st.ghost.get(key)
        if p is None:
            p = st.new(68 * 288, "ell[%s]" % key[1], "arg")
            if st.ghost["rows"] == "done":
                for k in range(68):
                    for c in range(3):
                        ex.write_el(st, at(p, 288 * k + 96 * c), fl.fvar("L%s.%d.%d" % (key[1], k, c), S2))
            self.gh(st, key, p)
        return p

    def resize(self, st, a):
        if a[1] is not self.n and smt.valid(t.eq(a[1], self.n, 64), st.pc)[0] is not True:
            raise Unsupported("size of the table")
        self.gh(st, "rows", "blank")

    def pre(self, st, a):
        for k, p in list(st.ghost.items()):
            if isinstance(k, tuple) and k[0] == "row" and p.obj == a[0].obj and a[0].off == 0:
                q = st.ghost.get(("pair", k[1]))
                if q is not None and q.obj == a[1].obj and a[1].off == 0:
                    self.gh(st, "events", st.ghost.get("events", ()) + (("pre", k[1]),))
                    return
        raise Unsupported("pre_compute on something else than row i and pair i")

    def line(self, st, a):
        k = self.get(st, a[0])
        e0, e1, e4 = (ex.read_el(st, x, S2) for x in a[1:])
        for kk, p in st.ghost.items():
            if isinstance(kk, tuple) and kk[0] == "pair":
                x, y = (fl.fvar(c + kk[1], S1) for c in ("xp", "yp"))
                for j in range(68):
                    L = [fl.fvar("L%s.%d.%d" % (kk[1], j, c), S2) for c in range(3)]
                    if e0 is L[0]:
                        ok = True
                        for got, l, co in ((e1, L[1], x), (e4, L[2], y)):
                            r, d = prove_eq(st, got, fl.mk2(fmul(fl.comp(l, 0), co), fmul(fl.comp(l, 1), co)))
                            ok = ok and r
                        if ok is not True:
                            raise Unsupported("line is not evaluated as expected")
                        self.w(st, a[0], ("m", k[1], tuple(sorted(k[2] + ((kk[1], j),))), k[3]))
                        return
        raise Unsupported("multiplication by something else than a line of the list")

    def sq(self, st, out, p):
        k = self.get(st, p)
        if k[2]:
            raise Unsupported("squaring within a loop over the list")
        self.w(st, out, ("m", tuple((i, 2 * e) for i, e in k[1]), (), k[3]))

    def conj(self, st, out, p):
        k = self.get(st, p)
        self.w(st, out, k[:3] + (1 - k[3],))

    def yields(self, st, a):
        r = []
        for v in (1, 0):
            s = st.copy()
            try:
                s.assume(t.var("yield", 1), bool(v))
            except Infeasible:
                continue
            r.append((s, v))
        return r

    def contracts(self):
        f = F12
        d = {
            SPAN + "::operator[](unsigned long) const": self.at,
            VELL + "::vector()": lambda s, a: self.gh(s, "vec", a[0]),
            VELL + "::vector(unsigned long, std::allocator<%s> const&)" % ELL[:-1]: lambda s, a: (self.gh(s, "vec", a[0]), self.resize(s, a))[1],
            VELL + "::operator[](unsigned long) const": lambda s, a: self.row(s, a[1]),
            VELL + "::at(unsigned long)": lambda s, a: self.row(s, a[1]),
            VELL + "::at(unsigned long) const": lambda s, a: self.row(s, a[1]),
            VELL + "::size() const": lambda s, a: self.n if s.ghost.get("rows") is not None else 0,
            VELL + "::~vector()": lambda s, a: None,
            VELL + "::resize(unsigned long)": self.resize,
            VELL + "::operator[](unsigned long)": lambda s, a: self.row(s, a[1]),
            FUN + "::operator bool() const": self.yields,
            FUN + "::operator()() const": lambda s, a: None,
            NPRE: self.pre,
            f + "::mulBy014Assign(%s, %s, %s)" % ((B + "fp2 const&",) * 3): self.line,
            f + "::square() const": lambda s, a: self.sq(s, a[0], a[1]),
            f + "::squareAssign()": lambda s, a: self.sq(s, a[0], a[0]),
            f + "::conjugate() const": lambda s, a: self.conj(s, a[0], a[1]),
            f + "::one()": lambda s, a: self.w(s, a[0], ("m", (), (), 0)),
        }
        return {k: Fn(v) for k, v in d.items()}

    # loops over the list ------------------------------------------------------------------
    def islist(self, f, blk):
        body = f.loops[blk]
        mod = self.exr.mod
        for h, b2 in f.loops.items():
            if h != blk and h in body:
                return False
        for b in body:
            for I in f.blocks[b]:
                if I[0] in ("call", "invoke"):
                    nm = next((getattr(x, "name", None) for x in I[1:] if getattr(x, "name", None)), None)
                    if nm and mod.dem.get(nm, "") == SPAN + "::operator[](unsigned long) const":
                        return True
        return False

    def counter(self, f, st, env, blk):
        for I in f.blocks[blk]:
            if I[0] == "load":
                for x in I[1:]:
                    nm = getattr(x, "name", None)
                    v = env.get(nm) if nm is not None else env.get(x) if isinstance(x, str) else None
                    if isinstance(v, Ptr):
                        return v
        raise Unsupported("loop counter not recognised")

    def scan(self, st, f, env, blk, cnt):
        """one iteration from an arbitrary counter: states at the back edges"""
        key = (f.name, blk, len(self.exr.stack))
        backs = []
        self.trial = (key, backs)
        try:
            self.exr._loop_trial(f, st, dict(env), blk)
        finally:
            self.trial = None
        return backs

    def hook(self, f, st, env, blk, isback):
        if self.trial is not None:
            if self.trial[0] == (f.name, blk, len(self.exr.stack)) and isback:
                self.trial[1].append((st, env))
                return []
            return None
        if isback or blk not in f.loops or not self.islist(f, blk):
            return None
        self.loops += 1
        cnt = self.counter(f, st, env, blk)
        if st.load(cnt, 8) != 0:
            raise Unsupported("the list is not processed from its start")
        J = t.var("J%d" % self.loops, 64)
        jn = self.name(J)
        s = st.copy()
        s.store(cnt, 8, J)
        s.assume(t.ult(J, self.n, 64), True)
        s.ghost = dict(s.ghost)
        s.ghost["events"] = ()
        # what does an iteration change?
        changed = {}
        for s2, _ in self.scan(s.copy(), f, env, blk, cnt):
            for oid, o in s.mem.items():
                o2 = s2.mem.get(oid)
                if o2 is not None and o2 is not o:
                    d = {k for k in set(o.cells) | set(o2.cells) if o.cells.get(k) != o2.cells.get(k)}
                    if d:
                        changed.setdefault(oid, set()).update(d)
        changed.pop(cnt.obj, None)
        accs = {}
        for oid in changed:
            o = st.mem[oid]
            if o.size == 576:
                try:
                    accs[oid] = self.get(st, Ptr(oid, 0))
                except (Violation, Unsupported):
                    pass
        if any(len(v[2]) for v in accs.values()):
            raise Unsupported("nested loops over the list")
        scratch = {oid: c for oid, c in changed.items() if oid not in accs}
        # arbitrary iteration: scratch memory holds anything
        for oid, cs in scratch.items():
            o = s.wobj(Ptr(oid, 0))
            if o.kind == "arg":
                raise Unsupported("the loop over the list writes %s" % oid)
            for k in cs:
                w = o.cells[k][0] if k in o.cells else 8
                o.cells[k] = (w, t.var("scratch%d.%s.%d" % (self.loops, oid, k), 8 * w))
        backs = self.scan(s.copy(), f, env, blk, cnt)
        if not backs:
            raise Unsupported("loop without a back edge")
        res = set()
        for s2, _ in backs:
            c2 = s2.load(cnt, 8)
            if smt.valid(t.eq(c2, t.add(J, 1, 64), 64), s2.pc)[0] is not True:
                raise Unsupported("the counter does not advance by one")
            ev = s2.ghost.get("events", ())
            delta = []
            for oid in sorted(accs):
                g = self.get(s2, Ptr(oid, 0))
                if g[1] != accs[oid][1] or g[3] != accs[oid][3] or any(nm != jn for nm, _ in g[2]):
                    raise Unsupported("an iteration does something else than multiplying by lines of its pair")
                delta.append((oid, tuple(j for _, j in g[2])))
            for oid, o in s.mem.items():
                o2 = s2.mem.get(oid)
                if o2 is not None and o2.cells != o.cells and oid not in accs and oid != cnt.obj and oid not in scratch:
                    raise Unsupported("an iteration changes %s" % oid)
            if any(x != ("pre", jn) for x in ev) or len(ev) > 1:
                raise Unsupported("precomputation of another pair")
            res.add((tuple(delta), ev != ()))
        if len(res) != 1:
            raise Unsupported("iterations differ")
        delta, pre = res.pop()
        # after the loop (n iterations)
        e = st.copy()
        e.store(cnt, 8, self.n)
        for oid, cs in scratch.items():
            o = e.wobj(Ptr(oid, 0))
            for k in cs:
                w = o.cells[k][0] if k in o.cells else 8
                o.cells[k] = (w, t.var("scratch%d'.%s.%d" % (self.loops, oid, k), 8 * w))
        for oid, js in delta:
            d = dict(accs[oid][1])
            for j in js:
                d[j] = d.get(j, 0) + 1
            self.w(e, Ptr(oid, 0), ("m", tuple(sorted(d.items())), (), accs[oid][3]))
        if pre:
            if e.ghost.get("rows") != "blank":
                raise Unsupported("precomputation of a table already in use")
            self.gh(e, "rows", "done")
        return [(e, dict(env))]


reg(Miller())


class Calculate(Base):
    """ensures: 1 for the empty list, otherwise the final exponentiation of the Miller function of the whole list"""
    name = NCALC

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        fl.reset()
        VAL.clear()
        st = exr.base.copy()
        n = t.var("n", 64)
        st.assume(t.ult(n, 1 << 40, 64), True)
        out = st.new(576, "ret", "arg")
        pp = st.new(None, "pairs", "arg")
        py = st.new(32, "yield", "arg")
        before = st.copy()

        def miller(s, a):
            if a[1] != pp:
                raise Unsupported("Miller loop over another list")
            ok, d = smt.valid(t.eq(a[2], n, 64), s.pc)
            if ok is not True:
                if ok is False:
                    raise Violation("the Miller loop does not cover the whole list (%s)" % d, s)
                raise Unsupported("length of the list")
            ex.write_el(s, a[0], val("miller"))

        def final(s, a):
            v = ex.read_el(s, a[0], S12)
            k = meaning(v)
            if k is None:
                if isconst12(v):
                    return
                raise Unsupported("final exponentiation of something else")
            ex.write_el(s, a[0], val(("final", k)))
        ov = {NMIL: Fn(miller), NFIN: Fn(final), FUN + "::function(%s const&)" % FUN: Fn(lambda s, a: None), FUN + "::~function()": Fn(lambda s, a: None),
              FUN + "::function(%s&&)" % FUN: Fn(lambda s, a: None)}
        with Over(exr, rep, ov):
            old = exr.smt
            exr.smt = c_int.bvdecide
            try:
                res = run(exr, rep, self.name, fn, st, [out, pp, n, py])
            finally:
                exr.smt = old
        for k, (s, rv) in enumerate(res or []):
            if not verify.consistent(s):
                continue
            v = ex.read_el(s, out, S12)
            if meaning(v) == ("final", "miller"):
                rep.add(self.name, "path%d: final exponentiation of the Miller function" % k, True, "term identity")
            elif isconst12(v):
                ok, d = smt.valid(t.eq(n, 0, 64), s.pc)
                rep.add(self.name, "path%d: one for the empty list only" % k, UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
            else:
                rep.add(self.name, "path%d: result" % k, False, "term identity", 0, "value is %r" % (meaning(v),))
            frame(rep, self.name, before, s, {out.obj}, "path%d" % k)


reg(Calculate())


def append_models(exr, emplace):
    """the ways of appending a pair to the list: emplace(state, [list, address of the g1, address of the g2])"""
    def whole(s, a):
        return emplace(s, [a[0], at(a[1], PSIZE[G2]), a[1]])
    ov = {}
    for c in exr.mod.dem.values():
        if "vector<std::tuple<bls12_381::g1, bls12_381::g2>" in c and ">>::" in c:
            m = c.split(">>::", 1)[1]
            if m.startswith("emplace_back<bls12_381::g1, bls12_381::g2>") or re.match(r"emplace_back<bls12_381::g1( const)?&?, bls12_381::g2( const)?&?>", m):
                ov[c] = Fn(emplace)
            elif m.startswith("push_back(") or re.match(r"emplace_back<std::tuple<bls12_381::g1, bls12_381::g2>( const)?&?>", m):
                ov[c] = Fn(whole)
    return ov


class AddPair(Base):
    """ensures: appends the pair (affine form of e1, affine form of e2) unless one of the two is the identity"""
    name = NADDP

    def verify(self, exr, rep):
        from .grp import base, pco, nfof, afc
        fn = self.start(exr, rep)
        if fn is None:
            return
        fl.reset()
        st = exr.base.copy()
        pv = st.new(24, "pairs", "arg")
        bs, ps = {}, {}
        for g, nm in ((G1, "e1"), (G2, "e2")):
            bs[g] = base(g, nm)
            ps[g] = st.new(PSIZE[g], nm, "arg")
            write_coords(st, g, ps[g], tuple(pco(bs[g], k) for k in range(3)))
        before = st.copy()

        def emplace(s, a):
            if a[0] != pv:
                raise Unsupported("another list")
            a = a[1:]
            s.ghost = dict(s.ghost)
            s.ghost["emplaced"] = s.ghost.get("emplaced", ()) + (tuple((read_coords(s, g, p)) for g, p in zip((G1, G2), a)),)
            return s.new(8, "back", "arg")
        ov = append_models(exr, emplace)
        with Over(exr, rep, ov):
            res = run(exr, rep, self.name, fn, st, [pv, ps[G1], ps[G2]])
        from .c_group import represents
        for k, (s, rv) in enumerate(res or []):
            if not verify.consistent(s):
                continue
            ev = s.ghost.get("emplaced", ())
            z = [s.decide(fl.fzero_atom(pco(bs[g], 2))) for g in (G1, G2)]
            tg = "path%d: " % k
            if True in z:
                rep.add(self.name, tg + "nothing is appended for the identity", not ev, "symexec")
            elif z != [False, False]:
                rep.add(self.name, tg + "identity test", UNKNOWN, "symexec", 0, "%r" % (z,))
            else:
                rep.add(self.name, tg + "one pair is appended", len(ev) == 1, "symexec", 0, "%d" % len(ev))
                for g, c in zip((G1, G2), ev[0] if ev else ()):
                    rep.add(self.name, tg + "affine coordinates g%d" % g, True if isconst(c[2], 1) or c[2] is one(SORT[g]) else UNKNOWN, "poly", 0, "z = %r" % c[2])
                    n = nfof(bs[g])
                    ok, d = all(prove_eq(s, c[i], afc(n, i))[0] is True for i in (0, 1)), ""
                    if not ok:
                        ok, d = represents(s, g, c, n)
                    rep.add(self.name, tg + "same point g%d" % g, UNKNOWN if ok is None else ok, "poly", 0, d)
            frame(rep, self.name, before, s, set(), tg)


reg(AddPair())


def lemmas(exr, rep):
    nm = "pairing"
    r = ref.R

    def ok(what, v, by="integer arithmetic"):
        rep.add(nm, what, bool(v), by)
    ok("r divides p^12 - 1 and p^4 - p^2 + 1", (P ** 12 - 1) % r == 0 and (P ** 4 - P ** 2 + 1) % r == 0)
    ok("the exponent 3 is prime to r", gcd(3, r) == 1)
    ok("the final exponent removes factors in Fp2 (scales of lines) and Fp6 (verticals)", (3 * ((P ** 12 - 1) // r)) % (P ** 2 - 1) == 0 and (3 * ((P ** 12 - 1) // r)) % (P ** 6 - 1) == 0)
    x = -AX
    ok("p = x modulo r: the ate loop length", (P - x) % r == 0)
    ok("the trace is x + 1", (P + 1 - (x + 1)) % r == 0 and (x + 1) ** 2 <= 4 * P)
    k = 1
    while pow(P, k, r) != 1:
        k += 1
    ok("the embedding degree is 12", k == 12)
    # the untwisting map: (x w^-2, y w^-3) with w^6 = 1 + u takes y^2 = x^3 + 4(1+u) to y^2 = x^3 + 4
    w = ref.W12
    w6 = ref.f12one if hasattr(ref, "f12one") else ref.F12O
    for _ in range(6):
        w6 = ref.f12mul(w6, w)
    ok("w^6 = 1 + u: the untwisting map takes the twist to the curve", w6 == ref.emb2((1, 1)), "field arithmetic")


props.extra("C11", "pairing parameters")(lemmas)
