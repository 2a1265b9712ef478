"""Maps from field elements to the curves, cofactor clearing and message hashing (C10)."""
import time
import z3
from . import term as t, field as fl, ref, exec as ex, verify, props, smt, grp, isoconst, bytestr
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import prove_eq, prove_bool, UNKNOWN
from .field import fmul, fsq, fadd, fsub, fneg, f1, f2c, zero, one, comp
from .grp import *
from .c_group import B, CLS, represents, isz, Facts
from .c_code import run, frame
from .c_map import rmul, ideal, member, annihilator
from .c_sqrt import lex
P = ref.P
C = {}
P = ref.P
C = {}
MP8 = B + "fp " + B + "fp::modPrime<8ul>(std::array<unsigned long, 8ul> const&)"
A1 = {G1: f1(ref.ISO_A1), G2: f2c(*ref.ISO_A2)}
B1 = {G1: f1(ref.ISO_B1), G2: f2c(*ref.ISO_B2)}
ZZ = {G1: f1(ref.Z1), G2: f2c(*ref.Z2)}
ISO = {G1: isoconst.ISO1, G2: isoconst.ISO2}


def reg(c):
    C[c.name] = c
    return c


def gcon(g, v):
    return f1(v) if g == G1 else f2c(*v)


# ---- sign of a field element -------------------------------------------------------------------

def sgn(x):
    """the canonical integer of x is odd (x in F_p)"""
    if x.op == "fconst":
        return x.args[0] & 1
    k = tuple(tuple(sorted(q.d.items())) for q in fl.vec(x))
    return mk("fsgn", (fl._sqrep.setdefault(("sgn",) + k, x),), 1)


class Sign1(Contract):
    """returns: the canonical integer is even"""
    home = "C10"
    name = B + "fp::sign() const"

    def apply(self, exr, st, args, I):
        x = ex.read_el(st, args[0], S1, "argument of sign")
        if st.decide(isz(x)):
            return [(st, 1)]
        return [(s, 1 - int(v)) for v, s in sgn_cases(st, x)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        px = st.new(48, "x", "arg")
        x = verify.symbol("x", S1)
        ex.write_el(st, px, x)
        before = st.copy()
        v = fmul(x, f1(ref.MRI))
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [px]) or []):
            t0 = time.time()
            enc = smt.Enc()
            sol = z3.Solver()
            sol.set("timeout", 60000)
            try:
                X = z3.Concat(*[enc.e(ex.limb(v, 1, i), 64) for i in reversed(range(6))])
                sol.add(z3.ULT(X, P))
                for c, val in s.pc:
                    sol.add(enc.e(c, 1) == (1 if val else 0))
                r = enc.e(rv, 1) if isinstance(rv, T) else z3.BitVecVal(rv & 1, 1)
            except NotImplementedError as e:
                rep.add(self.name, "result (path %d)" % k, UNKNOWN, "z3 bit-vectors", 0, str(e))
                continue
            sol.add(z3.Not((r == 1) == (z3.Extract(0, 0, X) == 0)))
            q = sol.check()
            rep.add(self.name, "true iff the canonical integer is even (path %d)" % k, True if q == z3.unsat else False if q == z3.sat else UNKNOWN, "z3 bit-vectors", time.time() - t0)
            frame(rep, self.name, before, s, set(), "path %d" % k)


class Sign2(Contract):
    """returns: the first non-zero coordinate is even (or the element is zero)"""
    home = "C10"
    name = B + "fp2::sign() const"

    def apply(self, exr, st, args, I):
        x = ex.read_el(st, args[0], S2, "argument of sign")
        out = []
        for s, c in first_nonzero(st, x):
            out += [(s, 1)] if s.decide(isz(c)) else [(s2, 1 - int(v)) for v, s2 in sgn_cases(s, c)]
        return out

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        px = st.new(96, "x", "arg")
        x = verify.symbol("x", S2)
        ex.write_el(st, px, x)
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [px]) or []):
            if not verify.consistent(s):
                continue
            for s2, c in first_nonzero(s, x):
                enc = smt.Enc()
                sol = z3.Solver()
                sol.set("timeout", 60000)
                try:
                    X = z3.Concat(*[enc.e(ex.limb(fmul(c, f1(ref.MRI)), 1, i), 64) for i in reversed(range(6))])
                    sol.add(z3.ULT(X, P))
                    for a, val in s2.pc:
                        if a.op != "fzero":
                            sol.add(enc.e(a, 1) == (1 if val else 0))
                    if s2.decide(isz(c)):
                        sol.add(X == 0)
                    r = enc.e(rv, 1) if isinstance(rv, T) else z3.BitVecVal(rv & 1, 1)
                except NotImplementedError as e:
                    rep.add(self.name, "result (path %d)" % k, UNKNOWN, "z3 bit-vectors", 0, str(e))
                    continue
                sol.add(z3.Not((r == 1) == (z3.Extract(0, 0, X) == 0)))
                # x + 0 is odd exactly when sgn literals say so: tie them to the words
                for a in list(enc.vars.values()):
                    if a[0].op == "fsgn":
                        pass
                q = sol.check()
                rep.add(self.name, "parity of the first non-zero coordinate (path %d)" % k, True if q == z3.unsat else self.by_atoms(s2, rv, c), "z3 bit-vectors / case analysis")
            frame(rep, self.name, before, s, set(), "path %d" % k)

    @staticmethod
    def by_atoms(s, rv, c):
        q = sgn(c) if not s.decide(isz(c)) else 0
        ok, _ = prove_bool(s, rv, t.not_(q) if isinstance(q, T) else 1 - q)
        return UNKNOWN if ok is None else ok


def cases(st, lit):
    d = lit if isinstance(lit, int) else st.decide(lit)
    if d is not None:
        yield bool(d), st
        return
    for v in (True, False):
        s = st.copy()
        try:
            s.assume(lit, v)
        except Infeasible:
            continue
        if verify.consistent(s):
            yield v, s


def sgn_cases(st, c):
    d = decide_sgn(st, c) if st.decide(isz(c)) is False else None
    return [(d, st)] if d is not None else list(cases(st, sgn(c)))


def first_nonzero(st, x):
    if x.w == S1:
        yield st, x
        return
    for v, s in cases(st, isz(comp(x, 0))):
        yield s, comp(x, 1 if v else 0)


def decide_sgn(s, c):
    """0/1/None for an F_p element that is not zero; the opposite of a non-zero element has the other parity"""
    if c.op == "fconst":
        return c.args[0] & 1
    a, b = s.decide(sgn(c)), s.decide(sgn(fneg(c)))
    return int(a) if a is not None else None if b is None else 1 - int(b)


reg(Sign1())
reg(Sign2())


# ---- simplified SWU -----------------------------------------------------------------------------

def gprime(g, x):
    return fadd(fmul(fadd(fsq(x), A1[g]), x), B1[g])


def swu_atoms(g, u):
    k = tuple(tuple(sorted(q.d.items())) for q in fl.vec(u))
    u = fl._sqrep.setdefault(("swu", g) + k, u)
    return mk("fop", ("swx", u, g), SORT[g]), mk("fop", ("swy", u, g), SORT[g])


def no_root(g):
    """x^3 + A'x + B' has no root in the field: gcd with x^q - x is one"""
    import functools
    d = g
    q = P**d
    mul, add, sub, inv = (lambda a, b: a * b % P, lambda a, b: (a + b) % P, lambda a, b: (a - b) % P, lambda a: pow(a, -1, P)) if g == G1 else (ref.f2mul, ref.f2add, ref.f2sub, ref.f2inv)
    z, o = (0, 1) if g == G1 else ((0, 0), (1, 0))
    A, Bc = A1[g].args[0], B1[g].args[0]

    def m3(a, b):
        r = [z] * 5
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = add(r[i + j], mul(x, y))
        for k in (4, 3):                      # x^3 = -A x - B
            r[k - 2] = sub(r[k - 2], mul(r[k], A))
            r[k - 3] = sub(r[k - 3], mul(r[k], Bc))
        return r[:3]
    r, b, e = [o, z, z], [z, o, z], q
    while e:
        if e & 1:
            r = m3(r, b)
        b = m3(b, b)
        e >>= 1
    f = [r[0], sub(r[1], o), r[2]]
    # gcd(f, cubic) = 1: f is invertible modulo the cubic (its norm, a resultant, is not zero)
    cols = [f, m3(f, [z, o, z]), m3(f, [z, z, o])]
    det = z
    for s_, p_ in ((1, (0, 1, 2)), (1, (1, 2, 0)), (1, (2, 0, 1)), (-1, (0, 2, 1)), (-1, (1, 0, 2)), (-1, (2, 1, 0))):
        v = mul(mul(cols[0][p_[0]], cols[1][p_[1]]), cols[2][p_[2]])
        det = add(det, v) if s_ > 0 else sub(det, v)
    return det != z


class Swu(Contract):
    """ensures (x, y) is the simplified-SWU image of u: with t = Z u^2, x1 = (-B/A)(1 + 1/(t^2 + t)) (B/(ZA) when t^2 + t = 0),
    x is x1 if g'(x1) is a square and t x1 otherwise, y^2 = g'(x), and y has the sign of u"""
    home = "C10"

    def __init__(self, g):
        self.g = g
        self.name = "%s%s::swuMapG%d(bls12_381::fp%s const&)" % (B, CLS[g], g, "" if g == G1 else "2")

    def coords(self, out):
        n = ex.SIZES[SORT[self.g]]
        return Ptr(out.obj, ex.addoff(out.off, n)), Ptr(out.obj, out.off)         # std::tuple stores the last element first

    def apply(self, exr, st, args, I):
        u = ex.read_el(st, args[1], SORT[self.g], "argument of " + self.name)
        x, y = swu_atoms(self.g, u)
        px, py = self.coords(args[0])
        ex.write_el(st, px, x)
        ex.write_el(st, py, y)
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        S = SORT[g]
        n = ex.SIZES[S]
        fl.reset()
        st = exr.base.copy()
        out, pu = st.new(2 * n, "ret", "arg"), st.new(n, "u", "arg")
        u = verify.symbol("u", S)
        ex.write_el(st, pu, u)
        before = st.copy()
        tt = fmul(ZZ[g], fsq(u))
        den = fadd(fsq(tt), tt)
        for k, (s0, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, pu]) or []):
            if not verify.consistent(s0):
                continue
            frame(rep, self.name, before, s0, {out.obj}, "path%d" % k)
            for v, s in cases(s0, isz(den)):
                if s.decide(isz(fl.finv(den))) not in (None, v):
                    continue                              # the inverse is zero exactly for zero
                tag = "path%d%s" % (k, ", exceptional u" if v else "")
                self.post(rep, s, out, u, tt, den, v, tag)

    def post(self, rep, s, out, u, tt, den, exc, tag):
        g = self.g
        S = SORT[g]
        t0 = time.time()
        k0 = fmul(fneg(B1[g]), fl.finv(A1[g]))
        x1 = fmul(B1[g], fl.finv(fmul(ZZ[g], A1[g]))) if exc else fmul(k0, fadd(one(S), fl.finv(den)))
        g1_ = gprime(g, x1)
        # g' has no roots: paths that assume one do not occur
        for lit, v in s.pc:
            if lit.op == "fzero" and v and prove_eq(s, lit.args[0], g1_, [den] if not exc else [])[0]:
                rep.add(self.name, tag + ": g' has no root", True, "lemma")
                return
        px, py = self.coords(out)
        try:
            X, Y = ex.read_el(s, px, S, "result"), ex.read_el(s, py, S, "result")
        except Violation as e:
            rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
            return
        nz = [] if exc else [den]
        sq = None
        for lit, v in s.pc:
            if lit.op == "issq" and prove_eq(s, lit.args[0], g1_, nz)[0]:
                sq = v
        q = fl.issq(g1_)
        if sq is None:
            sq = bool(q) if isinstance(q, int) else s.decide(q)
        if sq is None:
            rep.add(self.name, tag + ": the choice depends on whether g'(x1) is a square", UNKNOWN, "symexec", 0, "the path does not decide it")
            return
        if exc and not sq:
            rep.add(self.name, tag + ": g'(B/(ZA)) is a square", False, "integers")
            return
        x = x1 if sq else fmul(tt, x1)
        ok, d = prove_eq(s, X, x, nz)
        rep.add(self.name, "%s: x, g'(x1) %sa square" % (tag, "" if sq else "not "), UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)
        # a square root was taken of some w with w = g'(x); when g'(x1) is no square, t^3 g'(x1) is one (Z is a non-square, u != 0)
        zs = []
        for a in sqrt_atoms([Y]):
            w = a.args[1]
            ok, d = prove_eq(s, w, gprime(g, x), nz)
            ok2 = sq or prove_eq(s, w, fmul(fmul(fsq(tt), tt), g1_), nz)[0]
            if ok is True and ok2 is True:
                zs += [fsub(fsq(a), w)]
        ok, d = prove_eq(s, fsq(Y), gprime(g, x), nz, zs)
        rep.add(self.name, "%s: y^2 = g'(x)" % tag, UNKNOWN if ok is None else ok, "poly + character of Z", time.time() - t0, d)
        for s2, cu in first_nonzero(s, u):
            for zu, s3 in cases(s2, isz(cu)):
                for s4, cy in first_nonzero(s3, Y):
                    if s4.decide(isz(cy)) or prove_eq(s4, cy, zero(S1))[0]:
                        continue                     # y = 0 does not occur
                    if zu and s4.decide(sgn(cu)) is True:
                        continue                     # infeasible: the sign of 0 is 0
                    a, b = 0 if zu else decide_sgn(s4, cu), decide_sgn(s4, cy)
                    if a is None and b is None:      # equal without being known
                        q1, q2 = sgn(cu), sgn(cy)
                        ok = None
                    else:
                        ok = None if a is None or b is None else a == b
                    rep.add(self.name, "%s: y has the sign of u" % tag, UNKNOWN if ok is None else ok, "case analysis", 0, "signs %s %s" % (a, b))


def sqrt_atoms(ts):
    seen, out, stk = set(), [], list(ts)
    while stk:
        x = stk.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fop" and x.args[0] == "sqrt":
            out.append(x)
        stk += [a for a in x.args if isinstance(a, T)]
    return out


# ---- isogenies ------------------------------------------------------------------------------------

def horner(g, cs, x):
    r = None
    for c in reversed(cs):
        c = gcon(g, c)
        r = c if r is None else fadd(fmul(r, x), c)
    return r


def trim(cs):
    cs = list(cs)
    while cs and cs[-1] in (0, (0, 0)):
        cs.pop()
    return cs


def iso_base(g, x, y):
    b = mk("pbase", (("iso", x, y), g), 0)
    grp._nf[b] = NF(g, {(b, 0): 1})
    return b


def on_prime(st, g, x, y, fn):
    zs = []
    for q in (x, y):
        if q.op == "fop" and q.args[0] in ("swx", "swy"):
            a, b = swu_atoms(g, q.args[1])
            zs.append(fsub(fsq(b), gprime(g, a)))
    ok, d = prove_eq(st, fsq(y), gprime(g, x), zeros=zs)
    if ok is not True:
        raise Violation("precondition of %s: operand is not shown to be on the isogenous curve" % fn, st)


class Iso1(Contract):
    """requires (x, y) on the isogenous curve.  ensures: (x, y) is replaced by its image under the 11-isogeny; (0, 0) for points
    of the kernel"""
    home = "C10"
    g = G1
    name = B + "g1::isogenyMapG1(bls12_381::fp&, bls12_381::fp&)"

    def apply(self, exr, st, args, I):
        x, y = ex.read_el(st, args[0], S1, "x"), ex.read_el(st, args[1], S1, "y")
        on_prime(st, G1, x, y, self.name)
        b = iso_base(G1, x, y)
        out = []
        for v, s in cases(st, isz(pco(b, 2))):
            s = s.copy()
            n = nfof(b)
            ex.write_el(s, args[0], zero(S1) if v else afc(n, 0))
            ex.write_el(s, args[1], zero(S1) if v else afc(n, 1))
            out.append((s, None))
        return out

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        px, py = st.new(48, "x", "arg"), st.new(48, "y", "arg")
        x, y = verify.symbol("x", S1), verify.symbol("y", S1)
        ex.write_el(st, px, x)
        ex.write_el(st, py, y)
        before = st.copy()
        xn, xd, yn, yd = (horner(G1, trim(c), x) for c in ISO[G1])
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [px, py]) or []):
            if not verify.consistent(s):
                continue
            frame(rep, self.name, before, s, {px.obj, py.obj}, "path%d" % k)
            for v, s2 in cases(s, isz(xd)):
                try:
                    X, Y = ex.read_el(s2, px, S1, "result"), ex.read_el(s2, py, S1, "result")
                except Violation as e:
                    rep.add(self.name, "result is canonical", False, "symexec", 0, str(e))
                    continue
                tag = "path%d%s" % (k, ", kernel" if v else "")
                if v:                                    # the y denominator vanishes with the x denominator (lemma)
                    for z2, s3 in cases(s2, isz(yd)):
                        if not z2:
                            continue
                        for nm, q in (("x", X), ("y", Y)):
                            ok, d = zero_in(s3, q, [xd, yd])
                            rep.add(self.name, tag + ": %s is zero" % nm, UNKNOWN if ok is None else ok, "poly", 0, d)
                    continue
                for z2, s3 in cases(s2, isz(yd)):
                    if z2:
                        continue
                    for nm, q, w in (("x", X, fmul(xn, fl.finv(xd))), ("y", Y, fmul(fmul(yn, fl.finv(yd)), y))):
                        ok, d = prove_eq(s3, q, w, [xd, yd])
                        rep.add(self.name, tag + ": %s is the image's" % nm, UNKNOWN if ok is None else ok, "poly", 0, d)


def zero_in(s, q, dens):
    """q vanishes when the denominators do (the inverse of zero is zero)"""
    ok, d = prove_eq(s, q, zero(q.w))
    if ok is True:
        return ok, d
    memo = {}

    def sub(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == "finv" and any(prove_eq(s, x.args[0], dn)[0] is True or fl.same(x.args[0], dn) for dn in dens):
            r = zero(x.w)
        elif any(isinstance(a, T) and a.w < 0 for a in x.args):
            r = verify.rebuild(x, [sub(a) if isinstance(a, T) and a.w < 0 else a for a in x.args])
        else:
            r = x
        memo[x.id] = r
        return r
    return prove_eq(s, sub(q), zero(q.w))


class Iso2(Contract):
    """requires z = 1 and (x, y) on the isogenous curve.  ensures: the image under the 3-isogeny, in projective coordinates (the
    identity for points of the kernel)"""
    home = "C10"
    g = G2
    name = B + "g2::isogenyMap() const"

    def apply(self, exr, st, args, I):
        x, y, z = read_coords(st, G2, args[1])
        if prove_eq(st, z, one(S2))[0] is not True:
            raise Violation("precondition of %s: z is not one" % self.name, st)
        on_prime(st, G2, x, y, self.name)
        write_nf(st, G2, args[0], nfof(iso_base(G2, x, y)))
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        out, p = st.new(288, "ret", "arg"), st.new(288, "this", "arg")
        x, y = verify.symbol("x", S2), verify.symbol("y", S2)
        write_coords(st, G2, p, (x, y, one(S2)))
        before = st.copy()
        xn, xd, yn, yd = (horner(G2, trim(c), x) for c in ISO[G2])
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, p]) or []):
            if not verify.consistent(s):
                continue
            frame(rep, self.name, before, s, {out.obj}, "path%d" % k)
            try:
                X, Y, Zc = read_coords(s, G2, out, "result")
            except Violation as e:
                rep.add(self.name, "result is canonical", False, "symexec", 0, str(e))
                continue
            for v, s2 in cases(s, isz(xd)):
                for z2, s3 in cases(s2, isz(yd)):
                    if z2 != v:
                        continue                          # both denominators vanish together (lemma)
                    tag = "path%d%s" % (k, ", kernel" if v else "")
                    fc = Facts(s3, nonzero=[] if v else [xd, yd])
                    if v:
                        ok, d = prove_eq(s3, Zc, zero(S2))
                        rep.add(self.name, tag + ": the result is the identity", UNKNOWN if ok is None else ok, "poly", 0, d)
                        continue
                    nzok = prove_eq(s3, Zc, fmul(xd, yd))[0] is True or fc.nonzero(Zc)
                    rep.add(self.name, tag + ": z is not zero", True if nzok else UNKNOWN, "poly", 0)
                    ok, d = prove_eq(s3, fmul(X, xd), fmul(xn, fsq(Zc)), [xd, yd])
                    rep.add(self.name, tag + ": x is the image's", UNKNOWN if ok is None else ok, "poly", 0, d)
                    ok, d = prove_eq(s3, fmul(Y, yd), fmul(fmul(yn, y), fmul(fsq(Zc), Zc)), [xd, yd])
                    rep.add(self.name, tag + ": y is the image's", UNKNOWN if ok is None else ok, "poly", 0, d)


for g in (G1, G2):
    reg(Swu(g))
reg(Iso1())
reg(Iso2())


# ---- cofactor clearing ---------------------------------------------------------------------------

HEFF = {G1: 0xd201000000010001, G2: None}
HEFF[G2] = ref.H2 * (3 * Z * Z - 3)


# ---- the full endomorphism ring Z[w], w^2 + w + 1 = 0, acting on the twist over F_p^2
def wmul(x, y):
    a, b = x
    c, d = y
    return (a * c - b * d, a * d + b * c - b * d)


def wconj(x):
    return (x[0] - x[1], -x[1])


def wnorm(x):
    return x[0] * x[0] - x[0] * x[1] + x[1] * x[1]


_ring = {}


def twist_ring():
    """(psi, pi - 1) in Z[w]: psi has norm p and trace t; on the rational points psi^2 is a primitive sixth root of unity u, so the
    q-power Frobenius pi is psi^2 / u; the order of the group is the norm of pi - 1"""
    if not _ring:
        s2, r3 = divmod(4 * P - TR * TR, 3)
        from math import isqrt
        s = isqrt(s2)
        assert r3 == 0 and s * s == s2
        # trace 2a - b = t, norm a^2 - ab + b^2 = p
        b = s if (TR + s) % 2 == 0 else None
        a = (TR + b) // 2
        psi = (a, b)
        assert wnorm(psi) == P and 2 * a - b == TR
        sq = wmul(psi, psi)
        good = []
        for e in ((1, 1), (0, -1)):              # the primitive sixth roots of unity: 1 + w = -w^2 and -w
            pi = wmul(sq, wconj(e))
            d = (pi[0] - 1, pi[1])
            if wnorm(d) % ref.R == 0:
                good.append(d)
        assert len(good) == 1
        _ring["v"] = (psi, good[0])
    return _ring["v"]


def kills(d, x):
    """x is a multiple of d in Z[w]"""
    q = wmul(x, wconj(d))
    n = wnorm(d)
    return q[0] % n == 0 and q[1] % n == 0


def acts_as(g, a, k):
    """a = (a0, a1) for a0 + a1 e acts on the rational points as the integer k"""
    if g == G1:
        return member(ideal(g, annihilator(g)), (a[0] - k, a[1]))
    psi, d = twist_ring()
    return kills(d, (a[0] - k + a[1] * psi[0], a[1] * psi[1]))


def clear(n):
    """the standard's cofactor clearing as an element of the ring"""
    g = n.g
    if g == G1:
        return n.scale(HEFF[G1])
    e = n.endo()
    return n.scale(Z * Z - Z - 1) + e.scale(Z - 1) + e.endo().scale(2)


class ClearCofactor(Contract):
    """ensures: h_eff times the point, an element of the subgroup"""
    home = "C10"

    def __init__(self, g):
        self.g, self.name = g, B + CLS[g] + "::clearCofactor() const"

    def apply(self, exr, st, args, I):
        write_nf(st, self.g, args[0], clear(read_point(st, self.g, args[1], self.name)))
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        fl.reset()
        st = exr.base.copy()
        out, p = st.new(PSIZE[g], "ret", "arg"), st.new(PSIZE[g], "this", "arg")
        b = base(g, "P0")
        write_coords(st, g, p, tuple(pco(b, k) for k in range(3)))
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, p]) or []):
            if not verify.consistent(s):
                continue
            tag = "path%d" % k
            frame(rep, self.name, before, s, {out.obj}, tag)
            t0 = time.time()
            try:
                c = read_coords(s, g, out, "result")
            except Violation as e:
                rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
                continue
            n = as_point(s, g, c)
            z = s.decide(isz(pco(b, 2)))
            if n is not None and {q[0] for q in n.d} <= {b} and all(isinstance(v, int) for v in n.d.values()) and not z:
                a = (n.d.get((b, 0), 0), n.d.get((b, 1), 0))
                ok = acts_as(g, a, HEFF[g])
                rep.add(self.name, tag + ": result is h_eff times the point", ok, "lattice of the endomorphism ring", time.time() - t0, "" if ok else "computed element: %d + %d e" % a)
                ok = acts_as(g, rmul(g, (ref.R, 0), a), 0)
                rep.add(self.name, tag + ": result is killed by r", ok, "lattice of the endomorphism ring")
                continue
            ok, d = represents(s, g, c, clear(nfof(b)))
            rep.add(self.name, tag + ": result is h_eff times the point", UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)


class MapToCurve(Contract):
    """ensures: clear_cofactor(iso(swu(u)))"""
    home = "C10"

    def __init__(self, g):
        self.g = g
        self.name = "%s%s::mapToCurve(bls12_381::fp%s const&)" % (B, CLS[g], "" if g == G1 else "2")

    def apply(self, exr, st, args, I):
        u = ex.read_el(st, args[1], SORT[self.g], "argument of mapToCurve")
        write_nf(st, self.g, args[0], clear(nfof(iso_base(self.g, *swu_atoms(self.g, u)))))
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        S = SORT[g]
        fl.reset()
        st = exr.base.copy()
        out, pu = st.new(PSIZE[g], "ret", "arg"), st.new(ex.SIZES[S], "u", "arg")
        u = verify.symbol("u", S)
        ex.write_el(st, pu, u)
        before = st.copy()
        b = iso_base(g, *swu_atoms(g, u))
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, pu]) or []):
            if not verify.consistent(s) or contradictory(s, g, b):
                continue
            tag = "path%d" % k
            frame(rep, self.name, before, s, {out.obj}, tag)
            try:
                c = read_coords(s, g, out, "result")
            except Violation as e:
                rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
                continue
            z = s.decide(isz(pco(b, 2)))
            ok, d = represents(s, g, c, NF(g) if z else clear(nfof(b)))
            rep.add(self.name, tag + ": result is the cleared isogeny image of the SWU point" + (" (kernel)" if z else ""), UNKNOWN if ok is None else ok, "poly", 0, d)


def contradictory(s, g, b):
    """the path's field facts contradict the curve equation of the (non-identity) point"""
    if s.decide(isz(pco(b, 2))) is not False:
        return False
    n = nfof(b)
    fs = [lit.args[0] for lit, v in s.pc if lit.op == "fzero" and v]
    return bool(fs) and prove_eq(s, one(SORT[g]), zero(SORT[g]), zeros=oncurve_rel([afc(n, 0), afc(n, 1)]))[0] is True


for g in (G1, G2):
    reg(ClearCofactor(g))
    reg(MapToCurve(g))


# ---- messages ---------------------------------------------------------------------------------------

def xmd_args(st, msg, n, dst, m):
    return bytestr.app("xmd", (msg, dst, t.trunc(m, 64, 32), 256), 256)


def props_modprime(exr):
    return exr.contracts[MP8]


class FromMessage(Contract):
    """requires: sizes below 2^60.  ensures: throws iff the tag is longer than 255 bytes or the message longer than 2^31-1
    bytes; otherwise h_eff times the sum of the isogeny images of the SWU points of the two field elements that
    expand_message_xmd(msg, dst, 256) yields (each coordinate 64 bytes, big-endian, modulo p)"""
    home = "C10"
    name = B + "fromMessage(std::span<unsigned char const, 18446744073709551615ul>, %s const&)" % bytestr.STR

    def result(self, exr, st, buf):
        """the hash point, from the 256 bytes"""
        us = []
        for i in range(4):
            b = buf[64 * i:64 * i + 64]
            us.append(props_modprime(exr).value(tuple(t.concat_bytes(list(reversed(b[56 - 8 * k:64 - 8 * k]))) for k in range(8))))
        g = G2
        r = NF(g)
        for i in (0, 2):
            r = r + nfof(iso_base(g, *swu_atoms(g, fl.mk2(us[i], us[i + 1]))))
        return clear(r)

    def apply(self, exr, st, args, I):
        out, mp, mn, sp = args
        dp, dn = bytestr.strof(st, sp)
        bad = t.or_(t.ult(0x7fffffff, mn, 64), t.ult(255, dn, 64), 1)
        res = []
        for v in (True, False):
            s = st.copy()
            try:
                s.assume(bad, v)
            except Infeasible:
                continue
            if v:
                exr.throw(s, "fromMessage")
                continue
            buf = xmd_args(s, bytestr.rope(s, mp, mn), mn, bytestr.rope(s, dp, dn), dn)
            write_nf(s, G2, out, self.result(exr, s, buf))
            res.append((s, None))
        return res

    def verify(self, exr, rep):
        from .c_int import execute
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        bytestr.reset()
        st = exr.base.copy()
        mn, dn = t.var("msglen", 64), t.var("dstlen", 64)
        out = st.new(PSIZE[G2], "ret", "arg")
        mp = bytestr.opaque(st, "msg", mn)
        sp = bytestr.string(st, "dst", dn)
        dp = bytestr.strof(st, sp)[0]
        before = st.copy()
        old = exr.contracts
        exr.contracts = dict(old)
        exr.contracts.update(bytestr.strings())
        try:
            res = execute(exr, rep, self.name, fn, st, [out, mp, mn, sp])
            if res is None:
                return
            rets, thrown = res
            called = [h for h, o in bytestr._owner.items() if o[0] == "xmd"]
            bad = t.or_(t.ult(0x7fffffff, mn, 64), t.ult(255, dn, 64), 1)
            for k, (s, what) in enumerate(thrown):
                ok, d = smt.valid(bad, s.pc)
                rep.add(self.name, "exception%d: only for a tag or message that is too long" % k, UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
            for k, (s, rv) in enumerate(rets):
                if not verify.consistent(s):
                    continue
                tag = "path%d" % k
                frame(rep, self.name, before, s, {out.obj}, tag)
                ok, d = smt.valid(t.not_(bad), s.pc)
                rep.add(self.name, tag + ": no result for a tag or message that is too long", UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
                try:
                    c = read_coords(s, G2, out, "result")
                except Violation as e:
                    rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
                    continue
                buf = xmd_args(s, bytestr.rope(s, mp, mn), mn, bytestr.rope(s, dp, dn), dn)
                ok, d = represents(s, G2, c, self.result(exr, s, buf))
                if ok is None and called and all(bytestr.differ(s, bytestr.byte0(h), buf[0]) for h in called):
                    ok, d = False, "hash_to_field is called with another message or tag"
                rep.add(self.name, tag + ": result is the hash of the message to the subgroup", UNKNOWN if ok is None else ok, "poly", 0, d)
        finally:
            exr.contracts = old


reg(FromMessage())


# ---- lemmas about the constants --------------------------------------------------------------------

def pm(g):
    if g == G1:
        return (lambda a, b: a * b % P), (lambda a, b: (a + b) % P), (lambda a: -a % P), 0
    return ref.f2mul, ref.f2add, ref.f2neg, (0, 0)


def polymul(g, a, b):
    mul, add, neg, z = pm(g)
    r = [z] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = add(r[i + j], mul(x, y))
    return r


def polyadd(g, *ps):
    mul, add, neg, z = pm(g)
    r = [z] * max(map(len, ps))
    for p in ps:
        for i, x in enumerate(p):
            r[i] = add(r[i], x)
    return r


def lemmas(_e, rep):
    nm = "maps"

    def ok(what, v, by="polynomials over the field"):
        rep.add(nm, what, bool(v), by)
    for g in (G1, G2):
        c = CLS[g]
        N, D, M, K = (trim(q) for q in ISO[g])
        cons = lambda q: q.args[0]
        b4 = 4 if g == G1 else (4, 4)
        mul, add, neg, z = pm(g)
        D2, D3 = polymul(g, D, D), None
        D3 = polymul(g, D2, D)
        g_ = [cons(B1[g]), cons(A1[g]), z, 1 if g == G1 else (1, 0)]
        lhs = polymul(g, g_, polymul(g, polymul(g, M, M), D3))
        N3 = polymul(g, N, polymul(g, N, N))
        rhs = polymul(g, polymul(g, K, K), polyadd(g, N3, [mul(b4, q) for q in D3]))
        ok("%s: the isogeny maps the isogenous curve to the curve" % c, trim(lhs) == trim(rhs))
        ok("%s: the denominators vanish together (K^2 = D^3)" % c, trim(polymul(g, K, K)) == trim(D3))
        ok("%s: degree of the isogeny" % c, len(N) - 1 == (11 if g == G1 else 3) and len(D) == len(N) - 1)
        ok("%s: g' has no root (no point with y = 0)" % c, no_root(g))
        ok("%s: Z is not a square" % c, fl.issq(ZZ[g]) == 0)
        ok("%s: g'(B/(ZA)) is a square" % c, fl.issq(gprime(g, fmul(B1[g], fl.finv(fmul(ZZ[g], A1[g]))))) == 1)
        b = base(g, "P")
        n = clear(nfof(b))
        a = (n.d.get((b, 0), 0), n.d.get((b, 1), 0))
        ok("%s: cofactor clearing is multiplication by h_eff" % c, acts_as(g, a, HEFF[g]), "lattice of the endomorphism ring")
        ok("%s: cleared points have order dividing r" % c, acts_as(g, rmul(g, (ref.R, 0), a), 0), "lattice of the endomorphism ring")
    ok("h_eff of G2 is the standard's constant", HEFF[G2] == 0xbc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551, "integers")


props.extra("C10", "map constants")(lemmas)
