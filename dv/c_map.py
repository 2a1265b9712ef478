"""Endomorphisms, subgroup membership and cofactor clearing."""
import time
from . import term as t, field as fl, ref, exec as ex, verify, props
from .term import T, mk
from .exec import Ptr, Violation, Contract
from .ir import Unsupported
from .verify import UNKNOWN, prove_bool, prove_eq
from .field import fmul, fconj, fsq
from .c_code import frame, run
from .grp import *
from .c_group import B, CLS, represents, PointFn, split
from .c_field import PHI1
C = {}
X2 = (ref.XI if hasattr(ref, "XI") else (1, 1))
P, R_ = ref.P, ref.R


def reg(c):
    C[c.name] = c
    return c


# ---- the endomorphisms on coordinates ---------------------------------------------------------

BETA = PHI1


def f2mul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def f2pow(a, n):
    r = (1, 0)
    while n:
        if n & 1:
            r = f2mul(r, a)
        a = f2mul(a, a)
        n >>= 1
    return r


def f2inv(a):
    d = pow(a[0] * a[0] + a[1] * a[1], -1, P)
    return (a[0] * d % P, -a[1] * d % P)


CX = f2inv(f2pow((1, 1), (P - 1) // 3))
CY = f2inv(f2pow((1, 1), (P - 1) // 2))


def unendo(g, c):
    """coordinates of the point that the endomorphism sends to c"""
    if g == G1:
        return (fmul(c[0], f1(pow(BETA, -1, P))), c[1], c[2])
    ix, iy = f2inv(CX), f2inv(CY)
    return (fconj(fmul(c[0], f2c(*ix))), fconj(fmul(c[1], f2c(*iy))), fconj(c[2]))


def simple(st, q):
    """the atom that the term is equal to, if any"""
    seen, stk = set(), [q]
    while stk:
        x = stk.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fop" and str(x.args[0])[:2] in ("af", "pt") and x.w == q.w and prove_eq(st, q, x)[0] is True:
            return x
        stk += [a for a in x.args if isinstance(a, T) and a.w < 0]
    return q


class Endo(Contract):
    """the endomorphism: (x, y) -> (beta x, y) on G1, (cx x^p, cy y^p) on G2; k-fold for frobeniusMap(k), 0 <= k <= 3"""
    callers = True

    def __init__(self, g, sig, power=None, home="C07"):
        self.g, self.name, self.power, self.home = g, B + CLS[g] + "::" + sig, power, home

    def apply(self, exr, st, args, I):
        k = 1
        if self.power:
            k = args[2]
            if not isinstance(k, int) or k >> 63 or k > 3:
                raise Unsupported("power of the endomorphism outside the verified range 0..3")
        n = read_point(st, self.g, args[1], self.name)
        for _ in range(k):
            n = n.endo()
        write_nf(st, self.g, args[0], n)
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        for power in (range(4) if self.power else (None,)):
            fl.reset()
            st = exr.base.copy()
            p, out = st.new(PSIZE[g], "this", "arg"), st.new(PSIZE[g], "ret", "arg")
            b = base(g, "P0")
            write_coords(st, g, p, tuple(pco(b, k) for k in range(3)))
            before = st.copy()
            for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, p] + ([power] if power is not None else [])) or []):
                if not verify.consistent(s):
                    continue
                tg = "%spath%d" % ("power %d, " % power if power is not None else "", k)
                frame(rep, self.name, before, s, {out.obj}, tg)
                t0 = time.time()
                try:
                    c = read_coords(s, g, out, "result")
                except Violation as e:
                    rep.add(self.name, tg + ": result is canonical", False, "symexec", 0, str(e))
                    continue
                for _ in range(1 if power is None else power):
                    c = unendo(g, c)
                c = tuple(simple(s, q) for q in c)
                ok, d = represents(s, g, c, nfof(b))
                rep.add(self.name, tg + ": result is the endomorphism's image", UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)


reg(Endo(G1, "glvEndomorphism() const"))
reg(Endo(G2, "psi() const"))
reg(Endo(G2, "frobeniusMap(long) const", power=True, home="C10"))


# ---- the ring generated by the endomorphism ------------------------------------------------------
# an element is (a, b) for a + b e, with e^2 = c0 + c1 e

def rmul(g, x, y):
    c0, c1 = EREL[g]
    a, b = x
    c, d = y
    return (a * c + b * d * c0, a * d + b * c + b * d * c1)


def hnf(vs):
    """basis ((a, b), (0, d)) -> lattice spanned by the vectors, as (a, b, d): (a, b) and (0, d)"""
    vs = [v for v in vs if v != (0, 0)]
    while True:
        nz = [v for v in vs if v[0]]
        if len(nz) <= 1:
            break
        nz.sort(key=lambda v: abs(v[0]))
        p = nz[0]
        vs = [p] + [(v[0] - v[0] // p[0] * p[0], v[1] - v[0] // p[0] * p[1]) for v in nz[1:]] + [v for v in vs if not v[0]]
        vs = [v for v in vs if v != (0, 0)]
    top = next((v for v in vs if v[0]), (0, 0))
    from math import gcd
    d = 0
    for v in vs:
        if not v[0]:
            d = gcd(d, v[1])
    return top, d


def member(L, v):
    (a, b), d = L
    k = 0
    if v[0]:
        if not a or v[0] % a:
            return False
        k = v[0] // a
    r = v[1] - k * b
    return r == 0 if d == 0 else r % d == 0


def ideal(g, *gens):
    return hnf([x for v in gens for x in (v, rmul(g, (0, 1), v))])


def annihilator(g):
    """an element of the ring that kills every point of the group of rational points"""
    if g == G1:
        # Frobenius is the identity on E(F_p); it is an element alpha + beta e of norm p and trace t
        t_ = TR
        d = 4 * P - t_ * t_
        s = isqrt(d // 3)
        assert 3 * s * s == d
        # (2 alpha - beta) = t, norm alpha^2 - alpha beta + beta^2 = p
        for be in (s, -s):
            if (t_ + be) % 2 == 0:
                al = (t_ + be) // 2
                assert al * al - al * be + be * be == P
                if (al - 1 + be * eigen(G1)) % R_ == 0:
                    return (al - 1, be)
        raise Unsupported("Frobenius is not in the ring")
    e2 = rmul(g, (0, 1), (0, 1))
    e4 = rmul(g, e2, e2)
    return (e4[0] - e2[0] + 1, e4[1] - e2[1])


def isqrt(n):
    from math import isqrt as q
    return q(n)


_lam = {}


def eigen(g):
    """the endomorphism acts on the subgroup as this scalar (checked on the generator)"""
    if g == G2:
        return P % R_
    if "l" not in _lam:
        _lam["l"] = next(l for l in roots() if ref.E1.mul(ref.G1, l) == (ref.G1[0] * BETA % P, ref.G1[1]))
    return _lam["l"]


def roots():
    z2 = Z * Z % R_
    l = (z2 - 1) % R_          # z^2 is a primitive sixth root: (z^2 - 1)^2 + (z^2 - 1) + 1 = z^4 - z^2 + 1
    return [l, (-1 - l) % R_]


def same_kernel(g, a):
    """on the rational points, a kills exactly what r kills"""
    u = annihilator(g)
    return member(ideal(g, a, u), (R_, 0)) and member(ideal(g, (R_, 0), u), a)


class InSubgroup(Contract):
    """ensures: true exactly when r times the (curve) point is the identity"""
    home = "C07"

    def __init__(self, g):
        self.g, self.name = g, B + CLS[g] + "::inCorrectSubgroup() const"

    def apply(self, exr, st, args, I):
        n = read_point(st, self.g, args[0], self.name)
        return [(st, insub(n))]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        fl.reset()
        st = exr.base.copy()
        p = st.new(PSIZE[g], "this", "arg")
        b = base(g, "P0")
        write_coords(st, g, p, tuple(pco(b, k) for k in range(3)))
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [p]) or []):
            if not verify.consistent(s):
                continue
            tg = "path%d" % k
            frame(rep, self.name, before, s, set(), tg)
            z = s.decide(fl.fzero_atom(pco(b, 2)))
            self.result(rep, tg, s, rv, b, z)

    def result(self, rep, tg, s, rv, b, z):
        g = self.g
        if isinstance(rv, T) and rv.op == "ite":
            for v, x in ((True, rv.args[1]), (False, rv.args[2])):
                s2 = s.copy()
                try:
                    s2.assume(rv.args[0], v)
                except ex.Infeasible:
                    continue
                self.result(rep, tg + "/%d" % v, s2, x, b, z)
            return
        what = "%s: accepts exactly the points of order dividing r" % tg
        zs, _ = gfacts(s)
        if z is True:
            rep.add(self.name, tg + ": the identity is accepted", verify.UNKNOWN if rv not in (0, 1) else rv == 1, "symexec")
            return
        if isinstance(rv, T) and rv.op == "fzero" and rv.args[0] is pco(b, 2) or rv == 1 or rv == 0:
            rep.add(self.name, what, False if isinstance(rv, T) or rv == 1 else UNKNOWN, "lattice of the endomorphism ring", 0, "the result is the same for all points")
            return
        if not isinstance(rv, T) or rv.op != "gzero":
            rep.add(self.name, what, UNKNOWN, "lattice of the endomorphism ring", 0, "result is not a test for the identity")
            return
        n = nfof(rv.args[0])
        if {k[0] for k in n.d} != {b} or not all(isinstance(v, int) for v in n.d.values()):
            rep.add(self.name, what, UNKNOWN, "lattice of the endomorphism ring", 0, "tested element %r" % n)
            return
        a = (n.d.get((b, 0), 0), n.d.get((b, 1), 0))
        rep.add(self.name, what, same_kernel(g, a), "lattice of the endomorphism ring", 0, "tested element: %d + %d e" % a)


def insub(n):
    """Boolean: the element has order dividing r"""
    if all(b.op == "pbase" and b.args[0] == "gen" for b, e in n.d):
        return 1
    if len(n.d) == 1:
        (b, e), v = next(iter(n.d.items()))
        if isinstance(v, int) and v % R_:
            n = NF(n.g, {(b, 0): 1})
    return mk("insub", (nfterm(n),), 1)


for g in (G1, G2):
    reg(InSubgroup(g))


def lemmas(_e, rep):
    """facts about the endomorphisms, as identities and computations"""
    from .field import fvar, fadd, fsub
    nm = "endomorphisms"

    def ok(what, v, by="integers"):
        rep.add(nm, what, bool(v), by)
    ok("r is z^4 - z^2 + 1 and p is (z - 1)^2 r / 3 + z", R_ == Z**4 - Z**2 + 1 and P * 3 == (Z - 1)**2 * R_ + 3 * Z)
    ok("beta is a primitive cube root of one", pow(BETA, 3, P) == 1 and BETA != 1)
    # G1: collinearity of (x, y), (beta x, y), (beta^2 x, y): the chord and tangent formulas give the opposite third point
    ok("1 + beta + beta^2 = 0", (1 + BETA + BETA * BETA) % P == 0)
    # chord slope 0 between (x, y) and (beta x, y), x != 0: third abscissa -(1 + beta) x, ordinate -y.  x = 0: tangent slope 0
    ok("(x, y) + (beta x, y) = -(beta^2 x, y)", (-(1 + BETA) - BETA * BETA) % P == 0)
    # homomorphism: slope of the image is cy / cx times the (conjugated) slope, so the image of the third point is the third point iff cy^2 = cx^3
    ok("G1 map preserves the curve and the chord construction (beta^3 = 1)", pow(BETA, 3, P) == 1)
    ok("G2 map preserves the chord construction (cy^2 = cx^3)", f2mul(CY, CY) == f2pow(CX, 3))
    b2 = (4, 4)
    ok("G2 map preserves the curve (cy^2 conj(b) = b)", f2mul(f2mul(CY, CY), (b2[0], -b2[1] % P)) == b2)
    w = f2mul(CX, (CX[0], -CX[1] % P))
    e = f2mul(CY, (CY[0], -CY[1] % P))
    ok("the square of the G2 map is minus a primitive cube-root map: its fourth power - its square + 1 = 0 on the rational points",
       w[1] == 0 and pow(w[0], 3, P) == 1 and w[0] != 1 and e == (P - 1, 0))
    h1 = (Z - 1)**2 // 3
    ok("order of E(F_p): p + 1 - t = (z - 1)^2 / 3 * r", P + 1 - TR == h1 * R_)
    # the trace: the only multiple of r in the Hasse interval, the generator having order r
    lo, hi = P + 1 - 2 * isqrt(P) - 2, P + 1 + 2 * isqrt(P) + 2
    ok("the only multiple of r in the Hasse interval is p + 1 - t", (hi // R_) * R_ == h1 * R_ and (hi // R_ - 1) * R_ < lo)
    for c, G in ((ref.E1, ref.G1), (ref.E2, ref.G2)):
        ok("the generator of group %d is on the curve and has order r" % (1 if c is ref.E1 else 2), c.on(G) and c.mul(G, R_) is None)
    ok("the G1 map acts on the generator as a root of x^2 + x + 1 modulo r", eigen(G1) is not None)
    u = annihilator(G1)
    ok("Frobenius - 1 in the ring kills the generator of G1", (u[0] + u[1] * eigen(G1)) % R_ == 0)
    primes(nm, rep)


def affine_order():
    """r G = O by affine steps, every division by a unit modulo p"""
    a, b = None, ref.G1
    try:
        for k in range(R_.bit_length()):
            if R_ >> k & 1:
                a = ref.E1.add(a, b)
            b = ref.E1.add(b, b)
    except ValueError:
        return False
    return a is None


def primes(nm, rep):
    # factors of r - 1 are below 2^64
    import sympy
    fs = {}
    for f in (Z, Z, Z - 1, Z + 1):
        for q, k in sympy.factorint(abs(f)).items():
            fs[q] = fs.get(q, 0) + k
    n = 1
    for q, k in fs.items():
        n *= q**k
    good = n == R_ - 1 and all(q < 2**64 and any(pow(a, R_ - 1, R_) == 1 and pow(a, (R_ - 1) // q, R_) != 1 for a in range(2, 60)) for q in fs)
    rep.add(nm, "r is prime (Lucas)", good, "integers")
    # a point whose order is a prime above (p^(1/4) + 1)^2 shows that p is prime (Goldwasser-Kilian)
    q = isqrt(isqrt(P)) + 2
    rep.add(nm, "p is prime (elliptic-curve certificate: the generator of G1 has prime order r)", good and R_ > q * q and ref.E1.on(ref.G1) and affine_order(), "integers")


for _p in ("C01", "C02"):
    props.extra(_p, "primality of p and r")(lambda _e, rep: primes("field", rep))
props.extra("C07", "endomorphism facts")(lemmas)
props.extra("C10", "endomorphism facts")(lemmas)
