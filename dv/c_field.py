"""Contracts on the base field and the extension tower (fp, fp2, fp6, fp12)."""
from . import term as t, field as fl, ref, exec as ex
from .term import T, mk
from .exec import Ptr, Violation, Contract
from .ir import Unsupported
from .verify import FieldFn, S1, S2, S6, S12, prove_eq
from .field import fadd, fsub, fneg, fmul, fsq, finv, fconj, comp, mk2, mkn, f1, f2c, zero, one, fscale, ffrob, lift, fpow
P = ref.P
B = "bls12_381::"
C = {}


def reg(c):
    C[c.name] = c
    return c


def isz(x):
    return fl.fzero_atom(x)


def eqz(a, b):
    return fl.fzero_atom(fsub(a, b))


# ---- layer 0: limb routines (their own obligations are discharged in c_limb) ------------

class Limb0(Contract):
    """contracts of the limb routines, in terms of integers < k*p (k tracked per operand)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def apply(self, exr, st, args, I):
        z = args[0]
        ops = [ex.read_fp(st, a) for a in args[1:]]
        F, k = self.fn(*ops)
        if F is None:
            raise Violation("precondition of %s: %s" % (self.name, k), st)
        ex.write_fp(st, z, F, k)
        return [(st, None)]


MAXK = 9          # 9p < 2^384 <= 10p


def l_add(x, y):
    (a, ka), (b, kb) = x, y
    if ka + kb > MAXK:
        return None, "sum may exceed 2^384"
    return fadd(a, b), max(1, ka + kb - 1)


def l_sub(x, y):
    (a, ka), (b, kb) = x, y
    if kb > 1:
        return None, "subtrahend is not reduced"
    if ka > MAXK:
        return None, "minuend too large"
    return fsub(a, b), ka


def l_neg(x):
    a, k = x
    if k > 1:
        return None, "operand is not reduced"
    return fneg(a), 1


def l_mul(x, y):
    (a, ka), (b, kb) = x, y
    if kb > 7:          # the portable back end needs the second operand below 7p
        return None, "second operand too large (%d p)" % kb
    if ka * kb > MAXK:
        # raw 384-bit integers: accepted when the other operand is reduced (value < 2^384 < 10p)
        if ka * kb > 10 or a.op != "fraw":
            return None, "product exceeds the range of the Montgomery reduction (%d*%d)" % (ka, kb)
    return fmul(a, b), 1


def l_ladd(x, y):
    (a, ka), (b, kb) = x, y
    if ka + kb > MAXK:
        return None, "sum may exceed 2^384"
    return mk("lazy", (fadd(a, b),), S1) if False else fadd(a, b), ka + kb


PF = "bls12_381::fp*"
CF = "bls12_381::fp const*"
for nm, f, n in (("_add", l_add, 2), ("_subtract", l_sub, 2), ("_multiply", l_mul, 2), ("_ladd", l_ladd, 2)):
    reg(Limb0("%s%s(%s, %s, %s)" % (B, nm, PF, CF, CF), f))
for nm in ("__multiply", "__mul_ex"):
    reg(Limb0("%s%s(%s, %s, %s)" % (B, nm, PF, CF, CF), l_mul))
reg(Limb0("%s_double(%s, %s)" % (B, PF, CF), lambda x: l_add(x, x)))
reg(Limb0("%s_ldouble(%s, %s)" % (B, PF, CF), lambda x: l_ladd(x, x)))
reg(Limb0("%s_negate(%s, %s)" % (B, PF, CF), l_neg))
reg(Limb0("%s__negate(%s, %s)" % (B, PF, CF), l_neg))
reg(Limb0("%s_square(%s, %s)" % (B, PF, CF), lambda x: l_mul(x, x)))


class LSub(Contract):
    name = "%s_lsubtract(%s, %s, %s)" % (B, PF, CF, CF)

    def apply(self, exr, st, args, I):
        raise Unsupported("non-reducing subtraction outside the inversion routine")


reg(LSub())


# ---- fp -------------------------------------------------------------------------------

def ff(cls, sig, params, ret, spec, **kw):
    return reg(FieldFn(B + cls + "::" + sig, params, ret, spec, **kw))


def refs(cls):
    return "bls12_381::%s const&" % cls


def canon_limb(x, i):
    """word i of the canonical integer of x"""
    return ex.limb(fmul(x, f1(ref.MRI)), 1, i) if x.op != "fconst" else (x.args[0] >> (64 * i)) & t.mask(64)


def bit0(x):
    return t.trunc(t.and_(canon_limb(x, 0), 1, 64), 64, 1)


for cls, s in (("fp", S1), ("fp2", S2), ("fp6", S6), ("fp12", S12)):
    g = None
    I2, I1 = [("in", s), ("in", s)], [("in", s)]
    A2 = [("io", s), ("in", s)]
    r = refs(cls)
    gr = S1 if s in (S1, S2) else S2
    ff(cls, "add(%s) const" % r, I2, s, fadd, gran=gr)
    ff(cls, "addAssign(%s)" % r, A2, None, fadd, gran=gr)
    ff(cls, "subtract(%s) const" % r, I2, s, fsub, gran=gr)
    ff(cls, "subtractAssign(%s)" % r, A2, None, fsub, gran=gr)
    ff(cls, "multiply(%s) const" % r, I2, s, fmul, gran=gr)
    ff(cls, "multiplyAssign(%s)" % r, A2, None, fmul, gran=gr)
    ff(cls, "dbl() const", I1, s, lambda a: fadd(a, a), gran=gr)
    ff(cls, "doubleAssign()", [("io", s)], None, lambda a: fadd(a, a), gran=gr)
    ff(cls, "square() const", I1, s, fsq, gran=gr)
    ff(cls, "squareAssign()", [("io", s)], None, fsq, gran=gr)
    ff(cls, "negate() const", I1, s, fneg, gran=gr)
    ff(cls, "isZero() const", I1, "bool", isz, gran=gr)
    ff(cls, "isOne() const", I1, "bool", (lambda s: lambda a: eqz(a, one(s)))(s), gran=gr)
    if s == S12:
        ff(cls, "isGtValid() const", I1, "bool", lambda a: eqz(fl.fpow(a, ref.R), one(S12)), gran=gr).home = "C07"
    ff(cls, "equal(%s) const" % r, I2, "bool", eqz, gran=gr)
    ff(cls, "zero()", [], s, (lambda s: lambda: zero(s))(s))
    ff(cls, "one()", [], s, (lambda s: lambda: one(s))(s))
    if s in (S2, S12):
        ff(cls, "conjugate() const", I1, s, fconj, gran=gr)


def norm2(x):
    return [fadd(fsq(comp(x, 0)), fsq(comp(x, 1)))]


def norm6(x):
    """the norm of x from Fp6 to Fp2 (non-zero for x != 0)"""
    a, b, c = (comp(x, i) for i in range(3))
    xi = f2c(1, 1)
    t0 = fsub(fsq(a), fmul(xi, fmul(b, c)))
    t1 = fsub(fmul(xi, fsq(c)), fmul(a, b))
    t2 = fsub(fsq(b), fmul(a, c))
    return fadd(fmul(a, t0), fmul(xi, fadd(fmul(c, t1), fmul(b, t2))))


def norm12(x):
    a, b = comp(x, 0), comp(x, 1)
    v = fl.fconst(((0, 0), (1, 0), (0, 0)), S6)
    return fsub(fsq(a), fmul(v, fsq(b)))


def inv_goals(st, ins, got):
    x, y = ins[0], got[0]
    if st.decide(isz(x)) is True:
        return [(y, zero(x.w))]
    return [(fmul(x, y), one(x.w))]


def inv_cases(normf):
    def cases(x):
        return [([(isz(x), True)], ()), ([(isz(x), False)], normf(x))]
    return cases


ff("fp", "inverse() const", [("in", S1)], S1, finv)
ff("fp2", "inverse() const", [("in", S2)], S2, finv, gran=S1, goals=inv_goals, cases=inv_cases(lambda x: norm2(x)))
ff("fp6", "inverse() const", [("in", S6)], S6, finv, gran=S2, goals=inv_goals, cases=inv_cases(lambda x: [norm6(x)]))
ff("fp12", "inverse() const", [("in", S12)], S12, finv, gran=S2, goals=inv_goals,
   cases=inv_cases(lambda x: [norm6(norm12(x))]))

XI = f2c(1, 1)
V6 = fl.fconst(((0, 0), (1, 0), (0, 0)), S6)
ff("fp2", "mulByNonResidue() const", [("in", S2)], S2, lambda a: fmul(a, f2c(1, 1)), gran=S1)
ff("fp2", "mulByB() const", [("in", S2)], S2, lambda a: fmul(a, f2c(4, 4)), gran=S1)
ff("fp2", "mulByFq(%s) const" % refs("fp"), [("in", S2), ("in", S1)], S2, lambda a, b: mk2(fmul(comp(a, 0), b), fmul(comp(a, 1), b)), gran=S1)
ff("fp6", "mulByNonResidue() const", [("in", S6)], S6, lambda a: fmul(a, fl.fconst(((0, 0), (1, 0), (0, 0)), S6)), gran=S2)
ff("fp6", "mulByBaseField(%s) const" % refs("fp2"), [("in", S6), ("in", S2)], S6,
   lambda a, b: mkn([fmul(comp(a, i), b) for i in range(3)], S6), gran=S2)
sp01 = lambda a, e0, e1: fmul(a, mkn([e0, e1, zero(S2)], S6))
ff("fp6", "mulBy01(%s, %s) const" % (refs("fp2"), refs("fp2")), [("in", S6), ("in", S2), ("in", S2)], S6, sp01, gran=S2)
ff("fp6", "mulBy01Assign(%s, %s)" % (refs("fp2"), refs("fp2")), [("io", S6), ("in", S2), ("in", S2)], None, sp01, gran=S2)
ff("fp6", "mulBy1(%s) const" % refs("fp2"), [("in", S6), ("in", S2)], S6, lambda a, e: fmul(a, mkn([zero(S2), e, zero(S2)], S6)), gran=S2)
ff("fp12", "mulBy014Assign(%s, %s, %s)" % ((refs("fp2"),) * 3), [("io", S12), ("in", S2), ("in", S2), ("in", S2)], None,
   lambda a, e0, e1, e4: fmul(a, mkn([mkn([e0, e1, zero(S2)], S6), mkn([zero(S2), e4, zero(S2)], S6)], S12)), gran=S2)


# fp4Square returns std::tuple<fp2, fp2>; (a + b s)^2 with s^2 = xi
class Fp4Square(FieldFn):
    def _off(self, exr):
        """libstdc++ lays out tuple<A,B> as {B, A}; recovered by running std::get on the real code is unnecessary:
        the offsets of the two heads are fixed by the ABI"""
        return 96, 0

    def apply(self, exr, st, args, I):
        out, a, b = args
        x, y = ex.read_el(st, a, S2), ex.read_el(st, b, S2)
        o0, o1 = self._off(exr)
        ex.write_el(st, Ptr(out.obj, out.off + o0), fadd(fsq(x), fmul(f2c(1, 1), fsq(y))))
        ex.write_el(st, Ptr(out.obj, out.off + o1), fscale(fmul(x, y), 2))
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        from . import verify as v
        if fn is None:
            rep.add(self.name, "function present", v.UNKNOWN, "extract", detail="not found")
            return

        def go():
            for alias in (0, 1):
                fl.reset()
                st = exr.base.copy()
                out = st.new(192, "ret", "arg")
                pa = st.new(96, "a", "arg")
                x = v.symbol("a", S2, S1)
                ex.write_el(st, pa, x)
                pb, y = pa, x
                if not alias:
                    pb = st.new(96, "b", "arg")
                    y = v.symbol("b", S2, S1)
                    ex.write_el(st, pb, y)
                exr.exclude = {self.name}
                exr.merge = False
                exr.used, exr.inlined = set(), set()
                try:
                    res = exr.run(fn, st, [out, pa, pb])
                finally:
                    exr.exclude = set()
                rep.used |= exr.used
                rep.inlined |= exr.inlined
                for s, _ in res:
                    o0, o1 = self._off(exr)
                    for nm, o, w in (("first", o0, fadd(fsq(x), fmul(f2c(1, 1), fsq(y)))), ("second", o1, fscale(fmul(x, y), 2))):
                        ok, d = prove_eq(s, ex.read_el(s, Ptr(out.obj, o), S2), w)
                        rep.add(self.name, "%s component%s" % (nm, " (aliased)" if alias else ""), v.UNKNOWN if ok is None else ok, "poly", 0, d)
        v.guarded(rep, self.name, go)


reg(Fp4Square(B + "fp12::fp4Square(%s, %s)" % (refs("fp2"), refs("fp2")), [("in", S2), ("in", S2)], None, None))


# cyclotomic squaring: equal to squaring when x^(p^6+1) = 1 and x^(p^4-p^2+1) = 1
def cyc_apply(a):
    return fsq(a)


def cyclotomic_relations(x):
    """x^{p^4+1} = x^{p^2}  and  conj(x)*x = 1, as polynomial conditions on the components"""
    f4, f2_ = ffrob(x, 4), ffrob(x, 2)
    return [fsub(fmul(f4, x), f2_), fsub(fmul(fconj(x), x), one(S12))]


class CycSquare(FieldFn):
    """requires: x in the cyclotomic subgroup (x^(p^4-p^2+1) = 1).  ensures: x^2."""

    def __init__(self, name, params, ret):
        FieldFn.__init__(self, name, params, ret, fsq, gran=S2, goals=self._goals)

    def _goals(self, st, ins, got):
        x, y = ins[0], got[0]
        return [("cyc", (x, y))]

    def _post(self, exr, rep, st, rv, rptr, args, ins, snap, objs, tag):
        from . import verify as v
        try:
            y = ex.read_el(st, rptr if rptr is not None else args[0], S12)
        except Violation as e:
            rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
            return
        x = ins[0]
        # certificate: y - x^2 is an explicit F_p2-linear combination of the components of
        # frob(x,4)*x - frob(x,2) (all zero on the cyclotomic subgroup), found by linear algebra
        d = [a - b for a, b in zip(fl.vec(y), fl.vec(fsq(x)))]
        rel = fl.vec(cyclotomic_relations(x)[0])
        for i in range(6):
            ok = in_span(d[i], rel)
            rep.add(self.name, "%s: component %d equals the square modulo the cyclotomic relations" % (tag, i), ok, "linear algebra over F_p2",
                    0, "" if ok else repr(d[i])[:300])


def in_span(p, gens):
    """is p an F_p2-linear combination of the polynomials gens?"""
    if p.iszero():
        return True
    EMk = fl.EM
    def split(q):
        r = {}
        for m, c in q.d.items():
            k = m & ~1
            a, b = r.get(k, (0, 0))
            r[k] = ((a + c) % P, b) if not m & 1 else (a, (b + c) % P)
        return r
    mons = set()
    cols = [split(g) for g in gens]
    tgt = split(p)
    for c in cols + [tgt]:
        mons |= set(c)
    rows = [[c.get(m, (0, 0)) for c in cols] + [tgt.get(m, (0, 0))] for m in sorted(mons)]
    n = len(cols)
    r = 0
    for c in range(n):
        piv = next((i for i in range(r, len(rows)) if rows[i][c] != (0, 0)), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        iv = ref.f2inv(rows[r][c])
        rows[r] = [ref.f2mul(x, iv) for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != (0, 0):
                f = rows[i][c]
                rows[i] = [ref.f2sub(x, ref.f2mul(f, y)) for x, y in zip(rows[i], rows[r])]
        r += 1
    return all(row[n] == (0, 0) for row in rows[r:])


reg(CycSquare(B + "fp12::cyclotomicSquare() const", [("in", S12)], S12))
reg(CycSquare(B + "fp12::cyclotomicSquareAssign()", [("io", S12)], None))


# ---- Frobenius ---------------------------------------------------------------------------

def frob_ints():
    out = []
    for j in range(12):
        v = t.var("pow12_%d" % j, 64)
        t.RES[v.id] = (12, j)
        out.append(("power=%d mod 12" % j, v))
    for j in (0, 1, 2, 3, 5, 6, 7, 8, 11, 12, 13, 15, 25, (1 << 64) - 1):
        out.append(("power=%d" % j, j))
    return out


def frob_spec(x, n):
    if isinstance(n, T):
        if n.id in t.RES and t.RES[n.id][0] == 12:
            return ffrob(x, t.RES[n.id][1])
        raise Unsupported("Frobenius with unconstrained symbolic power")
    return ffrob(x, n % 12)


U64R = "unsigned long const&"
for cls, s in (("fp2", S2), ("fp6", S6), ("fp12", S12)):
    gr = S1 if s == S2 else S2
    ff(cls, "frobeniusMap(%s) const" % U64R, [("in", s), ("u64r",)], s, frob_spec, gran=gr, ints=frob_ints())
    ff(cls, "frobeniusMapAssign(%s)" % U64R, [("io", s), ("u64r",)], None, frob_spec, gran=gr, ints=frob_ints())


# ---- predicates on representatives ---------------------------------------------------------

def sign_spec(x):
    return t.not_(bit0(x))


def sign2_spec(x):
    c0, c1 = comp(x, 0), comp(x, 1)
    z = isz(c0)
    return t.ite(z, t.not_(bit0(c1)), t.not_(bit0(c0)), 1)


ff("fp", "sign() const", [("in", S1)], "bool", sign_spec)
ff("fp2", "sign() const", [("in", S2)], "bool", sign2_spec)
ff("fp", "toMont() const", [("in", S1)], S1, lambda a: fmul(a, f1(ref.MR)))
ff("fp", "fromMont() const", [("in", S1)], S1, lambda a: fmul(a, f1(ref.MRI)))
PHI1 = 0x1a0111ea397fe699ec02408663d4de85aa0d857d89759ad4897d29650fb85f9b409427eb4f49fffd8bfd00000000aaac
ff("fp", "phi() const", [("in", S1)], S1, lambda a: fmul(a, f1(PHI1)))
FIELD = dict(C)
