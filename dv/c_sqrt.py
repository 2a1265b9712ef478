"""Square roots, residuosity, and the order on representatives."""
import time
import z3
from . import term as t, field as fl, exec as ex, ref, verify, smt
from .exec import Ptr, Violation, Infeasible, Contract
from .ir import Unsupported
from .term import T, mk
from .c_code import run, frame
from .field import fadd, fsub, fneg, fmul, fsq, comp, zero, one, f1
P = ref.P
S1, S2 = -1, -2
B = "bls12_381::"
C = {}
CLS = {S1: "fp", S2: "fp2"}
UNKNOWN = verify.UNKNOWN


def reg(c):
    C[c.name] = c
    return c


# ---- the multiplicative group generated by a unit y, for completeness of square roots -----------

class Mono:
    """sums of c * y^k (k modulo q-1), or one monomial times powers of such sums"""

    def __init__(self, y, sort):
        self.y, self.sort = y, sort
        self.q = P if sort == S1 else P * P
        self.memo = {}
        self.sums = {}

    def const(self, c):
        c = c if self.sort == S1 else c[0]
        return ({0: c % P} if c % P else {}, ())

    def norm(self, d):
        r = {}
        for k, c in d.items():
            k %= self.q - 1
            r[k] = (r.get(k, 0) + c) % P
        return {k: c for k, c in r.items() if c}

    def mul(self, a, b):
        (d, s), (e, u) = a, b
        if len(d) > 1 and len(e) > 1 or (len(d) > 1 and u) or (len(e) > 1 and s):
            a, b = self.factor(a), self.factor(b)
            (d, s), (e, u) = a, b
        r = {}
        for k, c in d.items():
            for l, f in e.items():
                x = (k + l) % (self.q - 1)
                r[x] = (r.get(x, 0) + c * f) % P
        m = dict(s)
        for k, v in u:
            m[k] = m.get(k, 0) + v
        return self.reduce(({k: c for k, c in r.items() if c}, tuple(sorted(m.items()))))

    def factor(self, a):
        d, s = a
        if len(d) <= 1:
            return a
        if s:
            raise Unsupported("power of a mixed sum")
        key = tuple(sorted(d.items()))
        self.sums[key] = d
        return ({0: 1}, ((key, 1),))

    def reduce(self, a):
        """S^(p-1) = frob(S)/S when that is a power of y"""
        d, s = a
        out = []
        k = 0
        for key, m in s:
            S = dict(key)
            F = {(P * j) % (self.q - 1): c for j, c in S.items()}
            sh = None
            for j in F:
                for i in S:
                    w = (j - i) % (self.q - 1)
                    if {(x + w) % (self.q - 1): c for x, c in S.items()} == F:
                        sh = w
            while sh is not None and m >= P - 1:
                m -= P - 1
                k += sh
            if m:
                out.append((key, m))
        return ({(x + k) % (self.q - 1): c for x, c in d.items()}, tuple(out))

    def pow(self, a, e):
        d, s = self.factor(a)
        if not d:
            return ({}, ()) if e else ({0: 1}, ())
        (k, c), = d.items()
        return self.reduce(({(k * e) % (self.q - 1): pow(c, e, P)}, tuple((key, m * e) for key, m in s)))

    def add(self, a, b, sg=1):
        (d, s), (e, u) = a, b
        if s != u and d and e:
            raise Unsupported("sum of unlike terms")
        if s and (len(d) > 1 or len(e) > 1):
            raise Unsupported("sum of unlike terms")
        r = dict(d)
        for k, c in e.items():
            r[k] = (r.get(k, 0) + sg * c) % P
        return ({k: c for k, c in r.items() if c}, s or u)

    def ev(self, x):
        if x in self.memo:
            return self.memo[x]
        op, a = x.op, x.args
        if x is self.y:
            r = ({1: 1}, ())
        elif op == "fconst":
            if self.sort == S2 and a[0][1] % P:
                raise Unsupported("constant outside F_p")
            r = self.const(a[0])
        elif op == "fmul":
            r = self.mul(self.ev(a[0]), self.ev(a[1]))
        elif op == "fsq":
            r = self.ev(a[0])
            r = self.mul(r, r)
        elif op == "fpow":
            r = self.pow(self.ev(a[0]), a[1])
        elif op == "fadd":
            r = self.add(self.ev(a[0]), self.ev(a[1]))
        elif op == "fsub":
            r = self.add(self.ev(a[0]), self.ev(a[1]), -1)
        elif op == "fneg":
            r = self.add(({}, ()), self.ev(a[0]), -1)
        elif op == "fscale":
            d, s = self.ev(a[0])
            r = ({k: c * a[1] % P for k, c in d.items() if c * a[1] % P}, s)
        elif op == "fconj" and self.sort == S2:
            d, s = self.ev(a[0])
            if s:
                raise Unsupported("conjugate of a power")
            r = self.norm({k * P: c for k, c in d.items()})
            r = (r, ())
        elif op == "mk" and self.sort == S2 and shifted(a) is not None:
            F, c = shifted(a)
            r = self.add(self.ev(F), self.const((c, 0)))
        else:
            raise Unsupported("term %s in a power computation" % t.show(x, 4)[:300])
        self.memo[x] = r
        return r

    def zero(self, x):
        """x == 0, for every unit y"""
        d, s = self.ev(x)
        if not d:
            return True
        return False if (len(d) == 1 and not s) else None


def shifted(a):
    """components of F + c, c in F_p"""
    cs = []
    for i, z in enumerate(a):
        c = 0
        if z.op in ("fadd", "fsub") and z.args[1].op == "fconst":
            c = z.args[1].args[0] * (1 if z.op == "fadd" else -1)
            z = z.args[0]
        elif z.op == "fadd" and z.args[0].op == "fconst":
            c, z = z.args[0].args[0], z.args[1]
        if z.op != "comp" or z.args[1] != i:
            return None
        cs.append((z.args[0], c))
    if cs[0][0] is not cs[1][0] or cs[1][1] % P:
        return None
    return cs[0]


class Sqrt(Contract):
    """returns whether *this is a square; on true the output squares to *this (Euler's criterion not needed)"""
    home = "C02"

    def __init__(self, sort):
        self.sort = sort
        c = B + CLS[sort]
        self.name = "%s::sqrt(%s&) const" % (c, c)

    def apply(self, exr, st, args, I):
        x = ex.read_el(st, args[0], self.sort, "argument of sqrt")
        ex.write_el(st, args[1], fl.fsqrt(x))
        return [(st, fl.issq(x))]

    def setup(self, exr, x, al):
        st = exr.base.copy()
        n = ex.SIZES[self.sort]
        px = st.new(n, "x", "arg")
        ex.write_el(st, px, x)
        pc = px if al else st.new(n, "c", "arg")
        return st, px, pc

    def verify(self, exr, rep):
        name, S = self.name, self.sort
        fn = exr.find(name)
        if fn is None:
            rep.add(name, "function present", UNKNOWN, "extract", detail="not found")
            return
        for al in (False, True):
            tag = "aliased: " if al else ""
            fl.reset()
            x = verify.symbol("x", S)
            st, px, pc = self.setup(exr, x, al)
            before = st.copy()
            for k, (s, rv) in enumerate(run(exr, rep, name, fn, st, [px, pc]) or []):
                t0 = time.time()
                s2 = s.copy()
                try:
                    s2.assume(rv if isinstance(rv, T) else int(rv), True)
                except Infeasible:
                    continue
                F = ex.read_el(s2, pc, S)
                ok, d = verify.prove_eq(s2, fsq(F), x)
                rep.add(name, tag + "path %d: true implies c^2 = *this" % k, UNKNOWN if ok is None else ok, "polynomial identity", time.time() - t0, d)
                frame(rep, name, before, s, {pc.obj}, tag + "path %d" % k)
            # completeness: *this = y^2
            fl.reset()
            y = verify.symbol("y", S)
            st, px, pc = self.setup(exr, fsq(y), al)
            st.assume(fl.fzero_atom(y), False)
            for k, (s, rv) in enumerate(run(exr, rep, name, fn, st, [px, pc]) or []):
                t0 = time.time()
                ok, d = self.istrue(s, rv, y)
                rep.add(name, tag + "path %d: true for every square y^2, y != 0" % k, UNKNOWN if ok is None else ok, "exponent arithmetic mod q-1", time.time() - t0, d)
            st, px, pc = self.setup(exr, zero(S), al)
            for s, rv in run(exr, rep, name, fn, st, [px, pc]) or []:
                d = s.decide(rv) if isinstance(rv, T) else bool(rv)
                rep.add(name, tag + "true for 0", UNKNOWN if d is None else d, "constants")

    def istrue(self, s, rv, y):
        if isinstance(rv, int):
            return bool(rv), "" if rv else "returns false for a square"
        if rv.op == "fzero":
            try:
                r = Mono(y, self.sort).zero(rv.args[0])
            except Unsupported as e:
                return None, str(e)
            return r, "" if r else "square not recognised"
        if s.decide(rv) is True:
            return True, ""
        return None, "result %s" % rv.op


class NonResidue(Contract):
    """for non-zero arguments: not a square"""
    home = "C02"

    def __init__(self, sort):
        self.sort = sort
        self.name = "%s%s::isQuadraticNonResidue() const" % (B, CLS[sort])

    def apply(self, exr, st, args, I):
        x = ex.read_el(st, args[0], self.sort, "argument of isQuadraticNonResidue")
        z = st.decide(fl.fzero_atom(x))
        if z is None and not st.ghost.get("any residue"):
            # zero is not a non-residue, but the functions say true: leave it open
            s2 = st.copy()
            out = []
            try:
                s2.assume(fl.fzero_atom(x), True)
                out.append((s2, mk("qnr0", (x,), 1)))
            except Infeasible:
                pass
            st.assume(fl.fzero_atom(x), False)
            return out + [(st, t.not_(fl.issq(x)) if isinstance(fl.issq(x), T) else 1 - fl.issq(x))]
        if z:
            return [(st, mk("qnr0", (x,), 1))]
        q = fl.issq(x)
        return [(st, t.not_(q) if isinstance(q, T) else 1 - q)]

    def verify(self, exr, rep):
        name, S = self.name, self.sort
        fn = exr.find(name)
        if fn is None:
            rep.add(name, "function present", UNKNOWN, "extract", detail="not found")
            return
        if S == S2:
            # x^((p^2-1)/2) = N(x)^((p-1)/2): residuosity of x is that of its norm
            fl.reset()
            x = verify.symbol("x", S)
            st = exr.base.copy()
            px = st.new(96, "x", "arg")
            ex.write_el(st, px, x)
            st.assume(fl.fzero_atom(x), False)
            st.ghost["any residue"] = True
            N = fadd(fsq(comp(x, 0)), fsq(comp(x, 1)))
            nz = fl.fzero_atom(N)
            st.assume(nz, False)            # the norm of a non-zero element is non-zero
            for k, (s, rv) in enumerate(run(exr, rep, name, fn, st, [px]) or []):
                ok, d = verify.prove_bool(s, rv, t.not_(fl.issq(N)))
                rep.add(name, "path %d: residuosity of the norm" % k, UNKNOWN if ok is None else ok, "polynomial identity", 0, d)
                F = fmul(x, fl.fconj(x))
                ok, d = verify.prove_eq(s, comp(F, 0), N)
                rep.add(name, "norm = x * conj(x) = x^(p+1)", UNKNOWN if ok is None else ok, "polynomial identity", 0, d)
            return
        for sg, want in ((1, 0), (-1, 1)):
            fl.reset()
            y = verify.symbol("y", S)
            st = exr.base.copy()
            px = st.new(48, "x", "arg")
            x = fsq(y) if sg == 1 else fneg(fsq(y))
            ex.write_el(st, px, x)
            st.assume(fl.fzero_atom(y), False)
            before = st.copy()
            for k, (s, rv) in enumerate(run(exr, rep, name, fn, st, [px]) or []):
                t0 = time.time()
                neg = isinstance(rv, T) and rv.op == "not"
                q = rv.args[0] if neg else rv
                if isinstance(q, int):
                    ok, d = q ^ neg == want, ""
                elif q.op == "fzero":
                    try:
                        z = Mono(y, S).zero(q.args[0])
                        ok, d = (None if z is None else (int(z) ^ neg) == want), ""
                    except Unsupported as e:
                        ok, d = None, str(e)
                else:
                    ok, d = None, "result %s" % q.op
                rep.add(name, "%s for %sy^2, y != 0 (path %d)" % (bool(want), "-" if sg < 0 else "", k), UNKNOWN if ok is None else ok, "exponent arithmetic mod p-1", time.time() - t0, d)
                frame(rep, name, before, s, set(), "sign %d path %d" % (sg, k))


def lex(x):
    """the canonical integer of x is above (p-1)/2"""
    if x.op == "fconst":
        return int(x.args[0] > (P - 1) // 2)
    k = tuple(tuple(sorted(q.d.items())) for q in fl.vec(x))
    x = fl._sqrep.setdefault(("lex",) + k, x)
    return mk("flex", (x,), 1)


class Lex(Contract):
    home = "C02"
    name = B + "fp::isLexicographicallyLargest() const"

    def apply(self, exr, st, args, I):
        x = ex.read_el(st, args[0], S1, "argument of isLexicographicallyLargest")
        if st.decide(fl.fzero_atom(x)):
            return [(st, 0)]
        return [(st, lex(x))]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        px = st.new(48, "x", "arg")
        x = verify.symbol("x", S1)
        ex.write_el(st, px, x)
        before = st.copy()
        v = fmul(x, f1(ref.MRI))            # the words of its Montgomery form are the canonical integer of x
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [px]) or []):
            t0 = time.time()
            enc = smt.Enc()
            X = z3.Concat(*[enc.e(ex.limb(v, 1, i), 64) for i in reversed(range(6))])
            sol = z3.Solver()
            sol.set("timeout", 60000)
            sol.add(z3.ULT(X, P))
            try:
                for c, val in s.pc:
                    sol.add(enc.e(c, 1) == (1 if val else 0))
                r = enc.e(rv, 1) if isinstance(rv, T) else z3.BitVecVal(rv, 1)
            except NotImplementedError as e:
                rep.add(self.name, "result (path %d)" % k, UNKNOWN, "z3 bit-vectors", 0, str(e))
                continue
            sol.add(z3.Not((r == 1) == z3.UGT(X, (P - 1) // 2)))
            q = sol.check()
            rep.add(self.name, "true iff the canonical integer exceeds (p-1)/2 (path %d)" % k, True if q == z3.unsat else False if q == z3.sat else UNKNOWN, "z3 bit-vectors", time.time() - t0, str(sol.model())[:300] if q == z3.sat else "")
            frame(rep, self.name, before, s, set(), "path %d" % k)


def lex2(x):
    c0, c1 = comp(x, 0), comp(x, 1)
    z = fl.fzero_atom(c1)
    return t.or_(t.and_(t.not_(z), lex(c1), 1), t.and_(z, lex(c0), 1), 1) if isinstance(z, T) else (lex(c0) if z else lex(c1))


class Lex2(Contract):
    home = "C02"
    name = B + "fp2::isLexicographicallyLargest() const"

    def apply(self, exr, st, args, I):
        x = ex.read_el(st, args[0], S2, "argument of isLexicographicallyLargest")
        c0, c1 = comp(x, 0), comp(x, 1)
        out = []
        z = fl.fzero_atom(c1)
        d = st.decide(z)
        for v in ((True, False) if d is None else (d,)):
            s = st.copy()
            try:
                s.assume(z, v)
            except Infeasible:
                continue
            y = c0 if v else c1
            out.append((s, 0 if s.decide(fl.fzero_atom(y)) else lex(y)))
        return out

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        px = st.new(96, "x", "arg")
        x = verify.symbol("x", S2)
        ex.write_el(st, px, x)
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [px]) or []):
            ok, d = prove_lex(s, rv, x)
            rep.add(self.name, "orders by c1, then c0 (path %d)" % k, UNKNOWN if ok is None else ok, "case analysis", 0, d)
            frame(rep, self.name, before, s, set(), "path %d" % k)


def prove_lex(s, rv, x):
    c0, c1 = comp(x, 0), comp(x, 1)
    for z in (True, False):
        s2 = s.copy()
        try:
            s2.assume(fl.fzero_atom(c1), z)
        except Infeasible:
            continue
        y = c0 if z else c1
        w = lex(y)
        # lex(0) is false
        for y0 in (True, False):
            s3 = s2.copy()
            try:
                s3.assume(fl.fzero_atom(y), y0)
                if y0 and isinstance(w, T):
                    s3.assume(w, False)
                if z and isinstance(lex(c1), T):
                    s3.assume(lex(c1), False)
            except Infeasible:
                continue
            r = verify.prove_bool(s3, rv, w)
            if r[0] is not True:
                return r
    return True, ""


for S in (S1, S2):
    reg(Sqrt(S))
    reg(NonResidue(S))
reg(Lex())
reg(Lex2())
