"""Field-sorted terms and their polynomial normal forms.

Sorts: T.w == -1 (Fp), -2 (Fp2), -6 (Fp6), -12 (Fp12).  A term is a DAG; its meaning is
computed on demand as a vector of polynomials over F_p in packed-exponent form, where
Fp2 is F_p[u]/(u^2+1) and u is atom 0.  Every Fp2-sorted atom A comes with its conjugate
A~, so that conjugation, Frobenius and component extraction are exact polynomial maps.
"""
from . import ref
from .term import T, mk, show, and_
P = ref.P
S1, S2, S6, S12 = -1, -2, -6, -12
NC = {S1: 1, S2: 2, S6: 6, S12: 12}
SHIFT = 8                  # bits of exponent per atom
EM = (1 << SHIFT) - 1
ATOMS = ["u"]              # atom index -> description
_conj = {0: None}
_atomof = {}
INV2 = pow(2, -1, P)


class Poly:
    """polynomial over F_p in packed exponents (dict int->int)"""
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + c) % P
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: P - c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, int):
            o %= P
            if o == 0:
                return ZERO
            return Poly({m: c * o % P for m, c in self.d.items()})
        r = {}
        get = r.get
        a, b = (self.d, o.d) if len(self.d) <= len(o.d) else (o.d, self.d)
        bi = list(b.items())
        if len(a) * len(bi) > 40_000_000:
            raise OverflowError("polynomial too large")
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                if m & 2 and (m & EM) == 2:
                    m -= 2
                    r[m] = get(m, 0) - c1 * c2
                else:
                    r[m] = get(m, 0) + c1 * c2
        return Poly({m: v for m, c in r.items() if (v := c % P)})

    def conj(self):
        r = {}
        for m, c in self.d.items():
            n, k, x, sg = 0, 0, m, 0
            while x:
                e = x & EM
                if e:
                    if k == 0:
                        sg = e & 1
                        n += e
                    else:
                        n += e << (SHIFT * _conj[k])
                x >>= SHIFT
                k += 1
            r[n] = (P - c) if sg else c
        return Poly(r)

    def iszero(self):
        return not self.d

    def isconst(self):
        return all(m in (0, 1) for m in self.d)

    def const(self):
        return (self.d.get(0, 0), self.d.get(1, 0))

    def atoms(self):
        s = set()
        for m in self.d:
            k = 0
            while m:
                if m & EM and k:
                    s.add(k)
                m >>= SHIFT
                k += 1
        return s

    def __repr__(self):
        if not self.d:
            return "0"
        o = []
        for m, c in sorted(self.d.items(), reverse=True)[:40]:
            s, k, x = [], 0, m
            while x:
                e = x & EM
                if e:
                    s.append(str(ATOMS[k]) + ("^%d" % e if e > 1 else ""))
                x >>= SHIFT
                k += 1
            cc = c if c < P // 2 else c - P
            o.append(("%d" % cc if abs(cc) < 10**6 else hex(cc)) + ("*" if s else "") + "*".join(s))
        return " + ".join(o) + (" ..." if len(self.d) > 40 else "")

    def monic(self):
        """scale so that the largest monomial has coefficient 1 (over F_p2)"""
        if not self.d:
            return self
        top = max(m & ~EM for m in self.d)
        c = (self.d.get(top, 0), self.d.get(top | 1, 0))
        if c == (1, 0):
            return self
        i = ref.f2inv(c)
        return self * cpoly(i)


def _chk(m):
    return m


ZERO = Poly({})
ONE = Poly({0: 1})
UP = Poly({1: 1})


def cpoly(c):
    if isinstance(c, int):
        c %= P
        return Poly({0: c} if c else {})
    d = {}
    if c[0] % P:
        d[0] = c[0] % P
    if c[1] % P:
        d[1] = c[1] % P
    return Poly(d)


def new_atom(desc, selfconj):
    k = len(ATOMS)
    ATOMS.append(desc)
    if selfconj:
        _conj[k] = k
    else:
        ATOMS.append("%s~" % (desc,))
        _conj[k], _conj[k + 1] = k + 1, k
    return k


def apoly(k):
    return Poly({1 << (SHIFT * k): 1})


# ---- term constructors ------------------------------------------------------------

def fvar(name, sort):
    return mk("fvar", (name,), sort)


def fconst(c, sort):
    return mk("fconst", (c,), sort)


def f1(c): return fconst(c % P, S1)
def f2c(a, b=0): return fconst((a % P, b % P), S2)


CZ = {S1: 0, S2: (0, 0), S6: ((0, 0),) * 3, S12: (((0, 0),) * 3,) * 2}
CO = {S1: 1, S2: (1, 0), S6: ref.F6O, S12: ref.F12O}
_cadd = {S1: lambda a, b: (a + b) % P, S2: ref.f2add, S6: ref.f6add, S12: ref.f12add}
_csub = {S1: lambda a, b: (a - b) % P, S2: ref.f2sub, S6: ref.f6sub, S12: ref.f12sub}
_cmul = {S1: lambda a, b: a * b % P, S2: ref.f2mul, S6: ref.f6mul, S12: ref.f12mul}
_cinv = {S1: lambda a: pow(a, P - 2, P), S2: ref.f2inv, S6: ref.f6inv, S12: ref.f12inv}


def zero(s): return fconst(CZ[s], s)
def one(s): return fconst(CO[s], s)


def fadd(a, b):
    if a.op == "fconst" and b.op == "fconst":
        return fconst(_cadd[a.w](a.args[0], b.args[0]), a.w)
    if a.op == "fconst" and a.args[0] == CZ[a.w]:
        return b
    if b.op == "fconst" and b.args[0] == CZ[a.w]:
        return a
    return mk("fadd", (a, b), a.w)


def fsub(a, b):
    if a is b:
        return zero(a.w)
    if a.op == "fconst" and b.op == "fconst":
        return fconst(_csub[a.w](a.args[0], b.args[0]), a.w)
    if b.op == "fconst" and b.args[0] == CZ[a.w]:
        return a
    return mk("fsub", (a, b), a.w)


def fneg(a):
    if a.op == "fconst":
        return fconst(_csub[a.w](CZ[a.w], a.args[0]), a.w)
    if a.op == "fneg":
        return a.args[0]
    return mk("fneg", (a,), a.w)


def fmul(a, b):
    if a.op == "fconst" and b.op == "fconst":
        return fconst(_cmul[a.w](a.args[0], b.args[0]), a.w)
    if a.op == "fconst":
        a, b = b, a
    if b.op == "fconst":
        if b.args[0] == CO[a.w]:
            return a
        if b.args[0] == CZ[a.w]:
            return b
    elif a.id > b.id:
        a, b = b, a
    return mk("fmul", (a, b), a.w)


def fsq(a): return fmul(a, a)


def fscale(a, k):
    """small integer multiple"""
    if a.op == "fconst":
        return fmul(a, lift(f1(k), a.w))
    return mk("fscale", (a, k % P), a.w)


def finv(a):
    if a.op == "fconst":
        return fconst(_cinv[a.w](a.args[0]), a.w)
    return mk("finv", (a,), a.w)


def fconj(a):
    if a.op == "fconj":
        return a.args[0]
    if a.op == "fconst":
        if a.w == S2:
            return fconst(ref.f2conj(a.args[0]), S2)
        if a.w == S12:
            return fconst(ref.f12conj(a.args[0]), S12)
    if a.op == "mk" and a.w == S2:
        return mk2(a.args[0], fneg(a.args[1]))
    return mk("fconj", (a,), a.w)


def ffrob(a, k):
    return mk("ffrob", (a, k), a.w)


def fsqrt(x):
    return mk("fop", ("sqrt", x), x.w)


def issq(x):
    """Boolean: x is a square.  x and its normal form give the same atom"""
    if x.op == "fconst":
        e = (P - 1) // 2 if x.w == S1 else (P * P - 1) // 2
        v = ref.gpow(_cmul[x.w], CO[x.w], x.args[0], e)
        return int(v == CO[x.w] or x.args[0] == CZ[x.w])
    k = (x.w, tuple(tuple(sorted(q.d.items())) for q in vec(x)))
    x = _sqrep.setdefault(k, x)
    return mk("issq", (x,), 1)


_sqrep = {}


def fpow(a, e):
    if e == 1:
        return a
    if e == 0:
        return one(a.w)
    if a.op == "fconst":
        return fconst(ref.gpow(_cmul[a.w], CO[a.w], a.args[0], e), a.w)
    return mk("fpow", (a, e), a.w)


def fite(c, a, b):
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    return mk("fite", (c, a, b), a.w)


SUB = {S2: S1, S6: S2, S12: S6}
NSUB = {S2: 2, S6: 3, S12: 2}


def comp(a, i):
    if a.op == "mk":
        return a.args[i]
    if a.op == "fconst":
        return fconst(a.args[0][i], SUB[a.w])
    if a.op == "fite":
        return fite(a.args[0], comp(a.args[1], i), comp(a.args[2], i))
    if a.op == "fadd":
        return fadd(comp(a.args[0], i), comp(a.args[1], i))
    if a.op == "fsub":
        return fsub(comp(a.args[0], i), comp(a.args[1], i))
    if a.op == "fneg":
        return fneg(comp(a.args[0], i))
    return mk("comp", (a, i), SUB[a.w])


def mkn(parts, sort):
    parts = tuple(parts)
    if all(p.op == "fconst" for p in parts):
        return fconst(tuple(p.args[0] for p in parts), sort)
    p0 = parts[0]
    if p0.op == "comp" and p0.args[1] == 0 and p0.args[0].w == sort:
        A = p0.args[0]
        if all(p.op == "comp" and p.args[0] is A and p.args[1] == i for i, p in enumerate(parts)):
            return A
    if all(p.op == "fite" for p in parts) and len({p.args[0] for p in parts}) == 1:
        return fite(p0.args[0], mkn([p.args[1] for p in parts], sort), mkn([p.args[2] for p in parts], sort))
    return mk("mk", parts, sort)


def mk2(a, b): return mkn((a, b), S2)


def lift(a, sort):
    """embed a subfield element"""
    while a.w != sort:
        up = {S1: S2, S2: S6, S6: S12}[a.w]
        a = mkn([a] + [zero(a.w)] * (NSUB[up] - 1), up)
    return a


def flat(a, to=S1):
    """components down to sort `to`"""
    if a.w == to:
        return [a]
    r = []
    for i in range(NSUB[a.w]):
        r += flat(comp(a, i), to)
    return r


def unflat(parts, sort):
    s = parts[0].w
    if s == sort:
        assert len(parts) == 1
        return parts[0]
    up = {S1: S2, S2: S6, S6: S12}[s]
    n = NSUB[up]
    return unflat([mkn(parts[i:i + n], up) for i in range(0, len(parts), n)], sort)


# ---- normal forms -------------------------------------------------------------------
# vec(t): S1/S2 -> [poly]; S6 -> 3 polys (Fp2); S12 -> 6 polys (c0.c0 c0.c1 c0.c2 c1.c0 ..)
_vec = {}
NV = {S1: 1, S2: 1, S6: 3, S12: 6}
XIP = cpoly((1, 1))
INVREL = []     # list of (atom poly i, poly x) with x*i = 1 unless x = 0


def reset():
    _vec.clear()
    _atomof.clear()
    del ATOMS[1:]
    _conj.clear()
    _conj[0] = None
    INVREL.clear()
    _sqrep.clear()
    _invs.clear()


_invs = {}


def inv_atom(p):
    """normal form of the inverse of the (Fp2-valued) polynomial p"""
    if p.isconst():
        return cpoly(ref.f2inv(p.const()))
    q = p.monic()
    # p = c*q
    top = max(m & ~EM for m in p.d)
    c = (p.d.get(top, 0), p.d.get(top | 1, 0))
    if len(q.d) == 1:            # a monomial: invert each atom separately
        m = next(iter(q.d))
        out, k = cpoly(ref.f2inv(c)), 0
        while m:
            e = m & EM
            if e:
                for _ in range(e):
                    out = out * _inv1(apoly(k))
            m >>= SHIFT
            k += 1
        return out
    return _inv1(q) * cpoly(ref.f2inv(c))


def _inv1(q):
    k = q.key()
    if k in _invs:
        return _invs[k]
    qc = q.conj()
    if qc == q:
        a = new_atom("inv(%r)" % q if len(q.d) < 6 else "inv(..%d)" % len(q.d), True)
        _invs[k] = apoly(a)
        INVREL.append((a, q))
    else:
        # q.conj() may differ from its monic form by a constant
        a = new_atom("inv(%r)" % q if len(q.d) < 6 else "inv(..%d)" % len(q.d), False)
        _invs[k] = apoly(a)
        mc = qc.monic()
        top = max(m & ~EM for m in qc.d)
        c = (qc.d.get(top, 0), qc.d.get(top | 1, 0))
        # inv(mc) = c * inv(qc) = c * conj(atom)
        _invs.setdefault(mc.key(), apoly(a + 1) * cpoly(c))
        INVREL.append((a, q))
        INVREL.append((a + 1, qc))
    return _invs[k]


def vmul6(x, y):
    t = [ZERO] * 5
    for i in range(3):
        if not x[i].d:
            continue
        for j in range(3):
            if y[j].d:
                t[i + j] = t[i + j] + x[i] * y[j]
    return [t[0] + XIP * t[3], t[1] + XIP * t[4], t[2]]


def vmulv(x): return [XIP * x[2], x[0], x[1]]
def vadd(x, y): return [a + b for a, b in zip(x, y)]
def vsub(x, y): return [a - b for a, b in zip(x, y)]


def vmul(x, y, s):
    if s in (S1, S2):
        return [x[0] * y[0]]
    if s == S6:
        return vmul6(x, y)
    a = vadd(vmul6(x[:3], y[:3]), vmulv(vmul6(x[3:], y[3:])))
    b = vadd(vmul6(x[:3], y[3:]), vmul6(x[3:], y[:3]))
    return a + b


def catoms(c, s):
    if s in (S1, S2):
        return [cpoly(c)]
    if s == S6:
        return [cpoly(x) for x in c]
    return [cpoly(x) for h in c for x in h]


def vec(t):
    r = _vec.get(t)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x in _vec:
            continue
        if done:
            _vec[x] = _v(x)
        else:
            st.append((x, True))
            for a in x.args:
                if isinstance(a, T) and a.w < 0 and a not in _vec:
                    st.append((a, False))
    return _vec[t]


def _v(t):
    op, s, a = t.op, t.w, t.args
    if op == "fconst":
        return catoms(a[0], s)
    if op in ("fvar", "fop", "fraw"):
        n = NV[s]
        key = t
        if key not in _atomof:
            ks = []
            for i in range(n):
                ks.append(new_atom((str(a[0]) if op != "fraw" else "raw") + ("_%d" % i if n > 1 else ""), s == S1))
            _atomof[key] = ks
        return [apoly(k) for k in _atomof[key]]
    if op == "fadd":
        return vadd(vec(a[0]), vec(a[1]))
    if op == "fsub":
        return vsub(vec(a[0]), vec(a[1]))
    if op == "fneg":
        return [-x for x in vec(a[0])]
    if op == "fmul":
        return vmul(vec(a[0]), vec(a[1]), s)
    if op == "fscale":
        return [x * a[1] for x in vec(a[0])]
    if op == "fpow":
        e, x = a[1], vec(a[0])
        if e > 64:          # an opaque value determined by the base's normal form
            if all(q.isconst() for q in x) and s in (S1, S2):
                pass
            key = ("pow", s, tuple(tuple(sorted(q.d.items())) for q in x), e)
            if key not in _atomof:
                _atomof[key] = [new_atom("pow_%d" % i, s == S1) for i in range(NV[s])]
            return [apoly(k) for k in _atomof[key]]
        r = catoms(CO[s], s)
        for _ in range(e):
            r = vmul(r, x, s)
        return r
    if op == "mk":
        if s == S2:
            return [vec(a[0])[0] + UP * vec(a[1])[0]]
        return [q for x in a for q in vec(x)]
    if op == "comp":
        x, i = vec(a[0]), a[1]
        if a[0].w == S2:
            p = x[0]
            c = p.conj()
            if i == 0:
                return [(p + c) * INV2]
            return [(p - c) * UP * (P - INV2)]
        if a[0].w == S6:
            return [x[i]]
        return x[3 * i:3 * i + 3]
    if op == "fconj":
        x = vec(a[0])
        if s == S2:
            return [x[0].conj()]
        return x[:3] + [-q for q in x[3:]]
    if op == "ffrob":
        x, k = vec(a[0]), a[1]
        if s == S1:
            return x
        f = (lambda q: q.conj()) if k & 1 else (lambda q: q)
        if s == S2:
            return [f(x[0])]
        g = ref.G6[k % 6]
        six = lambda y: [f(y[0]), f(y[1]) * cpoly(g), f(y[2]) * cpoly(ref.f2mul(g, g))]
        if s == S6:
            return six(x)
        h = cpoly(ref.G12[k % 12])
        return six(x[:3]) + [q * h for q in six(x[3:])]
    if op == "finv":
        x = vec(a[0])
        if s in (S1, S2):
            return [inv_atom(x[0])]
        if s == S6:
            return vinv6(x)
        c0, c1 = x[:3], x[3:]
        d = vinv6(vsub(vmul6(c0, c0), vmulv(vmul6(c1, c1))))
        return vmul6(c0, d) + [-q for q in vmul6(c1, d)]
    raise NotImplementedError("normal form of " + op)


def vinv6(x):
    a, b, c = x
    t0 = a * a - XIP * b * c
    t1 = XIP * c * c - a * b
    t2 = b * b - a * c
    i = inv_atom(a * t0 + XIP * (c * t1 + b * t2))
    return [t0 * i, t1 * i, t2 * i]


def substitute(p, sub):
    """replace atoms by polynomials: sub: atom index -> Poly"""
    out = ZERO
    for m, c in p.d.items():
        keep, k, x = 0, 0, m
        fac = []
        while x:
            e = x & EM
            if e:
                if k in sub:
                    fac += [sub[k]] * e
                else:
                    keep |= e << (SHIFT * k)
            x >>= SHIFT
            k += 1
        q = Poly({keep: c})
        for f in fac:
            q = q * f
        out = out + q
    return out


def divides(m, n):
    """monomial m divides n (ignoring u)"""
    k = 0
    m >>= SHIFT
    n >>= SHIFT
    while m:
        if (m & EM) > (n & EM):
            return False
        m >>= SHIFT
        n >>= SHIFT
    return True


def reduce(p, rels, maxit=200000):
    """rewrite p modulo relations (lead monomial -> rest); rels: list of (lead, Poly rest) meaning lead = rest"""
    work = dict(p.d)
    out = {}
    it = 0
    while work:
        m, c = work.popitem()
        for lead, rest in rels:
            if divides(lead, m):
                it += 1
                if it > maxit:
                    raise OverflowError("reduction does not terminate")
                q = m - lead
                for m2, c2 in (Poly({q: c}) * rest).d.items():
                    v = (work.get(m2, 0) + c2) % P
                    if v:
                        work[m2] = v
                    else:
                        work.pop(m2, None)
                break
        else:
            v = (out.get(m, 0) + c) % P
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return Poly(out)


def relation(p, lead=None):
    """p = 0 as a rewrite rule with the given lead monomial (default: largest); lead coefficient must be invertible"""
    if lead is None:
        lead = max(m & ~EM for m in p.d)
    c = (p.d.get(lead, 0), p.d.get(lead | 1, 0))
    q = p * cpoly(ref.f2inv(c))
    return (lead, -(q - Poly({lead: 1})))


def inv_relations(skip=()):
    """rewrite rules atom*lead(x) -> ... for every inverse atom (x != 0 assumed)"""
    out = []
    for a, x in INVREL:
        if a in skip:
            continue
        top = max(m & ~EM for m in x.d)
        out.append(relation(x * apoly(a) - ONE, top + (1 << (SHIFT * a))))
    return out


def same(a, b):
    """are two field terms equal as rational functions (normal forms equal)?"""
    if a is b:
        return True
    va, vb = vec(a), vec(b)
    return all(x == y for x, y in zip(va, vb))


def fzero_atom(F):
    """boolean term F == 0"""
    if F.op == "fconst":
        return int(F.args[0] == CZ[F.w])
    if F.w in (S6, S12):
        r = 1
        for x in flat(F, S2):
            r = and_(r, fzero_atom(x), 1)
        return r
    return mk("fzero", (F,), 1)


def show_term(t):
    return show(t, 5)
