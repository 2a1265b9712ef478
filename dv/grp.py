"""Abstract points: normal forms in Z[endomorphism]-combinations of base points, and their memory representation."""
from . import term as t, field as fl, ref, exec as ex
from .term import T, mk
from .exec import Ptr, Violation, Infeasible
from .ir import Unsupported
from .verify import prove_eq
from .field import fadd, fsub, fneg, fmul, fsq, comp, zero, one, f1, f2c
P = ref.P
S1, S2 = -1, -2
G1, G2 = 1, 2
SORT = {G1: S1, G2: S2}
PSIZE = {G1: 144, G2: 288}
Z = -0xd201000000010000            # the BLS parameter
R = Z**4 - Z**2 + 1
TR = Z + 1                         # trace of Frobenius over F_p
# endomorphism: G1 sigma^2 + sigma + 1 = 0 ;  G2 psi^2 - TR psi + p = 0
EREL = {G1: (-1, -1), G2: (-P, TR)}    # e^2 = c0 + c1 e
_rep = [0]


# ---- linear forms over Boolean conditions (coefficients) ---------------------------------

class Lin:
    """integer const + sum c_i * [cond_i]"""
    __slots__ = ("c", "d")

    def __init__(self, c, d=()):
        self.c = c
        self.d = {k: v for k, v in dict(d).items() if v}

    def key(self):
        return (self.c, tuple(sorted((k.id, v) for k, v in self.d.items())))


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    a, b = lift(a), lift(b)
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = d.get(k, 0) + v
    return low(Lin(a.c + b.c, d))


def lift(a):
    return Lin(a) if isinstance(a, int) else a


def low(a):
    return a.c if isinstance(a, Lin) and not a.d else a


def lmul(a, k):
    if isinstance(a, int) and isinstance(k, int):
        return a * k
    if isinstance(k, Lin):
        a, k = k, a
    if isinstance(k, Lin):
        raise Unsupported("product of symbolic coefficients")
    return low(Lin(a.c * k, {c: v * k for c, v in a.d.items()}))


def lite(c, a, b):
    """[c] ? a : b"""
    df = ladd(a, lmul(b, -1))
    neg = False
    if isinstance(c, T) and c.op == "not":
        c, neg = c.args[0], True
    if neg:
        df = lmul(df, -1)
        b = a
    if isinstance(df, int):
        return ladd(b, low(Lin(0, {c: df})))
    raise Unsupported("conditional coefficient")


def lzero(a):
    return a == 0 if isinstance(a, int) else False


# ---- normal forms -------------------------------------------------------------------------

class NF:
    """group element: {(base term, endomorphism power 0/1): coefficient}"""
    __slots__ = ("g", "d", "_k")

    def __init__(self, g, d=()):
        self.g = g
        self.d = {k: v for k, v in dict(d).items() if not lzero(v)}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((b.id, e, v if isinstance(v, int) else v.key()) for (b, e), v in self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, NF) and self.g == o.g and self.key() == o.key()

    def __hash__(self):
        return hash((self.g, self.key()))

    def iszero(self):
        return not self.d

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = ladd(d[k], v) if k in d else v
        return NF(self.g, d)

    def scale(self, k):
        return NF(self.g, {b: lmul(v, k) for b, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def endo(self):
        c0, c1 = EREL[self.g]
        r = NF(self.g)
        for (b, e), v in self.d.items():
            if e == 0:
                r = r + NF(self.g, {(b, 1): v})
            else:
                r = r + NF(self.g, {(b, 0): lmul(v, c0), (b, 1): lmul(v, c1)})
        return r

    def __repr__(self):
        return " + ".join("%s*%s%s" % (v if isinstance(v, int) else "lin", "e." if e else "", b.args[0] if b.args else b) for (b, e), v in sorted(self.d.items(), key=lambda q: (q[0][0].id, q[0][1]))) or "O"


def nite(c, a, b):
    ks = set(a.d) | set(b.d)
    return NF(a.g, {k: lite(c, a.d.get(k, 0), b.d.get(k, 0)) for k in ks})


_nf = {}          # pt term -> NF


def base(g, name):
    """a base point and its canonical representation"""
    b = mk("pbase", (name, g), 0)
    _nf[b] = NF(g, {(b, 0): 1})
    return b


def rep(nf):
    """a fresh, unspecified representation of the group element"""
    _rep[0] += 1
    pt = mk("prep", (_rep[0],), 0)
    _nf[pt] = nf
    return pt


def nfof(pt):
    return _nf[pt]


def pco(pt, i):
    g = _nf[pt].g
    return mk("fop", ("pt%s" % "xyz"[i], pt, i), SORT[g])


def nfterm(nf):
    """hashable term standing for the group element (canonical)"""
    x = mk("pnf", (nf.g,) + tuple(q for it in sorted(((b.id, e), b, e, v) for (b, e), v in nf.d.items()) for q in (it[1], it[2], it[3] if isinstance(it[3], int) else mk("lin", (it[3].key(),), 0))), 0)
    _nf[x] = nf
    return x


def afc(nf, i):
    """affine coordinate i of the (non-identity) group element; y of the negative is minus y"""
    sgn = 1
    k = nf.key()
    n2 = nf.scale(-1)
    if n2.key() < k:
        nf, sgn = n2, -1
    r = mk("fop", ("af%s" % "xy"[i], nfterm(nf), i), SORT[nf.g])
    return fneg(r) if i == 1 and sgn < 0 else r


def curve_b(g):
    return f1(4) if g == G1 else f2c(4, 4)


def curve_poly(g, X, Y, Zc):
    z2 = fsq(Zc)
    return fsub(fsq(Y), fadd(fmul(fsq(X), X), fmul(curve_b(g), fmul(fsq(z2), z2))))


GEN = {G1: ref.G1, G2: ref.G2} if hasattr(ref, "G1") else {}


def isconst(F, v=None):
    return F.op == "fconst" and (v is None or F.args[0] == v)


def as_point(st, g, c, depth=0):
    """coordinates -> NF or None when they are not a recognised representation"""
    X, Y, Zc = c
    if isconst(Zc, fl.CZ[SORT[g]]):
        return NF(g)
    if all(q.op == "fop" and str(q.args[0]).startswith("pt") for q in c) and X.args[1] is Y.args[1] and Y.args[1] is Zc.args[1] and [q.args[2] for q in c] == [0, 1, 2]:
        return _nf[X.args[1]]
    conds = [q.args[0] for q in c if q.op == "fite"]
    for cond in conds:
        d = st.decide(cond)
        side = [tuple(q.args[k] if q.op == "fite" and q.args[0] is cond else q for q in c) for k in (1, 2)]
        if d is not None:
            return as_point(st, g, side[0 if d else 1], depth + 1)
        a, b = as_point(st, g, side[0], depth + 1), as_point(st, g, side[1], depth + 1)
        if a is not None and b is not None:
            return nite(cond, a, b)
    if isconst(Zc, fl.CO[SORT[g]]):
        y = Y.args[0] if Y.op == "fneg" else Y
        if X.op == "fop" and X.args[0] == "afx" and y.op == "fop" and y.args[0] == "afy" and y.args[1] is X.args[1]:
            n = _nf[X.args[1]]
            return n.scale(-1) if Y.op == "fneg" else n
        if isconst(X) and isconst(Y):
            pt = (X.args[0], Y.args[0])
            if prove_eq(st, curve_poly(g, X, Y, Zc), zero(SORT[g]))[0]:
                neg = (X.args[0], fneg(Y).args[0])
                k = min(pt, neg)
                n = NF(g, {(base(g, ("const", k)), 0): 1})
                return n if k == pt else n.scale(-1)
    return None


def read_coords(st, g, p, what="point operand"):
    n = ex.SIZES[SORT[g]]
    return tuple(ex.read_el(st, Ptr(p.obj, ex.addoff(p.off, n * i)), SORT[g], what) for i in range(3))


def write_coords(st, g, p, c):
    n = ex.SIZES[SORT[g]]
    for i in range(3):
        ex.write_el(st, Ptr(p.obj, ex.addoff(p.off, n * i)), c[i])


def write_nf(st, g, p, nf):
    r = rep(nf)
    write_coords(st, g, p, (pco(r, 0), pco(r, 1), zero(SORT[g]) if nf.iszero() else pco(r, 2)))


def oncurve_rel(terms):
    """curve equations of the points whose coordinates occur in the field terms"""
    seen, out, stk, done = set(), [], list(terms), set()
    while stk:
        x = stk.pop()
        if x.id in done:
            continue
        done.add(x.id)
        if x.op == "fop" and str(x.args[0]).startswith("pt"):
            pt = x.args[1]
            if pt not in seen:
                seen.add(pt)
                out.append(curve_poly(_nf[pt].g, *(pco(pt, i) for i in range(3))))
        elif x.op == "fop" and x.args[0] in ("afx", "afy"):
            k = x.args[1]
            if k not in seen:
                seen.add(k)
                n = _nf[k]
                out.append(curve_poly(n.g, mk("fop", ("afx", k, 0), x.w), mk("fop", ("afy", k, 1), x.w), one(x.w)))
        for a in x.args:
            if isinstance(a, T) and a.w < 0:
                stk.append(a)
    return out


def read_point(st, g, p, fn="?"):
    """memory -> NF ; precondition: the coordinates are on the curve"""
    c = read_coords(st, g, p)
    n = as_point(st, g, c)
    if n is not None:
        return n
    q = curve_poly(g, *c)
    ok, d = prove_eq(st, q, zero(SORT[g]), zeros=oncurve_rel(list(c)))
    if ok is not True:
        for lit, v in st.pc:
            if lit.op == "fzero" and v and fl.same(lit.args[0], q):
                ok = True
    if ok is not True:
        raise Violation("precondition of %s: operand is not shown to be on the curve (%s)" % (fn, d[:200]), st)
    b = mk("pxyz", tuple(c), 0)
    _nf[b] = NF(g, {(b, 0): 1})
    return _nf[b]


def gzero(nf):
    """Boolean term: the element is the identity"""
    if nf.iszero():
        return 1
    if len(nf.d) == 1:
        (b, e), v = next(iter(nf.d.items()))
        # endomorphisms are injective on ... only e=0 is folded
        if v in (1, -1) and e == 0 or v in (1, -1) and e == 1:
            if b.op == "pbase":
                if isinstance(b.args[0], tuple) and b.args[0][0] == "const":
                    return 0
                return fl.fzero_atom(pco(b, 2))
            if b.op == "pxyz":
                return fl.fzero_atom(b.args[2])
    n2 = nf.scale(-1)
    if n2.key() < nf.key():
        nf = n2
    return mk("gzero", (nfterm(nf),), 1)


def gfacts(st):
    """group elements known to be zero / non-zero on the path"""
    z, nz = [], []
    for c, v in st.pc:
        n = None
        if c.op == "gzero":
            n = _nf[c.args[0]]
        elif c.op == "fzero":
            F = c.args[0]
            if F.op == "fneg":
                F = F.args[0]
            if F.op == "fop" and F.args[0] == "ptz":
                n = _nf[F.args[1]]
        if n is not None:
            (z if v else nz).append(n)
    return z, nz


def gnorm(nf, zeros):
    """normal form modulo elements known to be zero (each used through a base with coefficient +-1)"""
    rules = []
    for zf in zeros:
        for b, n in rules:
            zf = gsub(zf, b, n)
        if zf.iszero():
            continue
        piv = next((k for k, v in sorted(zf.d.items(), key=lambda q: -q[0][0].id) if v in (1, -1)), None)
        if piv is None:
            continue
        v = zf.d[piv]
        rest = NF(zf.g, {k: x for k, x in zf.d.items() if k != piv}).scale(-v)
        rules = [(b, gsub(n, piv, rest)) for b, n in rules] + [(piv, rest)]
    for b, n in rules:
        nf = gsub(nf, b, n)
    return nf


def gsub(nf, b, n):
    v = nf.d.get(b)
    if v is None:
        return nf
    return NF(nf.g, {k: x for k, x in nf.d.items() if k != b}) + n.scale(v)


def geq(st, a, b):
    d = a - b
    if d.iszero():
        return True
    z, _ = gfacts(st)
    if any(d == f or d == f.scale(-1) for f in z):
        return True
    # a fact P = 0 also gives endo(P) = 0
    z = [f for f in z if f.g == a.g]
    z = z + [f.endo() for f in z]
    return gnorm(d, z).iszero()
