"""Concrete falsification for the curve groups: C05, C06, C07, C09, C10, C11."""
from . import ref
from .search import *
from .search import GENS, canon, gf12, ef12, cyc_elem, efp, ef2, flat, unflat, gfp, gf2, b01, w, ENC, P
E = {1: ref.E1, 2: ref.E2}
EF = {1: efp, 2: ef2}
GF = {1: gfp, 2: gf2}
FD = {1: 1, 2: 2}
RAND = {1: ref.randpt1, 2: ref.randpt2}
GENP = {1: ref.G1, 2: ref.G2}
HC = {1: ref.H1, 2: ref.H2}
_pool = {}


def sp(g, x):
    return x if g == 2 else x


def pool(g):
    """fixed points: subgroup, full-order, small-order (cofactor) ones"""
    if g in _pool:
        return _pool[g]
    rnd = random.Random("pool%d" % g)
    c = E[g]
    sub = [GENP[g], c.neg(GENP[g])] + [c.mul(GENP[g], rnd.randrange(ref.R)) for _ in range(3)]
    full = [RAND[g](rnd) for _ in range(3)]
    low = []
    h = HC[g]
    primes = []
    m = h
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 2713, 10177, 11953, 859267, 52437899):
        while m % q == 0:
            primes.append(q)
            m //= q
    for q in sorted(set(primes))[:7]:
        for _ in range(6):
            p = c.mul(RAND[g](rnd), ref.R * h // q**primes.count(q))
            if p is not None:
                while c.mul(p, q) is not None:
                    p = c.mul(p, q)
                low.append(p)
                low.append(c.add(p, GENP[g]))
                break
    cof = [c.mul(f, ref.R) for f in full]
    cof = [p for p in cof if p is not None]
    # points fixed by the curve automorphism (x = 0)
    x0 = []
    y = ref.fsqrt(4) if g == 1 else ref.f2sqrt((4, 4))
    if y is not None:
        x0 = [((0, y) if g == 1 else ((0, 0), y))]
    _pool[g] = (sub, full + low + cof + x0)
    return _pool[g]


def anypt(rnd, g, subonly=False):
    s, o = pool(g)
    k = rnd.random()
    if k < 0.12:
        return None
    if subonly or k < 0.5:
        return rnd.choice(s)
    return rnd.choice(o)


def jac(rnd, g, p):
    """hex of a Jacobian representation"""
    c = E[g]
    if p is None:
        k = rnd.random()
        if k < 0.4:
            j = (c.z, c.o, c.z)
        elif k < 0.6:
            j = (c.z, c.z, c.z)
        else:
            j = (GF[g](rnd), GF[g](rnd), c.z)
    else:
        z = c.o if rnd.random() < 0.4 else GF[g](rnd)
        if z == c.z:
            z = c.o
        j = c.tojac(p, z)
    return "".join(EF[g](x) for x in j)


def deccoord(g, h):
    n = 48 * g
    out = []
    for i in range(len(h) // (2 * n)):
        cs = []
        for k in range(g):
            v = canon(h[2 * n * i + 96 * k:2 * n * i + 96 * k + 96])
            if v is None:
                return None
            cs.append(v)
        out.append(cs[0] if g == 1 else tuple(cs))
    return out


def isrep(g, want, norm=False):
    """checker: output is a representation of the point want"""
    c = E[g]
    def f(o):
        q = deccoord(g, o.split()[0])
        if q is None or len(q) != 3:
            return "result is not made of three canonical coordinates"
        got = c.fromjac(q)
        if got != want:
            return "expected a representation of %r" % (want,)
        if norm and q[2] not in (c.o, c.z):
            return "result is not normalised"
    return f


def c05(rnd):
    for g in (1, 2):
        c = E[g]
        nm = "g%d" % g
        p = anypt(rnd, g)
        k = rnd.random()
        q = p if k < 0.2 else c.neg(p) if k < 0.4 else c.add(p, p) if k < 0.45 else anypt(rnd, g)
        A, B_ = jac(rnd, g, p), jac(rnd, g, q)
        yield "%s.add %s %s" % (nm, A, B_), isrep(g, c.add(p, q))
        yield "%s.addA %s %s" % (nm, A, B_), isrep(g, c.add(p, q))
        yield "%s.addAS %s" % (nm, A), isrep(g, c.add(p, p))
        yield "%s.sub %s %s" % (nm, A, B_), isrep(g, c.add(p, c.neg(q)))
        yield "%s.subA %s %s" % (nm, A, B_), isrep(g, c.add(p, c.neg(q)))
        yield "%s.subAS %s" % (nm, A), isrep(g, None)
        yield "%s.dbl %s" % (nm, A), isrep(g, c.add(p, p))
        yield "%s.dblA %s" % (nm, A), isrep(g, c.add(p, p))
        yield "%s.neg %s" % (nm, A), isrep(g, c.neg(p))
        yield "%s.isZero %s" % (nm, A), b01(p is None)
        yield "%s.equal %s %s" % (nm, A, B_), b01(p == q)
        yield "%s.equal %s %s" % (nm, A, jac(rnd, g, p)), "1"
        if p is not None:
            # same x, same y or same z but a different point
            j = c.tojac(p, GF[g](rnd) if rnd.random() < .5 else c.o)
            if j[2] != c.z:
                for i in range(3):
                    k2 = list(j)
                    k2[i] = GF[g](rnd)
                    if k2[2] != c.z:
                        e = c.fromjac(k2) == p
                        yield "%s.equal %s %s" % (nm, A, "".join(map(EF[g], k2))), b01(e)
        yield "%s.affine %s" % (nm, A), isrep(g, p, True)
        yield "%s.isAffine %s" % (nm, A), b01(deccoord(g, A)[2] == c.o)
        yield "%s.zero" % nm, isrep(g, None)
        yield "%s.one" % nm, isrep(g, GENP[g])


GENS["C05"] = c05


# ---------------------------------------------------------------- C02
def expo(rnd, nbits):
    k = rnd.random()
    if k < 0.25:
        return rnd.choice([0, 1, 2, 3, 4, (1 << nbits) - 1, 1 << (nbits - 1), (1 << (nbits - 1)) - 1, ref.R % (1 << nbits), ref.P % (1 << nbits), ref.AX])
    if k < 0.4:
        return rnd.getrandbits(rnd.randrange(1, nbits + 1))
    if k < 0.6:
        v = 0
        for i in range(nbits // 64):
            v |= rnd.choice([0, 0, 1, (1 << 64) - 1, 1 << 63, rnd.getrandbits(64)]) << (64 * i)
        return v
    return rnd.getrandbits(nbits)


def isroot(d, x):
    sq = (pow(x, (P - 1) // 2, P) in (0, 1)) if d == 1 else ref.f2issq(x)

    def f(o):
        t = o.split()
        if (t[0] == "1") != sq:
            return "expected %s: the input is %sa square" % ("1" if sq else "0", "" if sq else "not ")
        if sq:
            cs = [canon(t[1][96 * i:96 * i + 96]) for i in range(d)]
            if None in cs:
                return "root not canonical"
            r = cs[0] * cs[0] % P if d == 1 else ref.f2mul(tuple(cs), tuple(cs))
            if r != x:
                return "the returned value is not a root"
        return None
    return f


def lexl(a):
    if isinstance(a, tuple):
        return lexl(a[1] or a[0])
    return a > (P - 1) // 2


def c02(rnd):
    a = gfp(rnd)
    k = rnd.random()
    if k < 0.1:
        a = rnd.choice([(P - 1) // 2, (P + 1) // 2, 0, 1, P - 1, 2, P - 2])
    b = a if rnd.random() < .1 else gfp(rnd)
    A = efp(a)
    yield "fp.inv " + A, efp(pow(a, P - 2, P))
    yield "fp.exp4 %s %s" % (A, w((e := expo(rnd, 256)), 4)), efp(pow(a, e, P))
    sqa = a * a % P if rnd.random() < .6 else a
    for nm in ("sqrt", "sqrtS"):
        yield "fp.%s %s" % (nm, efp(sqa)), isroot(1, sqa)
    if a:
        yield "fp.isQNR " + A, b01(pow(a, (P - 1) // 2, P) != 1)
    yield "fp.lexLargest " + A, b01(lexl(a))
    yield "fp.sign " + A, b01(not a & 1)
    ra, rb = a * MR % P, b * MR % P
    yield "fp.isOdd " + A, b01(ra & 1)
    yield "fp.isEven " + A, b01(not ra & 1)
    yield "fp.cmp %s %s" % (A, efp(b)), "-1" if ra < rb else "1" if ra > rb else "0"
    x = (gf2(rnd))
    k = rnd.random()
    if k < .1: x = (x[0], 0)
    elif k < .2: x = (0, x[1])
    X = ef2(x)
    i2 = ref.f2inv(x) if x != (0, 0) else (0, 0)
    yield "fp2.inv " + X, ef2(i2)
    s2 = ref.f2mul(x, x) if rnd.random() < .6 else x
    for nm in ("sqrt", "sqrtS"):
        yield "fp2.%s %s" % (nm, ef2(s2)), isroot(2, s2)
    if x != (0, 0):
        yield "fp2.isQNR " + X, b01(not ref.f2issq(x))
    yield "fp2.lexLargest " + X, b01(lexl(x[1]) if x[1] else lexl(x[0]))
    yield "fp2.sign " + X, b01(not ref.f2sgn0(x))
    for n in (6, 7, 8, 10, 12):
        v = expo(rnd, 64 * n)
        if rnd.random() < .4:
            v = (P * rnd.getrandbits(64 * n - 380) + rnd.choice([0, 1, -1, P - 1, rnd.randrange(P)])) % (1 << (64 * n))
        yield "fp.modPrime%d %s" % (n, w(v, n)), efp(v % P)
    if rnd.random() < .3:
        y6, y12 = GEN[6](rnd), GEN[12](rnd)
        z6, z12 = unflat([0] * 6, 6), unflat([0] * 12, 12)
        yield "fp6.inv " + ENC[6](y6), ENC[6](ref.f6inv(y6) if y6 != z6 else y6)
        yield "fp12.inv " + ENC[12](y12), ENC[12](ref.f12inv(y12) if y12 != z12 else y12)


GENS["C02"] = c02


# ---------------------------------------------------------------- C06
def wtest(rnd, g, n, m):
    c = E[g]
    ps = [anypt(rnd, g) for _ in range(min(n, 5))]
    ks = [expo(rnd, 256) for _ in range(min(max(m, 1), 6))]
    pp = [rnd.randrange(len(ps)) for _ in range(n)] if ps else []
    kk = [rnd.randrange(len(ks)) for _ in range(m)]
    if m and n:
        kk[-1] = 0
    acc = {}
    for i in range(min(n, m)):
        acc[pp[i]] = acc.get(pp[i], 0) + ks[kk[i]]
    t = None
    for i, v in acc.items():
        t = c.add(t, c.mul(ps[i], v))
    js = [jac(rnd, g, p) for p in ps]
    y = rnd.choice([0, 1, 1, 2, 2, 3])
    chk = isrep(g, t)

    def f(o):
        return chk(o)
    return "g%d.wsum %s %s %d" % (g, "".join(js[i] for i in pp) or "-", "".join(w(ks[i], 4) for i in kk) or "-", y), f


def c06(rnd):
    for g in (1, 2):
        c = E[g]
        p = anypt(rnd, g)
        A = jac(rnd, g, p)
        for n in ((1, 2, 4, 6) if g == 1 else (1, 2, 4, 8)):
            e = expo(rnd, 64 * n)
            yield "g%d.scale%d %s %s" % (g, n, A, w(e, n)), isrep(g, c.mul(p, e) if p is not None else None)
        n = rnd.choice([0, 1, 2, 3, 5, 8, rnd.randrange(33)])
        m = n if rnd.random() < .6 else rnd.choice([0, 1, n + 1, n + 3, max(0, n - 1)])
        yield wtest(rnd, g, n, m)
        if rnd.random() < .15:
            n = rnd.choice([31, 32, 33, 63, 64, 65, 255, 256, 257, 511, 512, 600])
            yield wtest(rnd, g, n, n + rnd.choice([0, 0, 1, -1]))


GENS["C06"] = c06


def words_(rnd, n):
    """n-word integer with the shapes that make carries and quotient corrections happen"""
    W = 64 * n
    k = rnd.random()
    if k < .25:
        v = 0
        for i in range(n):
            v |= rnd.choice([0, 0, 1, 2**64 - 1, 2**64 - 1, 2**63, 2**63 - 1, rnd.getrandbits(64)]) << (64 * i)
    elif k < .45:
        v = (1 << rnd.randrange(W)) + rnd.choice([-1, 0, 1])
    elif k < .65:
        v = rnd.getrandbits(rnd.randrange(1, W + 1))
    elif k < .75:
        v = rnd.choice([0, 1, 2**W - 1, 2**W - 2])
    else:
        v = rnd.getrandbits(W)
    return v % 2**W


DIVS = [(4, 4), (5, 4), (6, 4), (8, 4), (8, 6), (6, 6), (10, 6), (4, 2), (4, 1), (2, 1), (12, 6), (6, 2), (3, 3)]
MULS = [(2, 1, 1), (4, 2, 2), (8, 4, 4), (12, 6, 6), (4, 2, 1), (4, 1, 2), (6, 4, 2), (8, 6, 2), (5, 4, 1)]
ADDS = [(1, 1, 1), (2, 1, 1), (2, 2, 2), (4, 4, 4), (5, 4, 4), (6, 4, 4), (4, 4, 1), (4, 2, 4), (6, 6, 6), (7, 6, 6), (8, 8, 8), (12, 12, 12), (3, 4, 4)]


def c15(rnd):
    n = rnd.choice([1, 2, 3, 4, 6, 8, 12])
    W = 64 * n
    a = words_(rnd, n)
    b = rnd.choice([a, a ^ (1 << rnd.randrange(W)), words_(rnd, n), (a + 1) % 2**W])
    yield "s.cmp%d %s %s" % (n, w(a, n), w(b, n)), "-1" if a < b else "1" if a > b else "0"
    yield "s.equal%d %s %s" % (n, w(a, n), w(b, n)), b01(a == b)
    yield "s.bitLength%d %s" % (n, w(a, n)), str(a.bit_length())
    sh = rnd.choice([0, 1, 63, 64, 65, 127, 128, W - 1, W, W + 1, rnd.randrange(2 * W), 2**63, 2**64 - 1, 64 * rnd.randrange(n + 2)])
    yield "s.rsh%d %s %d" % (n, w(a, n), sh), w(a >> sh if sh < W else 0, n)
    le, be = a.to_bytes(8 * n, "little").hex(), a.to_bytes(8 * n, "big").hex()
    yield "s.toLE%d %s" % (n, w(a, n)), le
    yield "s.toBE%d %s" % (n, w(a, n)), be
    yield "s.fromLE%d %s" % (n, le), w(a, n)
    yield "s.fromBE%d %s" % (n, be), w(a, n)
    for nc, na, nb in MULS:
        x, y = words_(rnd, na), words_(rnd, nb)
        yield "s.mul%d_%d_%d %s %s" % (nc, na, nb, w(x, na), w(y, nb)), w(x * y, nc)
    for nc, na, nb in ADDS:
        x, y = words_(rnd, na), words_(rnd, nb)
        if rnd.random() < .3 and na == nb == nc:
            y = (2**(64 * nc) - x + rnd.choice([-1, 0, 1])) % 2**(64 * nb)
        yield "s.add%d_%d_%d %s %s" % (nc, na, nb, w(x, na), w(y, nb)), w(x + y, nc) if x + y < 2**(64 * nc) and nc >= max(na, nb) else "throw"
    for n, m in DIVS:
        d = rnd.choice([ref.P, ref.R, words_(rnd, m), words_(rnd, m)]) % 2**(64 * m)
        d = d or 1
        x = words_(rnd, n)
        k = rnd.random()
        if k < .4:
            x = d * words_(rnd, n) + rnd.choice([-1, 0, 1, d - 1])
        elif k < .5:
            x = d + rnd.choice([-1, 0, 1])
        elif k < .6:             # top words equal to the divisor's
            x = (d << 64 * (n - m)) + rnd.choice([-1, 0, rnd.getrandbits(64)])
        x %= 2**(64 * n)
        yield "s.div%d_%d %s %s" % (n, m, w(x, n), w(d, m)), w(x // d, n) + " " + w(x % d, m)
    for n in (6, 8):
        x = rnd.choice([words_(rnd, n), ref.P * rnd.getrandbits(64 * n - 381) - 1, ref.P, ref.P - 1]) % 2**(64 * n)
        yield "fp.modPrime%d %s" % (n, w(x, n)), efp(x % ref.P)
    by = bytes(rnd.choice([0, 9, 10, 15, 16, 0x99, 0x9a, 0xa9, 0xff, rnd.randrange(256)]) for _ in range(rnd.choice([0, 1, 2, 3, 31, 32, 33, 300] * 20 + [33000, 70000])))
    yield "tohex " + (by.hex() or "-"), "0x" + by.hex()
    b32 = bytes(rnd.randrange(256) for _ in range(32))
    yield "tohex32 " + b32.hex(), "0x" + b32.hex()
    txt = by.hex()
    txt = "".join(c.upper() if rnd.random() < .5 else c for c in txt)
    t2 = rnd.choice(["", "0x"]) + txt
    yield "hex2 " + (t2.encode().hex() or "-"), by.hex() or "-"
    odd = t2 + rnd.choice("0af")
    yield "hex2 " + odd.encode().hex(), "-"
    t32 = rnd.choice(["", "0x"]) + "".join(c.upper() if rnd.random() < .5 else c for c in b32.hex())
    yield "hex32 " + t32.encode().hex(), b32.hex()


GENS["C15"] = c15


def c07(rnd):
    for g in (1, 2):
        c = E[g]
        nm = "g%d" % g
        p = anypt(rnd, g)
        A = jac(rnd, g, p)
        yield "%s.isOnCurve %s" % (nm, A), "1"
        yield "%s.inSub %s" % (nm, A), b01(p is None or c.insub(p))
        r = anypt(rnd, g)
        if r is not None and p is not None:
            q = c.add(p, r)
            yield "%s.inSub %s" % (nm, jac(rnd, g, q)), b01(q is None or c.insub(q))
        # coordinates off the curve
        f = [GF[g](rnd) for _ in range(3)]
        if rnd.random() < .5 and p is not None:
            j = list(c.tojac(p, f[2] if f[2] != c.z and rnd.random() < .5 else c.o))
            k = rnd.randrange(3)
            j[k] = rnd.choice([f[k], c.neg_(j[k]), c.add_(j[k], c.o), c.z, c.o])
            f = j
        if rnd.random() < .2:
            # on a curve with another constant
            x, y = f[0], f[1]
            f = [x, y, c.o]
        z2 = c.mul_(f[2], f[2])
        z6 = c.mul_(z2, c.mul_(z2, z2))
        on = f[2] == c.z or c.mul_(f[1], f[1]) == c.add_(c.mul_(f[0], c.mul_(f[0], f[0])), c.mul_(c.b, z6))
        yield "%s.isOnCurve %s" % (nm, "".join(map(EF[g], f))), b01(on)
    p = anypt(rnd, 1)
    beta = pow(2, (P - 1) // 3, P)
    bs = [(p[0] * b % P, p[1]) if p else None for b in (beta, beta * beta % P)]
    yield "g1.glv " + jac(rnd, 1, p), lambda o, a=isrep(1, bs[0]), b=isrep(1, bs[1]): a(o) and b(o)
    q = anypt(rnd, 2)
    cx, cy = ref.f2inv(ref.f2pow((1, 1), (P - 1) // 3)), ref.f2inv(ref.f2pow((1, 1), (P - 1) // 2))
    yield "g2.psi " + jac(rnd, 2, q), isrep(2, None if q is None else (ref.f2mul(cx, ref.f2conj(q[0])), ref.f2mul(cy, ref.f2conj(q[1]))))


def c07gt(rnd):
    """elements of order r, of the cyclotomic subgroup, of the whole field, zero and one"""
    c = cyc_elem(rnd)
    h = ref.f12pow(c, (P**4 - P**2 + 1) // ref.R) if rnd.random() < .3 else c
    k = rnd.randrange(5)
    x = [h, c, gf12(rnd), ref.F12O, (ref.f6neg(ref.F12O[0]), ref.F12O[1])][k]
    yield "fp12.isGtValid " + ef12(x), b01(ref.f12pow(x, ref.R) == ref.F12O)


_c07 = c07


def c07(rnd):
    yield from _c07(rnd)
    if rnd.random() < .1:
        yield from c07gt(rnd)


GENS["C07"] = c07


_lexp = []


def lexpts():
    """points of the twist whose ordinate has a zero coordinate, small abscissae, ..."""
    if _lexp:
        return _lexp
    rnd = random.Random("lex")
    while len(_lexp) < 6:
        b = rnd.randrange(1, P)
        a = ref.fsqrt((b**3 - 4) * pow(3 * b, -1, P) % P)
        if a is None:
            continue
        x = (a, b)
        y = ref.f2sqrt(ref.f2add(ref.f2mul(x, ref.f2mul(x, x)), (4, 4)))
        if y is not None:
            _lexp.extend([(x, y), (x, ref.f2neg(y))])
    return _lexp


def small_x(rnd, g):
    """a point whose abscissa is small enough for a non-canonical encoding"""
    while True:
        x = rnd.randrange(2**381 - P) if rnd.random() < .5 else rnd.randrange(2000)
        if g == 1:
            y = ref.fsqrt((x**3 + 4) % P)
        else:
            x = (x, rnd.randrange(2**381 - P)) if rnd.random() < .5 else (rnd.randrange(P), x)
            y = ref.f2sqrt(ref.f2add(ref.f2mul(x, ref.f2mul(x, x)), (4, 4)))
        if y is not None:
            return (x, y if rnd.random() < .5 else E[g].neg((x, y))[1])


def ebytes(g, v, be=True, mont=1):
    cs = [v] if g == 1 else list(v)
    cs = [c if mont else c * ref.MR % P for c in cs]
    if be:
        return b"".join(c.to_bytes(48, "big") for c in reversed(cs))
    return b"".join(c.to_bytes(48, "little") for c in cs)


def compressed(g, p):
    if p is None:
        return bytes([0xc0]) + bytes(48 * g - 1)
    s = bytearray(ebytes(g, p[0]))
    s[0] |= 0x80 | (0x20 if lexl(p[1]) else 0)
    return bytes(s)


def parsec(g, s):
    """compressed string -> "none" or the point"""
    f = s[0] >> 5
    if not f & 4:
        return "none"
    if f & 2:
        return "none" if f & 1 or any(s[1:]) or s[0] & 31 else None
    cs = [int.from_bytes(bytes([s[0] & 31]) + s[1:48], "big")] + ([int.from_bytes(s[48:], "big")] if g == 2 else [])
    if any(c >= P for c in cs):
        return "none"
    x = cs[0] if g == 1 else (cs[1], cs[0])
    y = ref.fsqrt((x**3 + 4) % P) if g == 1 else ref.f2sqrt(ref.f2add(ref.f2mul(x, ref.f2mul(x, x)), (4, 4)))
    if y is None:
        return "none"
    if lexl(y) != bool(f & 1):
        y = E[g].neg((x, y))[1]
    return (x, y)


def pure(g, want, raw=None):
    """expected output of a parser: the exact stored coordinates when given, otherwise any form of the point"""
    if want == "none":
        return "none"
    if raw is not None:
        return raw
    return isrep(g, want)


def c09(rnd):
    for g in (1, 2):
        c, nm = E[g], "g%d" % g
        k = rnd.random()
        p = rnd.choice(lexpts()) if g == 2 and k < .3 else small_x(rnd, g) if k < .5 else anypt(rnd, g)
        A = jac(rnd, g, p)
        cb = compressed(g, p)
        yield "%s.toComp %s" % (nm, A), cb.hex()
        yield "%s.toComps %s" % (nm, A), cb.hex()
        for s in (cb, bytes([cb[0] ^ 0x20]) + cb[1:], bytes([cb[0] ^ 1 << rnd.randrange(8)]) + cb[1:]):
            yield "%s.fromComp %s" % (nm, s.hex()), pure(g, parsec(g, s))
        s = bytearray(rnd.choice([cb, bytes([0xc0]) + bytes(48 * g - 1)]))
        s[rnd.randrange(len(s))] ^= 1 << rnd.randrange(8)
        yield "%s.fromComp %s" % (nm, s.hex()), pure(g, parsec(g, bytes(s)))
        if p is not None:           # the abscissa plus p, in either coordinate
            cs = [p[0]] if g == 1 else list(p[0])
            i = rnd.randrange(len(cs))
            v = cs[i] + P * rnd.randrange(1, 9 if i == 0 and g == 2 else 2)
            lim = 2**381 if i == len(cs) - 1 else 2**384
            if v < lim:
                cs[i] = v
                s = bytearray(b"".join(q.to_bytes(48, "big") for q in reversed(cs)))
                s[0] |= cb[0] & 0xe0
                yield "%s.fromComp %s" % (nm, bytes(s).hex()), "none"
        for be in (True, False):
            e_ = "BE" if be else "LE"
            for mont in (0, 1):
                aff = bytes(96 * g) if p is None else ebytes(g, p[0], be, mont) + ebytes(g, p[1], be, mont)
                yield "%s.toAff%s%s %s %d" % (nm, e_, rnd.choice(["", "s"]), A, mont), aff.hex()
                j = [GF[g](rnd) for _ in range(3)] if rnd.random() < .5 else list(c.tojac(p, GF[g](rnd))) if p is not None else [GF[g](rnd), GF[g](rnd), c.z]
                J = "".join(map(EF[g], j))
                jb = b"".join(ebytes(g, q, be, mont) for q in j)
                yield "%s.toJac%s%s %s %d" % (nm, e_, rnd.choice(["", "s"]), J, mont), jb.hex()
                for chk in (0, 1):
                    on = j[2] == c.z or c.mul_(j[1], j[1]) == c.add_(c.mul_(j[0], c.mul_(j[0], j[0])), c.mul_(c.b, c.mul_(c.mul_(j[2], j[2]), c.mul_(c.mul_(j[2], j[2]), c.mul_(j[2], j[2])))))
                    ok = on or not chk
                    yield "%s.fromJac%s %s %d %d" % (nm, e_, jb.hex(), chk, mont), pure(g, "none" if not ok else 0, J)
                    yield "%s.fromAff%s %s %d %d" % (nm, e_, aff.hex(), chk, mont), pure(g, p)
                    # a non-canonical coordinate
                    for src, op in ((jb, "fromJac"), (aff, "fromAff")):
                        s = bytearray(src)
                        i = rnd.randrange(len(s) // 48)
                        v = int.from_bytes(s[48 * i:48 * i + 48], "big" if be else "little")
                        v = rnd.choice([v + P, v + P, P, 2**384 - 1, v + 2**381])
                        if v < 2**384:
                            s[48 * i:48 * i + 48] = v.to_bytes(48, "big" if be else "little")
                            yield "%s.%s%s %s %d %d" % (nm, op, e_, s.hex(), chk, mont), "none"
                    # an affine point off the curve
                    q = [GF[g](rnd), GF[g](rnd)]
                    if p is not None and rnd.random() < .6:
                        q = [rnd.choice([p[0], q[0], c.z]), rnd.choice([p[1], q[1], c.z])]
                    on = c.on(tuple(q)) or q == [c.z, c.z]
                    want = None if q == [c.z, c.z] else tuple(q)
                    s = ebytes(g, q[0], be, mont) + ebytes(g, q[1], be, mont)
                    raw = None if want is None else EF[g](q[0]) + EF[g](q[1]) + EF[g](c.o)
                    yield "%s.fromAff%s %s %d %d" % (nm, e_, s.hex(), chk, mont), pure(g, want if on or not chk else "none", raw)


GENS["C09"] = c09
