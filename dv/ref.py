"""Mathematical reference (plain integers), written from the published definitions of BLS12-381,
RFC 9380, EIP-2333, RFC 5869 and FIPS 180-4; it is the meaning the contracts refer to."""
import hashlib, hmac

X = -0xd201000000010000
AX = 0xd201000000010000
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
assert R == X**4 - X**2 + 1 and P == (X - 1)**2 * R // 3 + X
MR = 1 << 384
MRI = pow(MR, -1, P)
H1 = (X - 1)**2 // 3
H2 = (X**8 - 4*X**7 + 5*X**6 - 4*X**4 + 6*X**3 - 4*X**2 - 4*X + 13) // 9
HEFF2 = 0xbc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551


def toM(a): return a * MR % P
def fromM(a): return a * MRI % P


# ---- Fp2 as (a, b)
def f2(a, b=0): return (a % P, b % P)
def f2add(x, y): return ((x[0]+y[0]) % P, (x[1]+y[1]) % P)
def f2sub(x, y): return ((x[0]-y[0]) % P, (x[1]-y[1]) % P)
def f2neg(x): return (-x[0] % P, -x[1] % P)
def f2mul(x, y): return ((x[0]*y[0]-x[1]*y[1]) % P, (x[0]*y[1]+x[1]*y[0]) % P)
def f2conj(x): return (x[0], -x[1] % P)
def f2inv(x):
    n = x[0]*x[0]+x[1]*x[1]
    i = pow(n % P, P-2, P)
    return (x[0]*i % P, -x[1]*i % P)
def f2pow(x, e):
    r = (1, 0)
    while e:
        if e & 1: r = f2mul(r, x)
        x = f2mul(x, x)
        e >>= 1
    return r
def f2scal(x, k): return (x[0]*k % P, x[1]*k % P)
XI = (1, 1)
F2Z, F2O = (0, 0), (1, 0)


# ---- Fp6 as 3 Fp2, Fp12 as 2 Fp6
def f6add(x, y): return tuple(f2add(a, b) for a, b in zip(x, y))
def f6sub(x, y): return tuple(f2sub(a, b) for a, b in zip(x, y))
def f6neg(x): return tuple(f2neg(a) for a in x)
def f6mul(x, y):
    t = [F2Z]*5
    for i in range(3):
        for j in range(3):
            t[i+j] = f2add(t[i+j], f2mul(x[i], y[j]))
    return (f2add(t[0], f2mul(XI, t[3])), f2add(t[1], f2mul(XI, t[4])), t[2])
def f6mulv(x): return (f2mul(XI, x[2]), x[0], x[1])
F6Z, F6O = (F2Z,)*3, (F2O, F2Z, F2Z)
def f6inv(x):
    a, b, c = x
    t0 = f2sub(f2mul(a, a), f2mul(XI, f2mul(b, c)))
    t1 = f2sub(f2mul(XI, f2mul(c, c)), f2mul(a, b))
    t2 = f2sub(f2mul(b, b), f2mul(a, c))
    d = f2add(f2mul(a, t0), f2mul(XI, f2add(f2mul(c, t1), f2mul(b, t2))))
    i = f2inv(d)
    return (f2mul(t0, i), f2mul(t1, i), f2mul(t2, i))
def f12add(x, y): return (f6add(x[0], y[0]), f6add(x[1], y[1]))
def f12sub(x, y): return (f6sub(x[0], y[0]), f6sub(x[1], y[1]))
def f12mul(x, y):
    return (f6add(f6mul(x[0], y[0]), f6mulv(f6mul(x[1], y[1]))), f6add(f6mul(x[0], y[1]), f6mul(x[1], y[0])))
def f12conj(x): return (x[0], f6neg(x[1]))
def f12inv(x):
    d = f6inv(f6sub(f6mul(x[0], x[0]), f6mulv(f6mul(x[1], x[1]))))
    return (f6mul(x[0], d), f6neg(f6mul(x[1], d)))
F12Z, F12O = (F6Z, F6Z), (F6O, F6Z)
def gpow(mul, one, x, e):
    r = one
    while e:
        if e & 1: r = mul(r, x)
        x = mul(x, x)
        e >>= 1
    return r
def f6pow(x, e): return gpow(f6mul, F6O, x, e)
def f12pow(x, e): return gpow(f12mul, F12O, x, e)
G6 = [f2pow(XI, (P**k-1)//3) for k in range(6)]
G12 = [f2pow(XI, (P**k-1)//6) for k in range(12)]
def f2frob(x, k): return f2conj(x) if k & 1 else x
def f6frob(x, k):
    g = G6[k % 6]
    return (f2frob(x[0], k), f2mul(f2frob(x[1], k), g), f2mul(f2frob(x[2], k), f2mul(g, g)))
def f12frob(x, k):
    g = G12[k % 12]
    a, b = f6frob(x[0], k), f6frob(x[1], k)
    return (a, tuple(f2mul(c, g) for c in b))


def fsqrt(a):
    s = pow(a, (P+1)//4, P)
    return s if s*s % P == a % P else None
def f2issq(x): return pow((x[0]*x[0]+x[1]*x[1]) % P, (P-1)//2, P) in (0, 1)
def f2sqrt(x):
    if x == F2Z: return F2Z
    a, b = x
    if b == 0:
        s = fsqrt(a)
        if s is not None: return (s, 0)
        return (0, fsqrt(-a % P))
    n = fsqrt((a*a+b*b) % P)
    if n is None: return None
    i2 = pow(2, -1, P)
    d = (a+n)*i2 % P
    s = fsqrt(d)
    if s is None:
        d = (a-n)*i2 % P
        s = fsqrt(d)
    return (s, b*i2*pow(s, -1, P) % P)
def sgn0(a): return a & 1
def f2sgn0(x): return (x[0] & 1) | ((x[0] == 0) & (x[1] & 1))


# ---- curves, affine points (None is the identity); generic over the field
class Curve:
    def __init__(s, add, sub, mul, inv, zero, one, b, neg, scal):
        s.add_, s.sub_, s.mul_, s.inv_, s.z, s.o, s.b, s.neg_, s.scal = add, sub, mul, inv, zero, one, b, neg, scal
    def on(s, p):
        if p is None: return True
        x, y = p
        return s.mul_(y, y) == s.add_(s.mul_(x, s.mul_(x, x)), s.b)
    def neg(s, p): return None if p is None else (p[0], s.neg_(p[1]))
    def add(s, p, q):
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if p[1] != q[1] or p[1] == s.z: return None
            l = s.mul_(s.scal(s.mul_(p[0], p[0]), 3), s.inv_(s.scal(p[1], 2)))
        else:
            l = s.mul_(s.sub_(q[1], p[1]), s.inv_(s.sub_(q[0], p[0])))
        x = s.sub_(s.sub_(s.mul_(l, l), p[0]), q[0])
        return (x, s.sub_(s.mul_(l, s.sub_(p[0], x)), p[1]))
    def mul(s, p, k):
        if k < 0: p, k = s.neg(p), -k
        if p is None or k == 0: return None
        m, a, b = s.mul_, s.add_, s.sub_
        x2, y2 = p
        X, Y, Z = x2, y2, s.o
        for d in bin(k)[3:]:
            # doubling, a = 0
            if Z != s.z:
                A, B = m(X, X), m(Y, Y)
                C = m(B, B)
                t = a(X, B)
                D = b(b(m(t, t), A), C)
                D = a(D, D)
                E = s.scal(A, 3)
                F = m(E, E)
                Z = m(a(Y, Y), Z)
                X = b(F, a(D, D))
                Y = b(m(E, b(D, X)), s.scal(C, 8))
            if d == "1":
                if Z == s.z:
                    X, Y, Z = x2, y2, s.o
                else:
                    ZZ = m(Z, Z)
                    U, S = m(x2, ZZ), m(y2, m(ZZ, Z))
                    H, Rr = b(U, X), b(S, Y)
                    if H == s.z:
                        if Rr == s.z:
                            t = s.add(p, p)
                            X, Y, Z = (t[0], t[1], s.o) if t else (s.o, s.o, s.z)
                        else:
                            X, Y, Z = s.o, s.o, s.z
                    else:
                        HH = m(H, H)
                        HHH, V = m(H, HH), m(X, HH)
                        Y1 = Y
                        X = b(b(m(Rr, Rr), HHH), a(V, V))
                        Y = b(m(Rr, b(V, X)), m(Y1, HHH))
                        Z = m(Z, H)
        return s.fromjac((X, Y, Z))
    def fromjac(s, j):
        if j[2] == s.z: return None
        zi = s.inv_(j[2])
        z2 = s.mul_(zi, zi)
        return (s.mul_(j[0], z2), s.mul_(j[1], s.mul_(z2, zi)))
    def tojac(s, p, z):
        if p is None: return (s.z, s.o, s.z)
        z2 = s.mul_(z, z)
        return (s.mul_(p[0], z2), s.mul_(p[1], s.mul_(z2, z)), z)
    def insub(s, p): return s.mul(p, R) is None
def _inv1(a): return pow(a, -1, P) if a % P else 0
E1 = Curve(lambda a, b: (a+b) % P, lambda a, b: (a-b) % P, lambda a, b: a*b % P, _inv1, 0, 1, 4, lambda a: -a % P, lambda a, k: a*k % P)
E2 = Curve(f2add, f2sub, f2mul, f2inv, F2Z, F2O, (4, 4), f2neg, f2scal)
G1 = (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
      0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1)
G2 = ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
       0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
      (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
       0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be))


def randpt1(rnd):
    while True:
        x = rnd.randrange(P)
        y = fsqrt((x**3+4) % P)
        if y is not None:
            return (x, y if rnd.random() < .5 else -y % P)
def randpt2(rnd):
    while True:
        x = (rnd.randrange(P), rnd.randrange(P))
        y = f2sqrt(f2add(f2mul(x, f2mul(x, x)), (4, 4)))
        if y is not None:
            return (x, y if rnd.random() < .5 else f2neg(y))


# ---- pairing (affine, slow, textbook; over Fp12 untwisted)
W12 = (F6Z, (F2O, F2Z, F2Z))          # w
def emb2(a): return ((a, F2Z, F2Z), F6Z)
def emb1(a): return emb2((a, 0))
W2I = f12inv(f12mul(W12, W12))
W3I = f12inv(f12mul(W12, f12mul(W12, W12)))
E12 = Curve(f12add, f12sub, f12mul, f12inv, F12Z, F12O, emb1(4), lambda a: f12sub(F12Z, a), lambda a, k: f12mul(a, emb1(k % P)))
def untwist(q): return (f12mul(emb2(q[0]), W2I), f12mul(emb2(q[1]), W3I))
def line(a, b, c):
    if a[0] == b[0]:
        if a[1] == b[1]:
            l = f12mul(E12.scal(f12mul(a[0], a[0]), 3), f12inv(E12.scal(a[1], 2)))
        else:
            return f12sub(c[0], a[0])
    else:
        l = f12mul(f12sub(b[1], a[1]), f12inv(f12sub(b[0], a[0])))
    return f12sub(f12sub(c[1], a[1]), f12mul(l, f12sub(c[0], a[0])))
def miller(p, q):
    """f_{|x|,Q}(P) for the untwisted Q, up to factors killed by the final exponentiation"""
    if p is None or q is None: return F12O
    # lines computed over Fp2 for speed:  l = yP - yT - lam (xP - xT), scaled by w^3
    f = F12O
    T = q
    def l2(a, b):
        if a == b: lam = f2mul(f2scal(f2mul(a[0], a[0]), 3), f2inv(f2scal(a[1], 2)))
        else: lam = f2mul(f2sub(b[1], a[1]), f2inv(f2sub(b[0], a[0])))
        # untwisted: x = x' w^-2, y = y' w^-3, lam_untw = lam w^-1
        # l*w^3 = yP w^3 - y' - lam w^2 (xP - x' w^-2) = yP w^3 - lam xP w^2 + (lam x' - y')
        c0 = f2sub(f2mul(lam, a[0]), a[1])
        c1 = f2neg(f2scal(lam, p[0]))
        return ((c0, c1, F2Z), (F2Z, (p[1], 0), F2Z))   # w^2 = v, w^3 = v w
    for bit in bin(AX)[3:]:
        f = f12mul(f12mul(f, f), l2(T, T))
        T = E2.add(T, T)
        if bit == "1":
            f = f12mul(f, l2(T, q))
            T = E2.add(T, q)
    return f12conj(f)
def finalexp(f, mult=3):
    f = f12mul(f12conj(f), f12inv(f))
    f = f12mul(f12frob(f, 2), f)
    h = (P**4 - P**2 + 1)//R * mult
    return f12pow(f, h)
def pairing(pairs, mult=3):
    f = F12O
    for p, q in pairs: f = f12mul(f, miller(p, q))
    return finalexp(f, mult)


# ---- RFC 9380
def expand_xmd(msg, dst, n):
    assert len(dst) <= 255 and n <= 255*32
    d = dst + bytes([len(dst)])
    ell = (n+31)//32
    b0 = hashlib.sha256(bytes(64) + msg + n.to_bytes(2, "big") + b"\0" + d).digest()
    bs = [hashlib.sha256(b0 + b"\1" + d).digest()]
    for i in range(2, ell+1):
        bs.append(hashlib.sha256(bytes(a ^ b for a, b in zip(b0, bs[-1])) + bytes([i]) + d).digest())
    return b"".join(bs)[:n]
ISO_A1 = 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
ISO_B1 = 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
Z1 = 11
ISO_A2 = (0, 240)
ISO_B2 = (1012, 1012)
Z2 = (-2 % P, -1 % P)
def sswu1(u):
    A, B, Z = ISO_A1, ISO_B1, Z1
    t = (Z*Z*pow(u, 4, P) + Z*u*u) % P
    t = pow(t, P-2, P)
    x1 = B*pow(Z*A, -1, P) % P if t == 0 else (-B*pow(A, -1, P)*(1+t)) % P
    g = (x1**3+A*x1+B) % P
    y = fsqrt(g)
    x = x1
    if y is None:
        x = Z*u*u*x1 % P
        y = fsqrt((x**3+A*x+B) % P)
    if sgn0(u) != sgn0(y): y = -y % P
    return x, y
def sswu2(u):
    A, B, Z = ISO_A2, ISO_B2, Z2
    zu = f2mul(Z, f2mul(u, u))
    t = f2add(f2mul(zu, zu), zu)
    t = f2inv(t)
    x1 = f2mul(B, f2inv(f2mul(Z, A))) if t == F2Z else f2mul(f2mul(f2neg(B), f2inv(A)), f2add(F2O, t))
    gx = lambda x: f2add(f2add(f2mul(x, f2mul(x, x)), f2mul(A, x)), B)
    x = x1
    y = f2sqrt(gx(x))
    if y is None:
        x = f2mul(zu, x1)
        y = f2sqrt(gx(x))
    if f2sgn0(u) != f2sgn0(y): y = f2neg(y)
    return x, y
