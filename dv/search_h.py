"""Concrete falsification for hashing and the schemes: C10, C13, C14, C12."""
import hashlib
import hmac as hm
from . import ref, isoconst
from .search import GENS, gfp, gf2, gf12, ef12, w, P, sib
from .search_g import E, EF, GF, GENP, isrep, jac, anypt, pool, pure, canon
R = ref.R
HE = {1: 0xd201000000010001, 2: 0xbc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551}
# inputs whose SWU point is in the kernel of the 11-isogeny, for G1
KER = [0x146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598,
       0x10683009c00edc5676a3d43b8b5ae8a68e75a32954f6a502e6acc1c11ed49bcaa7c843871e887ce9839920c2ff0f732f,
       0x1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0]


def hx(b):
    return bytes(b).hex() or "-"


def affj(g, p):
    return EF[g](p[0]) + EF[g](p[1]) + EF[g](E[g].o)


def swu(g, u):
    return ref.sswu1(u) if g == 1 else ref.sswu2(u)


def horner(g, cs, x):
    mul, add = (lambda a, b: a * b % P, lambda a, b: (a + b) % P) if g == 1 else (ref.f2mul, ref.f2add)
    cs = [c if g == 1 else tuple(c) if not isinstance(c, int) else (c, 0) for c in cs]
    r = cs[-1]
    for c in reversed(cs[:-1]):
        r = add(mul(r, x), c)
    return r


def iso(g, p):
    N, D, M, K = isoconst.ISO1 if g == 1 else isoconst.ISO2
    n, d, m, k = (horner(g, q, p[0]) for q in (N, D, M, K))
    c = E[g]
    if d == c.z or k == c.z:
        return None
    inv, mul = (ref._inv1, lambda a, b: a * b % P) if g == 1 else (ref.f2inv, ref.f2mul)
    return mul(n, inv(d)), mul(p[1], mul(m, inv(k)))


def tomap(g, u):
    return E[g].mul(iso(g, swu(g, u)), HE[g])


def hash2(msg, dst):
    b = ref.expand_xmd(msg, dst, 256)
    v = [int.from_bytes(b[64 * i:64 * i + 64], "big") % P for i in range(4)]
    q = [iso(2, ref.sswu2((v[i], v[i + 1]))) for i in (0, 2)]
    return E[2].mul(E[2].add(*q), HE[2])


def special(g, rnd):
    if g == 1:
        r = rnd.choice(KER + [0, 1, 2, P - 1, (P - 1) // 2, pow(11, -1, P)])
        return rnd.choice([r, -r % P])
    m = lambda: rnd.choice([0, 0, 1, P - 1, rnd.randrange(P)])
    return (m(), m())


def rb(rnd, n):
    v = bytes(rnd.getrandbits(8) for _ in range(n)) if n else b""
    mem = rnd.__dict__.setdefault("mem_bytes", [])
    if n and mem and rnd.random() < .1:       # shares a prefix or a suffix with a recent string
        o, k = rnd.choice(mem), rnd.choice([1, 4, 8, n - 1, rnd.randrange(n)]) % n
        v = rnd.choice([o[:k] + v[len(o[:k]):], v[:n - len(o[:k])] + o[len(o) - len(o[:k]):]])
    if n:
        mem.append(v)
        del mem[:-3]
    return v


def ln(rnd, big=600):
    return rnd.choice([0, 1, 2, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200, 255, 256, 257, rnd.randrange(300), rnd.randrange(big)])


def c10(rnd):
    for g in (1, 2):
        u = special(g, rnd) if rnd.random() < .4 else GF[g](rnd)
        nm = "g%d" % g
        s = swu(g, u)
        yield nm + ".swu " + EF[g](u), EF[g](s[0]) + " " + EF[g](s[1])
        yield nm + ".map " + EF[g](u), isrep(g, tomap(g, u))
        if g == 2:
            j = E[2].tojac(s, GF[g](rnd)) if rnd.random() < .2 else (s[0], s[1], E[2].o)
            if j[2] == E[2].o:
                yield nm + ".iso " + "".join(map(EF[g], j)), isrep(g, iso(g, s))
        p = anypt(rnd, g)
        yield nm + ".clear " + jac(rnd, g, p), isrep(g, E[g].mul(p, HE[g]) if p else None)
    big = rnd.choice([0] * 60 + [65536, 65537, 131072])
    m, d = rb(rnd, big + ln(rnd)), rb(rnd, rnd.choice([0, 1, 43, 254, 255, 255, 256, 300, rnd.randrange(256)]))
    if len(d) > 255:
        yield "fromMessage %s %s" % (hx(m), hx(d)), lambda o: None if "throw" in o or "exc" in o else "expected an exception"
    else:
        yield "fromMessage %s %s" % (hx(m), hx(d)), isrep(2, hash2(m, d))


GENS["C10"] = c10


def hkdf(prk, info, L):
    t_, out, i = b"", b"", 1
    while len(out) < L:
        t_ = hm.new(prk, t_ + info + bytes([i]), hashlib.sha256).digest()
        out += t_
        i += 1
    return out[:L]


def split(rnd, m):
    cuts = sorted(rnd.randrange(len(m) + 1) for _ in range(rnd.choice([0, 1, 1, 2, 5])))
    parts, a = [], 0
    for c in cuts + [len(m)]:
        parts.append(m[a:c])
        a = c
    return ",".join(x.hex() or "e" for x in parts)


def code(buf):
    """failure: a non-zero code and an untouched buffer"""
    def f(o):
        c, _, b = o.partition(" ")
        if c == "0":
            return "expected an error code"
        if b.strip() not in ("", "-") and b != buf.hex():
            return "the output is written although the call fails"
        return None
    return f


def c13(rnd):
    m = rb(rnd, ln(rnd))
    yield "sha " + split(rnd, m), hashlib.sha256(m).hexdigest()
    yield "shas " + split(rnd, m), hashlib.sha256(m).hexdigest()
    d = rb(rnd, 32)
    yield "shastr " + d.hex(), d.hex()
    k = rb(rnd, ln(rnd))
    yield "hmac %s %s" % (hx(m), hx(k)), "0 " + hm.new(k, m, hashlib.sha256).hexdigest()
    yield "hkdfx %s %s" % (hx(k), hx(m)), "0 " + hm.new(k, m, hashlib.sha256).hexdigest()
    L = rnd.choice([1, 2, 31, 32, 33, 48, 63, 64, 65, 8128, 8129, 8159, 8160, rnd.randrange(1, 500), rnd.randrange(1, 8161)])
    prk = rb(rnd, 32)
    info = rb(rnd, ln(rnd, 100) if L < 1000 else rnd.randrange(4))
    yield "hkdfe %d %s %s" % (L, prk.hex(), hx(info)), "0 " + hkdf(prk, info, L).hex()
    if L < 1000 or rnd.random() < .2:
        yield "hkdfxe %d %s %s %s" % (L, hx(m), hx(k), hx(info)), "0 " + hkdf(hm.new(k, m, hashlib.sha256).digest(), info, L).hex()
    L = rnd.choice([8161, 8192, 9000])
    yield "hkdfe %d %s %s" % (L, prk.hex(), hx(info)), code(b"\xa5" * L)
    dst = rb(rnd, rnd.choice([0, 1, 43, 127, 128, 254, 255, rnd.randrange(256)]))
    L = rnd.choice([0, 1, 31, 32, 33, 48, 64, 127, 255, 256, 257, 512, 8159, 8160, rnd.randrange(8161), rnd.randrange(600)])
    yield "xmd %d %s %s" % (L, hx(m), hx(dst)), "0" + " " + (ref.expand_xmd(m, dst, L).hex() or "-")
    yield "xmd %d %s %s" % (L, hx(m), hx(rb(rnd, rnd.choice([256, 257, 300, 511, 512])))), code(b"\xa5" * L)
    L = rnd.choice([8161, 8192, 10000])
    yield "xmd %d %s %s" % (L, hx(m), hx(dst)), code(b"\xa5" * L)


GENS["C13"] = c13


# ---- pairing -------------------------------------------------------------------------------------------

GT, _mul = [], {}


def gtpow(e):
    """e(G1, G2)^(3 e), by the textbook pairing"""
    if not GT:
        g = ref.pairing([(ref.G1, ref.G2)])
        for _ in range(256):
            GT.append(g)
            g = ref.f12mul(g, g)
    v = ref.F12O
    for i in range(e.bit_length()):
        if e >> i & 1:
            v = ref.f12mul(v, GT[i])
    return v


def smul(g, k):
    """k times the generator"""
    if (g, k) not in _mul:
        if len(_mul) > 4000:
            _mul.clear()
        _mul[g, k] = E[g].mul(GENP[g], k) if k else None
    return _mul[g, k]


def rsc(rnd):
    v = rnd.choice([0, 1, 1, 2, 3, R - 1, R - 2, rnd.randrange(40), rnd.randrange(R), rnd.randrange(R)])
    return sib(rnd, "sc", v, 4, R) if v > 40 else v


def dec12(h):
    if len(h) != 12 * 96:
        return None
    c = [canon(h[96 * i:96 * i + 96]) for i in range(12)]
    if None in c:
        return None
    f2 = [(c[2 * i], c[2 * i + 1]) for i in range(6)]
    return (tuple(f2[:3]), tuple(f2[3:]))


def c11(rnd):
    big = rnd.random() < .2
    n = rnd.choice([0, 1, 1, 2, 2, 3, 4, 5]) if not big else rnd.choice([18, 19, 20, 21, 22, 31, 32, 33])
    a, b = [rsc(rnd) for _ in range(n)], [rsc(rnd) for _ in range(n)]
    if n > 1 and rnd.random() < .3:
        i, j = rnd.sample(range(n), 2)
        a[j], b[j] = (R - a[i]) % R, b[i]
    if n > 1 and rnd.random() < .2:
        a[1], b[1] = a[0], b[0]
    pts = [(smul(1, x), smul(2, y)) for x, y in zip(a, b)]
    J = "".join(jac(rnd, 1, p) for p, _ in pts) or "-"
    K = "".join(jac(rnd, 2, q) for _, q in pts) or "-"
    want = gtpow(sum(x * y for x, y in zip(a, b)) % R)
    yield "pair.calc %s %s %d" % (J, K, rnd.choice([0, 1, 1, 2, 2, 3])), ef12(want)
    live = [(p, q) for p, q in pts if p and q]
    wantadd = " ".join([str(len(live))] + [affj(1, p) + " " + affj(2, q) for p, q in live])
    yield "pair.add %s %s" % (J, K), wantadd
    yield "pair.raw %s %s" % ("".join(affj(1, p) for p, _ in live) or "-", "".join(affj(2, q) for _, q in live) or "-"), ef12(want)
    f = gf12(rnd)
    if f != ref.F12Z:
        yield "pair.final " + ef12(f), ef12(ref.finalexp(f))

    def chk(o):
        v = dec12(o.split()[0])
        if v is None:
            return "result is not made of canonical coordinates"
        return None if ref.finalexp(v) == want else "the Miller function is not the expected one modulo factors killed by the final exponentiation"
    if n < 4:
        yield "pair.miller %s %s" % (J, K), chk
    # steps
    q = smul(2, rnd.randrange(2, R))
    r = smul(2, rnd.randrange(2, R))
    z = gf2(rnd)
    if z == (0, 0):
        z = (1, 0)
    hom = [ref.f2mul(r[0], z), ref.f2mul(r[1], z), z]
    for op, o in (("pair.dblstep", r), ("pair.addstep", q)):
        if o[0] == r[0] and op == "pair.addstep":
            continue
        lam = ref.f2mul(ref.f2scal(ref.f2mul(r[0], r[0]), 3), ref.f2inv(ref.f2scal(r[1], 2))) if op == "pair.dblstep" else \
            ref.f2mul(ref.f2sub(r[1], q[1]), ref.f2inv(ref.f2sub(r[0], q[0])))
        line = (ref.f2sub(ref.f2mul(lam, r[0]), r[1]), ref.f2neg(lam), (1, 0))
        sm = E[2].add(r, o)

        def stp(out, line=line, sm=sm):
            h = "".join(out.split()[:2])
            v = [(canon(h[192 * i:192 * i + 96]), canon(h[192 * i + 96:192 * i + 192])) for i in range(6)]
            if any(None in x for x in v):
                return "result is not made of canonical coordinates"
            if v[2] == (0, 0) or any(ref.f2mul(v[2], line[i]) != v[i] for i in range(3)):
                return "coefficients are not a non-zero multiple of the line's"
            if v[5] == (0, 0) or ref.f2mul(sm[0], v[5]) != v[3] or ref.f2mul(sm[1], v[5]) != v[4]:
                return "the new point is not the expected one"
        yield "%s %s%s" % (op, "".join(map(EF[2], hom)), "" if op == "pair.dblstep" else " " + affj(2, q)), stp


GENS["C11"] = c11
