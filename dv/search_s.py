"""Concrete falsification for the schemes: C12, C14."""
import hashlib
import hmac as hm
from . import ref
from .search import GENS, gfp, gf2, w, P, b01, sib
from .search_g import E, EF, GENP, isrep, jac, anypt, pool, compressed, deccoord
from .search_h import R, hx, rb, ln, hash2, smul, hkdf, rsc
SIG = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"
POPT = b"BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"
_h = {}


def H(m, tag=SIG):
    if (m, tag) not in _h:
        if len(_h) > 3000:
            _h.clear()
        _h[m, tag] = hash2(m, tag)
    return _h[m, tag]


def mul2(p, k):
    return E[2].mul(p, k % R) if p is not None and k % R else None


def key(rnd):
    return rnd.choice([1, 2, R - 1, rnd.randrange(1, R), rnd.randrange(1, R), rnd.randrange(1, R)])


def ser(p):
    return bytes(96) if p is None else p[0].to_bytes(48, "little") + p[1].to_bytes(48, "little")


def spoil(rnd, g, p):
    """(coordinates, valid?, point) of something near p"""
    k = rnd.random()
    if k < .35:
        return jac(rnd, g, p), True, p
    if k < .5:
        q = E[g].add(p, rnd.choice(pool(g)[1]))
        return jac(rnd, g, q), q is None or E[g].insub(q), q
    if k < .6:
        q = rnd.choice(pool(g)[1])
        return jac(rnd, g, q), E[g].insub(q), q
    if k < .7:
        q = E[g].neg(p) if p is not None else GENP[g]
        return jac(rnd, g, q), True, q
    if k < .8:
        return jac(rnd, g, None), True, None
    if k < .9:
        q = E[g].add(p, GENP[g])
        return jac(rnd, g, q), True, q
    # not on the curve: one coordinate of a representation changed
    h = jac(rnd, g, p)
    n = 96 * g
    i = rnd.randrange(2)
    h2 = h[:n * i] + (EF[g](gfp(rnd) if g == 1 else gf2(rnd))) + h[n * (i + 1):]
    c = deccoord(g, h2)
    if c is None or c[2] == E[g].z:
        return h, True, p
    q = E[g].fromjac(c)
    if E[g].on(q):
        return h2, E[g].insub(q), q
    return h2, False, "off"


def verify_case(rnd):
    a, m = key(rnd), rb(rnd, ln(rnd, 300))
    pk, sg = smul(1, a), mul2(H(m), a)
    A, S = (jac(rnd, 1, pk), True, pk), (jac(rnd, 2, sg), True, sg)
    k = rnd.random()
    if k < .25:
        A = spoil(rnd, 1, pk)
    elif k < .5:
        S = spoil(rnd, 2, sg)
    elif k < .6:
        A, S = spoil(rnd, 1, pk), spoil(rnd, 2, sg)
    elif k < .75:
        m = m + b"\0" if rnd.random() < .3 else m[:-1] if m and rnd.random() < .5 else rb(rnd, ln(rnd, 200))
    return a, m, A, S, pk


def truth(A, S, pk, a, h):
    if not A[1] or not S[1]:
        return False
    k = a if A[2] == pk else (-a) % R if pk is not None and A[2] == E[1].neg(pk) else 0 if A[2] is None else None
    if k is None:
        if pk is not None and A[2] == E[1].add(pk, GENP[1]):
            k = (a + 1) % R
        else:
            return None
    return S[2] == mul2(h, k)


def c12(rnd):
    a = rnd.choice([0, R, R + 1, (1 << 256) - 1, rsc(rnd), rsc(rnd), rsc(rnd)])
    m = rb(rnd, ln(rnd, 300))
    yield "sign %s %s" % (w(a, 4), hx(m)), isrep(2, mul2(H(m), a))
    yield "pubkey " + w(a, 4), isrep(1, smul(1, a % R), True)
    yield "popprove " + w(a, 4), isrep(2, mul2(H(ser(smul(1, a % R)), POPT), a))
    a, m, A, S, pk = verify_case(rnd)
    v = truth(A, S, pk, a, H(m))
    if v is not None:
        yield "verify %s %s %s" % (A[0], hx(m), S[0]), b01(v)
    # proofs of possession
    a = key(rnd)
    pk = smul(1, a)
    pr = mul2(H(ser(pk), POPT), a)
    A, S = (spoil(rnd, 1, pk), (jac(rnd, 2, pr), True, pr)) if rnd.random() < .5 else ((jac(rnd, 1, pk), True, pk), spoil(rnd, 2, pr))
    if A[2] is not None and A[2] != "off" and A[2] != pk and rnd.random() < .7:
        q = mul2(H(ser(A[2]), POPT), a)        # a proof over the encoding of the moved key
        S = (jac(rnd, 2, q), True, q)
    if rnd.random() < .1:
        q = mul2(H(ser(pk), SIG), a)
        S = (jac(rnd, 2, q), True, q)
    if A[2] != "off":
        v = truth(A, S, pk, a, H(ser(A[2]), POPT))
        if v is not None:
            yield "popverify %s %s" % (A[0], S[0]), b01(v)
    else:
        yield "popverify %s %s" % (A[0], S[0]), "0"
    # lists
    n = rnd.choice([0, 1, 2, 2, 3, 4, 5, 8]) if rnd.random() < .93 else rnd.choice([16, 17, 19, 20, 21, 32, 33, 40, 64, 65])
    n0 = n
    for g, op in ((1, "aggpk"), (2, "aggsig")):
        n = n0 if rnd.random() < .6 else rnd.choice([15, 16, 17, 31, 33, 60, 63, 64, 65, 66, 70, 100, 127, 128, 129, 140, 257])
        pts = [anypt(rnd, g) for _ in range(min(n, 24))]
        pts += [rnd.choice(pts) for _ in range(n - len(pts))]
        if n > 1 and rnd.random() < .4:
            i, j = rnd.sample(range(n), 2)
            pts[j] = rnd.choice([pts[i], None if pts[i] is None else E[g].neg(pts[i])])
        s, sel, mask = None, None, rnd.getrandbits(64)
        for i, p in enumerate(pts):
            s = E[g].add(s, p)
            if (mask >> (i & 63) ^ i >> 6) & 1:
                sel = E[g].add(sel, p)
        J = "".join(jac(rnd, g, p) for p in pts) or "-"
        yield "%s %s" % (op, J), isrep(g, s)
        yield "%sf %s %d" % (op, J, mask), isrep(g, sel)
    n = n0
    sks = [key(rnd) for _ in range(n)]
    ms = [rb(rnd, ln(rnd, 100)) for _ in range(n)]
    if n > 1 and rnd.random() < .5:
        i, j = rnd.sample(range(n), 2)
        ms[j] = ms[i]
        if rnd.random() < .3:
            sks[j] = R - sks[i]
    sig = None
    for a, m in zip(sks, ms):
        sig = E[2].add(sig, mul2(H(m), a))
    ok = True
    pks = [jac(rnd, 1, smul(1, a)) for a in sks]
    k = rnd.random()
    S = jac(rnd, 2, sig)
    if k < .2 and n:
        i = rnd.randrange(n)
        T = rnd.choice(pool(1)[1])
        pks[i] = jac(rnd, 1, E[1].add(smul(1, sks[i]), T))
        ok = False
        if n > 1 and rnd.random() < .5:
            j = rnd.choice([x for x in range(n) if x != i])
            pks[j] = jac(rnd, 1, E[1].add(smul(1, sks[j]), E[1].neg(T)))
    elif k < .3 and n:
        i = rnd.randrange(n)
        x = spoil(rnd, 1, smul(1, sks[i]))
        if not x[1]:
            pks[i], ok = x[0], False
    elif k < .45:
        x = spoil(rnd, 2, sig)
        S, ok = x[0], x[1] and x[2] == sig
    elif k < .55 and n:
        i = rnd.randrange(n)
        old, ms = ms[i], list(ms)
        ms[i] = rb(rnd, ln(rnd, 100))
        ok = old == ms[i]
    elif k < .62 and n > 1:
        i = rnd.randrange(n)
        (ms if rnd.random() < .5 else pks).pop(i)
        ok = False
    elif k < .68 and n > 1:
        i, j = rnd.sample(range(n), 2)
        ms[i], ms[j] = ms[j], ms[i]
        ok = ms[i] == ms[j] or sks[i] == sks[j]
    elif k < .72:
        ms.append(rnd.choice(ms) if ms else b"")
        ok = False
    M = ",".join(x.hex() or "e" for x in ms) or "-"
    for dup in (0, 1):
        yield "aggverify %s %s %s %d" % ("".join(pks) or "-", M, S, dup), b01(ok and (not dup or len(set(ms)) == len(ms)))
    # one message
    m = rb(rnd, ln(rnd, 100))
    tot = sum(sks) % R
    sg = mul2(H(m), tot)
    S, ok = jac(rnd, 2, sg), n > 0
    k = rnd.random()
    pks = [jac(rnd, 1, smul(1, a)) for a in sks]
    if k < .3:
        x = spoil(rnd, 2, sg)
        S, ok = x[0], ok and x[1] and x[2] == sg
    elif k < .5 and n:
        i = rnd.randrange(n)
        T = rnd.choice(pool(1)[1])
        pks[i] = jac(rnd, 1, E[1].add(smul(1, sks[i]), T))
        ok = False
    yield "popfast %s %s %s" % ("".join(pks) or "-", hx(m), S), b01(ok)


def c12h(rnd):
    """an accepted call, then calls that differ from it in one argument, in any order:
    an answer must not be carried over from a call that only looks like this one"""
    a, m = key(rnd), rb(rnd, rnd.choice([1, 32, 33, 40, 64, 100]))
    b = a
    while b == a:
        b = key(rnd)
    pk, sg = smul(1, a), mul2(H(m), a)
    i = rnd.choice([0, len(m) - 1, rnd.randrange(len(m))])
    m2 = m[:i] + bytes([m[i] ^ 1 << rnd.randrange(8)]) + m[i + 1:]
    n1, n2 = E[1].neg, E[2].neg
    J1, J2 = (lambda p: jac(rnd, 1, p)), (lambda p: jac(rnd, 2, p))
    T1, T2 = rnd.choice(pool(1)[1]), rnd.choice(pool(2)[1])
    cs = [(pk, m, sg, 1), (smul(1, b), m, sg, 0), (pk, m2, sg, 0), (pk, m, n2(sg), 0), (n1(pk), m, sg, 0), (n1(pk), m, n2(sg), 1),
          (E[1].add(pk, T1), m, sg, 0), (pk, m, E[2].add(sg, T2), 0), (smul(1, b), m2, mul2(H(m2), b), 1)]
    l = [cs[0]] + rnd.sample(cs, 3)
    if rnd.random() < .5:
        l += [cs[0], rnd.choice(cs)]
    if l[1] is cs[0]:
        l[1] = cs[1]
    for p, x, s, ok in l:
        yield "verify %s %s %s" % (J1(p), hx(x), J2(s)), b01(ok)
    if rnd.random() < .4:
        pr, pr2 = mul2(H(ser(pk), POPT), a), mul2(H(ser(smul(1, b)), POPT), b)
        cs = [(smul(1, b), pr, 0), (pk, n2(pr), 0), (n1(pk), pr, 0), (n1(pk), n2(pr), 0), (smul(1, b), pr2, 1), (pk, pr2, 0), (pk, E[2].add(pr, T2), 0)]
        for p, s, ok in [(pk, pr, 1)] + rnd.sample(cs, 3):
            yield "popverify %s %s" % (J1(p), J2(s)), b01(ok)
    if rnd.random() < .4:
        s2 = E[2].add(sg, mul2(H(m2), b))
        q = smul(1, b)
        cs = [((q, pk), (m, m2), s2, 0), ((pk, q), (m2, m), s2, 0), ((q, pk), (m2, m), s2, 1), ((pk, q), (m, m2), n2(s2), 0),
              ((pk, q), (m, m), s2, 0), ((E[1].add(pk, T1), q), (m, m2), s2, 0), ((pk,), (m,), sg, 1), ((q,), (m,), sg, 0)]
        for ps, ms, s, ok in [((pk, q), (m, m2), s2, 1)] + rnd.sample(cs, 3):
            yield "aggverify %s %s %s %d" % ("".join(map(J1, ps)), ",".join(x.hex() for x in ms), J2(s), rnd.randrange(2) if len(set(ms)) == len(ms) else 0), b01(ok)
        cs = [((q, pk), m, 1), ((pk, pk), m, 0), ((pk, q), m2, 0), ((pk,), m, 0), ((pk, n1(q)), m, 0), ((pk, q, q), m, 0)]
        s = mul2(H(m), a + b)
        for ps, x, ok in [((pk, q), m, 1)] + rnd.sample(cs, 2):
            yield "popfast %s %s %s" % ("".join(map(J1, ps)), hx(x), J2(s)), b01(ok)


def c12all(rnd):
    yield from (c12h if rnd.random() < .35 else c12)(rnd)


GENS["C12"] = c12all


# ---- keys ----------------------------------------------------------------------------------------------

def seckey(seed):
    if len(seed) < 32:
        return 0
    salt = b"BLS-SIG-KEYGEN-SALT-"
    while True:
        okm = hkdf(hm.new(salt, seed + b"\0", hashlib.sha256).digest(), b"\0\x30", 48)
        sk = int.from_bytes(okm, "big") % R
        if sk:
            return sk
        salt = hashlib.sha256(salt).digest()


def lamport(ikm, salt):
    return hkdf(hm.new(salt, ikm, hashlib.sha256).digest(), b"", 8160)


def lamportpk(sk, i):
    ikm = sk.to_bytes(32, "big")
    b = b""
    for k in (ikm, bytes(x ^ 255 for x in ikm)):
        l = lamport(k, i.to_bytes(4, "big"))
        b += b"".join(hashlib.sha256(l[32 * j:32 * j + 32]).digest() for j in range(255))
    return hashlib.sha256(b).digest()


def nonce(g, p, i):
    return int.from_bytes(hashlib.sha256(compressed(g, p) + i.to_bytes(4, "big")).digest(), "big") % R


def c14(rnd):
    s = rb(rnd, rnd.choice([0, 1, 16, 31, 32, 32, 33, 48, 55, 63, 64, 65, 100, 127, 128, 129, rnd.randrange(32, 300), rnd.randrange(1000)]))
    yield "seckey " + hx(s), w(seckey(s), 4)
    k = rb(rnd, rnd.choice([0, 1, 32, 32, 64, 65, 100]))
    t_ = rb(rnd, rnd.choice([0, 4, 4, 4, 32, 64, 65]))
    if rnd.random() < .3:
        yield "lamportsk %s %s" % (hx(k), hx(t_)), lamport(k, t_).hex()
    i = rnd.choice([0, 1, 255, 256, 65535, 65536, 1 << 24, 0x80000000, 0xffffffff, rnd.getrandbits(32)])
    a = rnd.choice([0, 1, R - 1, rsc(rnd), rsc(rnd), rsc(rnd)]) % R
    if rnd.random() < .3:
        a8 = rnd.choice([a, a, rnd.getrandbits(256)])
        yield "lamportpk %s %d" % (w(a8, 4), i), lamportpk(a8, i).hex()
        yield "child %s %d" % (w(a, 4), i), w(seckey(lamportpk(a, i)), 4)
    p = smul(1, a)
    c = (a + nonce(1, p, i)) % R
    yield "childu %s %d" % (w(a, 4), i), w(c, 4)
    if rnd.random() < .3:                # a second parent that shares some words with the first
        b = sib(rnd, "par", rnd.randrange(R), 4, R) if rnd.random() < .5 else (a & ~(((1 << 64) - 1) << 64 * (k4 := rnd.randrange(4))) | rnd.getrandbits(64) << 64 * k4) % R
        yield "childu %s %d" % (w(b, 4), i), w((b + nonce(1, smul(1, b), i)) % R, 4)
    yield "childg1 %s %d" % (jac(rnd, 1, p), i), isrep(1, smul(1, c))
    yield "pubkey " + w(c, 4), isrep(1, smul(1, c), True)
    q = smul(2, a)
    yield "childg2 %s %d" % (jac(rnd, 2, q), i), isrep(2, smul(2, (a + nonce(2, q, i)) % R))
    n = rnd.choice([0, 1, 2, 3, 4, 10, 33])
    sks = [rnd.choice([R - 1, rsc(rnd), rsc(rnd)]) for _ in range(n)]
    if n > 1 and rnd.random() < .3:
        sks[1] = (R - sks[0]) % R
    yield "aggsk " + ("".join(w(x, 4) for x in sks) or "-"), w(sum(sks) % R, 4)
    v = rnd.choice([0, 1, R - 1, R, R + 1, 2 * R - 1, 2 * R, 2 * R + 1, (1 << 256) - 1, rnd.getrandbits(256), rnd.randrange(R), R ^ (1 << rnd.randrange(255))])
    yield "skfrom %s 1" % v.to_bytes(32, "big").hex(), w(v % R, 4)
    yield "skfrom %s 0" % v.to_bytes(32, "big").hex(), w(v if v < R else 0, 4)
    yield "skto " + w(v, 4), v.to_bytes(32, "big").hex()


GENS["C14"] = c14
