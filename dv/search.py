"""Concrete falsification on the real compiled code: given a property, produce calls with known answers.

Used (a) to turn a failed proof obligation into a failing input, (b) as the labelled bounded stand-in for
obligations the verifier could not decide, and (c) as a cheap cross-check of the verifier's trusted base.
Never counted as proved.
"""
import random, time, json, os
from . import ref, drive
P, R, MR, MRI = ref.P, ref.R, ref.MR, ref.MRI


# ---- memory encodings ---------------------------------------------------------------
def w(v, n): return v.to_bytes(8 * n, "little").hex()
def efp(a): return w(a * MR % P, 6)
def ef2(a): return efp(a[0]) + efp(a[1])
def ef6(a): return "".join(map(ef2, a))
def ef12(a): return "".join(map(ef6, a))
ENC = {1: efp, 2: ef2, 6: ef6, 12: ef12}
def dfp(h): return int.from_bytes(bytes.fromhex(h), "little")
def canon(h):
    """canonical Montgomery limbs -> value; None when not reduced"""
    v = dfp(h)
    return None if v >= P else v * MRI % P


def efr(a, rnd=None):
    return efp(a)


# ---- operand generators ----------------------------------------------------------------
SPECIAL_M = [0, 1, 2, P - 1, P - 2, MR % P, (P - 1) // 2, (P + 1) // 2, P - MR % P, 1 << 380, (1 << 380) - 1, P - (1 << 64), P >> 1, MR * MR % P]
SPECIAL_M += [((1 << (64 * i)) - 1) % P for i in range(1, 6)] + [(1 << (64 * i)) % P for i in range(1, 6)]
SPECIAL_M += [(P - (1 << (64 * i))) for i in range(0, 6)] + [(P >> (64 * i) << (64 * i)) for i in range(1, 6)]


def sib(rnd, key, v, words, mod):
    """now and then a sibling of a recent value (some 64-bit words shared): calls that
    follow one another then look alike, which is what a stale memo needs to show"""
    mem = rnd.__dict__.setdefault("mem_" + key, [])
    if mem and rnd.random() < .15:
        b, out, hit = rnd.choice(mem), 0, rnd.randrange(words)
        some = rnd.random() < .5
        for i in range(words):
            take = v if i == hit or some and rnd.random() < .5 else b
            out |= take & (((1 << 64) - 1) << (64 * i))
        v = out % mod
    mem.append(v)
    del mem[:-3]
    return v


def rawfp(rnd):
    return sib(rnd, "fp", rawfp_(rnd), 6, P)


def rawfp_(rnd):
    """a canonical Montgomery integer, biased to edge cases"""
    k = rnd.random()
    if k < 0.35:
        return rnd.choice(SPECIAL_M) % P
    if k < 0.5:
        v = 0
        for i in range(6):
            v |= rnd.choice([0, 1, (1 << 64) - 1, 1 << 63, rnd.getrandbits(64), P >> (64 * i) & ((1 << 64) - 1)]) << (64 * i)
        return v % P
    if k < 0.55:        # powers of two and their neighbours
        v = (rnd.choice([1, 1, 3, 5]) << rnd.randrange(381)) + rnd.choice([0, 0, 0, 1, -1])
        return rnd.choice([v, P - v, (P >> 1) + v]) % P
    if k < 0.62:
        return rnd.choice([0, 1, 2, 3, 4, P - 1, P - 2]) * MR % P
    return rnd.randrange(P)


def gfp(rnd): return rawfp(rnd) * MRI % P
def gf2(rnd):
    k = rnd.random()
    a, b = gfp(rnd), gfp(rnd)
    if k < 0.1: return (a, 0)
    if k < 0.2: return (0, b)
    if k < 0.25: return (a, a)
    if k < 0.3: return (a, -a % P)
    return (a, b)
def gf6(rnd):
    x = [gf2(rnd) for _ in range(3)]
    if rnd.random() < 0.3:
        x[rnd.randrange(3)] = (0, 0)
    return tuple(x)
def gf12(rnd):
    x = [gf6(rnd), gf6(rnd)]
    if rnd.random() < 0.2:
        x[rnd.randrange(2)] = ref.F6Z
    return tuple(x)
GEN = {1: gfp, 2: gf2, 6: gf6, 12: gf12}
ADD = {1: lambda a, b: (a + b) % P, 2: ref.f2add, 6: ref.f6add, 12: ref.f12add}
SUB = {1: lambda a, b: (a - b) % P, 2: ref.f2sub, 6: ref.f6sub, 12: ref.f12sub}
MUL = {1: lambda a, b: a * b % P, 2: ref.f2mul, 6: ref.f6mul, 12: ref.f12mul}
INV = {1: lambda a: pow(a, P - 2, P), 2: ref.f2inv, 6: ref.f6inv, 12: ref.f12inv}
ONE = {1: 1, 2: (1, 0), 6: ref.F6O, 12: ref.F12O}
Z = {1: 0, 2: (0, 0), 6: ref.F6Z, 12: ref.F12Z}
FN = {1: "fp", 2: "fp2", 6: "fp6", 12: "fp12"}


def b01(x): return "1" if x else "0"


def related(rnd, d, a):
    """second operand, often related to the first"""
    k = rnd.random()
    if k < 0.1: return a
    if k < 0.2: return SUB[d](Z[d], a)
    if k < 0.25: return SUB[d](a, ONE[d])
    if d > 1 and k < 0.35:
        # differs in one coordinate only
        fl = flat(a)
        i = rnd.randrange(len(fl))
        fl[i] = gfp(rnd)
        return unflat(fl, d)
    return GEN[d](rnd)


def flat(a):
    if isinstance(a, int): return [a]
    return [y for x in a for y in flat(x)]


def unflat(l, d):
    if d == 1: return l[0]
    if d == 2: return tuple(l)
    if d == 6: return tuple(unflat(l[2 * i:2 * i + 2], 2) for i in range(3))
    return tuple(unflat(l[6 * i:6 * i + 6], 6) for i in range(2))


def ring_cases(rnd, d):
    n, E = FN[d], ENC[d]
    a = GEN[d](rnd)
    b = related(rnd, d, a)
    A, B = E(a), E(b)
    yield n + ".add " + A + " " + B, E(ADD[d](a, b))
    yield n + ".addA " + A + " " + B, E(ADD[d](a, b))
    yield n + ".sub " + A + " " + B, E(SUB[d](a, b))
    yield n + ".subA " + A + " " + B, E(SUB[d](a, b))
    m = E(MUL[d](a, b))
    yield n + ".mul " + A + " " + B, m
    yield n + ".mulA " + A + " " + B, m
    s, q, z = E(ADD[d](a, a)), E(MUL[d](a, a)), E(Z[d])
    for o in ("addAS", "addS", "dbl", "dblA"):
        yield n + "." + o + " " + A, s
    for o in ("mulAS", "mulS", "sqr", "sqrA"):
        yield n + "." + o + " " + A, q
    for o in ("subAS", "subS"):
        yield n + "." + o + " " + A, z
    yield n + ".neg " + A, E(SUB[d](Z[d], a))
    yield n + ".isZero " + A, b01(a == Z[d])
    yield n + ".isOne " + A, b01(a == ONE[d])
    yield n + ".equal " + A + " " + B, b01(a == b)
    fl = flat(Z[d]); fl[rnd.randrange(len(fl))] = gfp(rnd); c = unflat(fl, d)
    yield n + ".isZero " + E(c), b01(c == Z[d])
    c1 = ADD[d](c, ONE[d])
    yield n + ".isOne " + E(c1), b01(c1 == ONE[d])
    yield n + ".isOne " + E(ONE[d]), "1"
    yield n + ".equal " + A + " " + E(ADD[d](a, c)), b01(c == Z[d])
    # one word different
    raw = bytearray(bytes.fromhex(A)); raw[rnd.randrange(len(raw))] ^= 1 << rnd.randrange(8)
    if all(canon(bytes(raw[48 * i:48 * i + 48]).hex()) is not None for i in range(d)):
        yield n + ".equal " + A + " " + bytes(raw).hex(), "0"
    if a == Z[d] or rnd.random() < 0.5:
        yield n + ".inv " + A, E(Z[d] if a == Z[d] else INV[d](a))
    yield n + ".zero", z
    yield n + ".one", E(ONE[d])


def cyc_elem(rnd):
    while True:
        f = gf12(rnd)
        if f != ref.F12Z:
            break
    f = ref.f12mul(ref.f12conj(f), ref.f12inv(f))
    return ref.f12mul(ref.f12frob(f, 2), f)


def c03(rnd):
    for d in (2, 6, 12):
        yield from ring_cases(rnd, d)
    a, b, c, s = gf2(rnd), gf2(rnd), gf2(rnd), gfp(rnd)
    yield "fp2.conj " + ef2(a), ef2(ref.f2conj(a))
    yield "fp2.mulNR " + ef2(a), ef2(ref.f2mul(a, (1, 1)))
    yield "fp2.mulB " + ef2(a), ef2(ref.f2mul(a, (4, 4)))
    yield "fp2.mulFq %s %s" % (ef2(a), efp(s)), ef2(ref.f2scal(a, s))
    x = gf6(rnd)
    yield "fp6.mulNR " + ef6(x), ef6(ref.f6mulv(x))
    yield "fp6.mulBase %s %s" % (ef6(x), ef2(a)), ef6(tuple(ref.f2mul(y, a) for y in x))
    m01 = ef6(ref.f6mul(x, (a, b, (0, 0))))
    yield "fp6.mulBy01 %s %s %s" % (ef6(x), ef2(a), ef2(b)), m01
    yield "fp6.mulBy01A %s %s %s" % (ef6(x), ef2(a), ef2(b)), m01
    yield "fp6.mulBy1 %s %s" % (ef6(x), ef2(a)), ef6(ref.f6mul(x, ((0, 0), a, (0, 0))))
    f = gf12(rnd)
    yield "fp12.mulBy014A %s %s %s %s" % (ef12(f), ef2(a), ef2(b), ef2(c)), ef12(ref.f12mul(f, ((a, b, (0, 0)), ((0, 0), c, (0, 0)))))
    f6 = f[0] + f[1]
    for i, j, k in ((0, 1, 4), (rnd.randrange(6), rnd.randrange(6), rnd.randrange(6))):
        yield "fp12.mulBy014AS %s %d %d %d" % (ef12(f), i, j, k), ef12(ref.f12mul(f, ((f6[i], f6[j], (0, 0)), ((0, 0), f6[k], (0, 0)))))
    i, j = rnd.randrange(3), rnd.randrange(3)
    yield "fp6.mulBy01AS %s %d %d" % (ef6(x), i, j), ef6(ref.f6mul(x, (x[i], x[j], (0, 0))))
    yield "fp12.conj " + ef12(f), ef12(ref.f12conj(f))
    yield "fp12.fp4Square %s %s" % (ef2(a), ef2(b)), ef2(ref.f2add(ref.f2mul(a, a), ref.f2mul((1, 1), ref.f2mul(b, b)))) + " " + ef2(ref.f2scal(ref.f2mul(a, b), 2))
    g = rnd.choice([cyc_elem, cyc_elem, lambda r: ref.F12O])(rnd)
    q = ef12(ref.f12mul(g, g))
    yield "fp12.cycSqr " + ef12(g), q
    yield "fp12.cycSqrA " + ef12(g), q
    e = rnd.choice([0, 1, 2, 3, ref.AX, (1 << 64) - 1, 1 << 63, rnd.getrandbits(64)])
    yield "fp12.cycExp1 %s %s" % (ef12(g), w(e, 1)), ef12(ref.f12pow(g, e))
    if rnd.random() < 0.2:
        e = rnd.choice([0, 1, R, (1 << 256) - 1, 1 << 255, 1 << 64, rnd.getrandbits(256)])
        yield "fp12.cycExp4 %s %s" % (ef12(g), w(e, 4)), ef12(ref.f12pow(g, e))
    for d in (2, 6, 12):
        n, E = FN[d], ENC[d]
        y = GEN[d](rnd)
        e = rnd.choice([0, 1, 2, 3, 1 << 63, (1 << 64) - 1, rnd.getrandbits(64)])
        yield "%s.exp1 %s %s" % (n, E(y), w(e, 1)), E(ref.gpow(MUL[d], ONE[d], y, e))


def c04(rnd):
    for d, F in ((2, ref.f2frob), (6, ref.f6frob), (12, ref.f12frob)):
        x = GEN[d](rnd)
        for k in [rnd.randrange(0, 13), rnd.choice([12, 13, 15, 23, 24, 27, 63, 255, 2**32 + 3, 2**63, 2**64 - 1]), rnd.getrandbits(64)]:
            e = ENC[d](F(x, k % 12))
            yield "%s.frob %s %d" % (FN[d], ENC[d](x), k), e
            yield "%s.frobA %s %d" % (FN[d], ENC[d](x), k), e


def raw384(rnd):
    k = rnd.random()
    if k < 0.5:
        return rawfp(rnd)
    v = 0
    for i in range(6):
        v |= rnd.choice([0, 1, (1 << 64) - 1, 1 << 63, rnd.getrandbits(64)]) << (64 * i)
    return v


def lazyfp(rnd, k):
    """an integer below k*p, biased to its ends"""
    q = rnd.random()
    if q < 0.3:
        return rnd.choice([k * P - 1, k * P - 2, (k - 1) * P, max(0, (k - 1) * P - 1), (k - 1) * P + 1, 0, 1])
    if q < 0.6:
        return min(k * P - 1, rawfp(rnd) + rnd.randrange(k) * P)
    return rnd.randrange(k * P)


def c01(rnd):
    yield from ring_cases(rnd, 1)
    a = rawfp(rnd)
    b = rnd.choice([rawfp(rnd), a, (P - a) % P, (P - a - 1) % P, (P - a + 1) % P, (a + 1) % P, (a - 1) % P])
    A, B = w(a, 6), w(b, 6)

    def two(nm, x, y, f, g):
        X, Y, r = w(x, 6), w(y, 6), w(f(x, y), 6)
        yield "l.%s %s %s" % (nm, X, Y), "%s %s %s" % (r, X, Y)
        yield "l.%s01 %s %s" % (nm, X, Y), "%s %s" % (r, Y)
        yield "l.%s02 %s %s" % (nm, X, Y), "%s %s" % (r, X)
        if g(x, x):
            r = w(f(x, x), 6)
            yield "l.%s12 %s" % (nm, X), "%s %s" % (r, X)
            yield "l.%s012 %s" % (nm, X), r

    def one_(nm, x, r):
        X = w(x, 6)
        yield "l.%s %s" % (nm, X), "%s %s" % (w(r, 6), X)
        yield "l.%s01 %s" % (nm, X), w(r, 6)
    ok = lambda x, y: True
    mont = lambda x, y: x * y * MRI % P
    yield from two("_add", a, b, lambda x, y: (x + y) % P, ok)
    yield from two("_subtract", a, b, lambda x, y: (x - y) % P, ok)
    yield from two("_multiply", a, b, mont, ok)
    yield from one_("_square", a, mont(a, a))
    yield from one_("_double", a, 2 * a % P)
    yield from one_("_negate", a, -a % P)
    ka = rnd.randrange(1, 9)
    x, y = lazyfp(rnd, ka), lazyfp(rnd, rnd.randrange(1, 10 - ka))
    yield from two("_ladd", x, y, lambda x, y: x + y, lambda x, y: x + y < 1 << 384)
    yield from two("_lsubtract", max(x, y), min(x, y), lambda x, y: x - y, ok)
    if x <= 4 * P:
        yield from one_("_ldouble", x, 2 * x)
    ka = rnd.choice([1, 2, 3, 2, 2, 4, 9])
    x, y = lazyfp(rnd, ka), lazyfp(rnd, min(7, rnd.randrange(1, 9 // ka + 1)))
    yield from two("_multiply", x, y, mont, lambda x, y: x * x <= 9 * P * P)
    yield from one_("_square", lazyfp(rnd, 2), None) if False else ()
    z = lazyfp(rnd, rnd.choice([2, 3]))
    yield from one_("_square", z, mont(z, z))
    z = raw384(rnd)
    yield from two("_multiply", z, a, mont, lambda x, y: x * x <= 9 * P * P)
    x, y = sorted((raw384(rnd), raw384(rnd)))
    yield from two("_lsubtract", y, x, lambda x, y: x - y, ok)
    yield "fp.toMont " + A, w(a * MR % P, 6)
    yield "fp.fromMont " + A, w(a * MRI % P, 6)
    yield "fp.isValid " + w(z, 6), b01(z < P)
    u, v, c = (rnd.choice([0, 1, (1 << 64) - 1, (1 << 63), rnd.getrandbits(64)]) for _ in range(3))
    c &= 1
    yield "Add64 %d %d %d" % (u, v, c), "%d %d" % ((u + v + c) % 2**64, (u + v + c) >> 64)
    yield "Sub64 %d %d %d" % (u, v, c), "%d %d" % ((u - v - c) % 2**64, 1 if u < v + c else 0)
    yield "Mul64 %d %d" % (u, v), "%d %d" % ((u * v) >> 64, u * v % 2**64)


def rawcoord(rnd):
    return rnd.choice([0, 1, P - 1, P, P + 1, (1 << 384) - 1, 1 << 383, (1 << 381) - 1, P - (1 << 64), P + (1 << 64), (P >> 320 << 320) - 1, (P >> 320 << 320),
                       rnd.randrange(P), rnd.randrange(P), rnd.getrandbits(384), P - rnd.getrandbits(64), P + rnd.getrandbits(64), rnd.getrandbits(64)])


def c08(rnd):
    for d in (1, 2, 6, 12):
        n, nm = d, FN[d]
        a = GEN[d](rnd)
        f = flat(a)
        be = "".join(x.to_bytes(48, "big").hex() for x in f[::-1])
        le = "".join(x.to_bytes(48, "little").hex() for x in f)
        mm = [x * MR % P for x in f]
        bem = "".join(x.to_bytes(48, "big").hex() for x in mm[::-1])
        lem = "".join(x.to_bytes(48, "little").hex() for x in mm)
        A = ENC[d](a)
        for sfx in ("", "s"):
            yield "%s.toBE%s %s 1" % (nm, sfx, A), be
            yield "%s.toLE%s %s 1" % (nm, sfx, A), le
            yield "%s.toBE%s %s 0" % (nm, sfx, A), bem
            yield "%s.toLE%s %s 0" % (nm, sfx, A), lem
        cs = [rawcoord(rnd) if rnd.random() < 1.5 / n else rnd.randrange(P) for _ in range(n)]
        ok = all(c < P for c in cs)
        for chk in (0, 1):
            for mont in (0, 1):
                val = "".join(w(c * MR % P if mont else c, 6) for c in cs)
                want = "none" if chk and not ok else val
                yield "%s.fromBE %s %d %d" % (nm, "".join(c.to_bytes(48, "big").hex() for c in cs[::-1]), chk, mont), want
                yield "%s.fromLE %s %d %d" % (nm, "".join(c.to_bytes(48, "little").hex() for c in cs), chk, mont), want
    v = rawcoord(rnd)
    yield "fp.isValid " + w(v, 6), b01(v < P)


GENS = {"C08": c08, "C01": c01, "C03": c03, "C04": c04}
KINDS = {"C01": [("native", False), ("native", True), ("portable", False)]}


def _load():
    from . import search_g, search_h, search_s


HISTORY = []         # calls before the first failing one, when that alone does not fail


def run(prop, seconds, seed=1, rounds=None, focus=(), hints=()):
    """-> (violations [(cmd, expected, got)], executed)"""
    _load()
    gen = GENS.get(prop)
    if gen is None:
        return [], 0
    rnd = random.Random("%s-%d" % (prop, seed))
    t0 = time.time()
    drvs = [drive.Driver(k, nf) for k, nf in KINDS.get(prop, [("native", False)])]
    bad, n, batch = [], 0, 40
    first = True
    while first or time.time() - t0 < seconds:
        first = False
        cases = []
        t1 = time.time()
        while len(cases) < 4000 and time.time() - t1 < min(4, max(0.5, seconds / 3)):
            cases += list(gen(rnd))
        for dv in drvs:
            outs = dv.run([c for c, _ in cases])
            for (c, e), o in zip(cases, outs):
                if o == "noop":
                    raise RuntimeError("the driver has no operation for " + c[:60])
                if o == "SKIPPED":
                    continue
                n += 1
                msg = None
                if o.startswith(("CRASH", "TIMEOUT", "exception")):
                    msg = o
                elif callable(e):
                    msg = e(o)
                elif e != o:
                    msg = "expected " + e
                if msg is not None:
                    if not bad and dv.run([c])[0] != o:      # depends on what was called before: keep the history
                        HISTORY[:] = [x for x, _ in cases[:cases.index((c, e)) + 1]][-2000:]
                    bad.append((c, msg, o, dv.kind + ("+BLS_DISABLE_BMI2" if dv.nofeat else "")))
        if bad or rounds is not None and rounds <= 1:
            break
    return bad, n
