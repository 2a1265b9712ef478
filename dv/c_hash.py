"""SHA-256, HMAC, HKDF and expand_message_xmd (C13).  The compression function is compared with FIPS 180-4 as a
circuit (equal nodes proved bottom-up); update for an arbitrary byte of an arbitrary message; the rest through ropes."""
import time
import random
import z3
from . import term as t, smt, verify, props, exec as ex, bytestr
from .term import T
from .exec import Ptr, Violation, Contract, Infeasible, Poison, UNDEF, addoff
from .ir import Unsupported
from .verify import UNKNOWN
from .c_int import execute, bvdecide
from .c_code import frame
from .loopcut import Cut
from .bytestr import rope, app, bs, num, equal, same
C = {}
B = "bls12_381::"
SHA = B + "sha256::"
M32 = 0xffffffff


def reg(c):
    C[c.name] = c
    return c


# ---- FIPS 180-4 ------------------------------------------------------------------------------------

def _primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % q for q in r):
            r.append(k)
        k += 1
    return r


def _root(n, k):
    """floor of the k-th root"""
    x = 1 << (n.bit_length() // k + 1)
    while True:
        y = ((k - 1) * x + n // x ** (k - 1)) // k
        if y >= x:
            return x
        x = y


KS = [_root(q << 96, 3) & M32 for q in _primes(64)]
IV = [_root(q << 64, 2) & M32 for q in _primes(8)]


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = t.add(r, x, 32)
    return r


def rotr(x, n):
    return t.or_(t.lshr(x, n, 32), t.shl(x, 32 - n, 32), 32)


def x3(a, b, c):
    return t.xor(t.xor(a, b, 32), c, 32)


def compress(H, block):
    """-> (new state, named nodes in order); block: 64 bytes"""
    nodes = []

    def nm(x):
        nodes.append(x)
        return x
    z = lambda b: t.zext(b, 8, 32)
    W = []
    for i in range(16):
        b = block[4 * i:4 * i + 4]
        w = z(b[3])
        for k in range(3):
            w = t.or_(w, t.shl(z(b[k]), 24 - 8 * k, 32), 32)
        W.append(nm(w))
    for i in range(16, 64):
        s0 = nm(x3(rotr(W[i - 15], 7), rotr(W[i - 15], 18), t.lshr(W[i - 15], 3, 32)))
        s1 = nm(x3(rotr(W[i - 2], 17), rotr(W[i - 2], 19), t.lshr(W[i - 2], 10, 32)))
        W.append(nm(add(s1, W[i - 7], s0, W[i - 16])))
    a, b, c, d, e, f, g, h = H
    for i in range(64):
        S1 = nm(x3(rotr(e, 6), rotr(e, 11), rotr(e, 25)))
        ch = nm(t.xor(t.and_(e, f, 32), t.and_(t.xor(e, M32, 32), g, 32), 32))
        t1 = nm(add(h, S1, ch, KS[i], W[i]))
        S0 = nm(x3(rotr(a, 2), rotr(a, 13), rotr(a, 22)))
        mj = nm(x3(t.and_(a, b, 32), t.and_(a, c, 32), t.and_(b, c, 32)))
        a, b, c, d, e, f, g, h = nm(add(t1, S0, mj)), a, b, c, nm(t.add(d, t1, 32)), e, f, g
    return [nm(t.add(x, y, 32)) for x, y in zip(H, (a, b, c, d, e, f, g, h))], nodes


class Cutter(smt.Enc):
    """encoding in which already matched nodes are constants"""

    def __init__(self, rep, target):
        super().__init__()
        self.rep, self.target = rep, target

    def e(self, x, w):
        return super().e(x, w)

    def node(self, y):
        return super().node(y)


def sweep(rep, name, code, nodes, outs, seed=7):
    """code: the executed outputs; outs: the specified ones.  Proves code[i] = outs[i] by matching inner nodes"""
    t0 = time.time()
    vs = t.variables([x for x in list(code) + list(outs) if isinstance(x, T)])
    rnd = random.Random(seed)
    envs = [{v: rnd.getrandbits(v.w) for v in vs} for _ in range(3)]
    caches = [{} for _ in envs]

    def sig(x):
        return tuple(t.evaluate(x, e, c) for e, c in zip(envs, caches))
    for i, (a, b) in enumerate(zip(code, outs)):
        sa, sb = sig(a), sig(b)
        if sa != sb:
            k = next(k for k in range(3) if sa[k] != sb[k])
            rep.add(name, "word %d of the new state" % i, False, "evaluation", time.time() - t0, "block and state %s" % ', '.join('%s=%x' % (v.args[0], x) for v, x in envs[k].items())[:1500])
            return
    by = {}
    for n in nodes:
        by.setdefault(sig(n), n)
    rmap = {n.id: n for n in by.values() if isinstance(n, T)}       # node id -> representative (a specified node)
    canon = dict(rmap)
    order, seen = [], set()
    stk = [(x, False) for x in reversed([x for x in code if isinstance(x, T)])]
    while stk:
        x, done = stk.pop()
        if done:
            order.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        stk.append((x, True))
        stk += [(a, False) for a in x.args if isinstance(a, T) and a.id not in seen]
    nq = 0
    for x in order:
        if x.op == "var" or x.id in canon or x.w != 32:
            continue
        n = by.get(sig(x))
        if n is None:
            continue
        ok = cutequal(x, n, canon)
        nq += 1
        if ok:
            canon[x.id] = n
    for i, (a, b) in enumerate(zip(code, outs)):
        good = a is b or isinstance(a, T) and canon.get(a.id) is by.get(sig(b)) and canon.get(a.id) is not None
        if good and by[sig(b)] is not b:
            good = cutequal(by[sig(b)], b, canon) is True
        rep.add(name, "word %d of the new state is the one of FIPS 180-4" % i, True if good else UNKNOWN, "z3 bit-vectors (%d inner equalities)" % nq, (time.time() - t0) / 8)


def cutequal(x, n, canon):
    en = smt.Enc()
    base = en.node
    memo = {}

    def node(y):
        r = canon.get(y.id)
        if r is not None and y is not x and y is not n:
            if r.id not in memo:
                memo[r.id] = z3.BitVec("c%d" % r.id, y.w)
            return memo[r.id]
        return base(y)
    # nodes above a cut need not be visited
    def e(top):
        st = [top]
        while st:
            y = st[-1]
            if y.id in en.c:
                st.pop()
                continue
            cut = y.id in canon and y is not top
            deps = [] if cut or y.op not in smt.OPS else [a for a in y.args if isinstance(a, T) and a.id not in en.c]
            if deps:
                st += deps
                continue
            en.c[y.id] = node(y)
            st.pop()
        return en.c[top.id]
    try:
        a, b = e(x), e(n)
    except NotImplementedError:
        return None
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(a != b)
    return s.check() == z3.unsat


# ---- the class ------------------------------------------------------------------------------------------

def layout(exr):
    """offsets of (data, blocklen, its size, bitlen, state) and the total size, from the compiled type"""
    mod = exr.mod
    ty = mod.types.get('%"class.bls12_381::sha256"')
    if ty is None:
        raise Unsupported("class layout")
    from .ir import sizeof, field_offsets
    fs = field_offsets(mod, ty)
    return fs


class Base(Contract):
    home = "C13"

    def start(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return None
        bytestr.reset()
        return fn

    def go(self, exr, rep, fn, st, args, extra=None, hook=None):
        old, oh = exr.contracts, getattr(exr, "loop_hook", None)
        exr.contracts = dict(old)
        exr.contracts.update(bytestr.strings())
        exr.contracts.update(extra or {})
        if hook is not None:
            exr.loop_hook = hook
        try:
            return execute(exr, rep, self.name, fn, st, args)
        finally:
            exr.contracts, exr.loop_hook = old, oh


def absorbed(st, p):
    r = bytestr.g(st, "sha").get((p.obj, p.off))
    if r is None:
        raise Unsupported("hash object in an unknown state")
    return r


def setrope(st, p, r):
    bytestr.put(st, "sha", (p.obj, p.off), r)


class Obj:
    """a sha256 object, byte by byte"""
    D, BL, BIT, H, SIZE = 0, 64, 72, 80, 112

    @staticmethod
    def symbolic(st, p, bl):
        for i in range(64):
            st.store(addp(p, i), 1, t.var("d%d" % i, 8))
        st.store(addp(p, Obj.BL), 4, bl)
        st.store(addp(p, Obj.BIT), 8, t.var("bitlen", 64))
        for i in range(8):
            st.store(addp(p, Obj.H + 4 * i), 4, t.var("h%d" % i, 32))

    @staticmethod
    def read(st, p):
        return ([st.load(addp(p, i), 1) for i in range(64)], st.load(addp(p, Obj.BL), 4), st.load(addp(p, Obj.BIT), 8),
                [st.load(addp(p, Obj.H + 4 * i), 4) for i in range(8)])


def addp(p, n):
    return Ptr(p.obj, addoff(p.off, n))


def words(xs):
    return tuple(("b", x) for x in xs)


def F(H, block):
    """the compression function, uninterpreted"""
    r = app("F", (words(H), bs(block)), 32)
    return [t.concat_bytes(list(r[4 * i:4 * i + 4])) for i in range(8)]


class Ctor(Base):
    """ensures: nothing absorbed (the initial hash value of FIPS 180-4)"""
    name = SHA + "sha256()"

    def apply(self, exr, st, args, I):
        blank(st, args[0])
        setrope(st, args[0], ())
        return [(st, None)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        st = exr.base.copy()
        p = st.new(Obj.SIZE, "this", "arg")
        for k, (s, rv) in enumerate((self.go(exr, rep, fn, st, [p]) or ([], []))[0]):
            d, bl, bit, H = Obj.read(s, p)
            rep.add(self.name, "initial hash value", H == IV, "symexec", 0, str(H)[:200])
            rep.add(self.name, "nothing absorbed", bl == 0 and bit == 0, "symexec")


def blank(st, p):
    o = st.wobj(p)
    st.check(o, p.off, Obj.SIZE, "construction", p)
    st.carve(o, p.off, Obj.SIZE)
    for i in range(0, Obj.SIZE, 8):
        o.cells[p.off + i] = (8, Poison("inside of a hash object"))


class Update(Base):
    """ensures: the bytes are appended to what was absorbed"""
    name = SHA + "update(unsigned char const*, unsigned long)"

    def apply(self, exr, st, args, I):
        setrope(st, args[0], absorbed(st, args[0]) + rope(st, args[1], args[2]))
        return [(st, None)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        nm = self.name
        for bl in range(64):
            bytestr.reset()
            st = exr.base.copy()
            p = st.new(Obj.SIZE, "this", "arg")
            n = t.var("length", 64)
            Obj.symbolic(st, p, bl)
            data = bytestr.opaque(st, "data", n)
            cut = Absorb(exr, fn, p, n)
            before = st.copy()
            r = self.go(exr, rep, fn, st, [p, data, n], hook=cut.hook)
            if r is None:
                return
            if r[1]:
                rep.add(nm, "no exception", False, "symexec", 0, "bl=%d" % bl)
            tag = "%d bytes pending" % bl
            if cut.active is None or not cut.backs:
                rep.add(nm, tag + ": loop over the bytes", UNKNOWN, "symexec", 0, "no such loop")
                return
            I = cut.I
            x = t.var("data[%s]" % (I if isinstance(I, int) else "t%d" % I.id), 8)
            for s in cut.backs:
                if not verify.consistent(s):
                    continue
                d0, _, bit0, H0 = Obj.read(before, p)
                d, b, bit, H = Obj.read(s, p)
                want = list(d0)
                want[bl] = x
                ok = all(d[i] is want[i] or isinstance(d[i], (int, T)) and same(s, d[i], want[i], 8) for i in range(64 if bl < 63 else 0))
                rep.add(nm, tag + ": the byte is stored after the pending ones", True if ok else UNKNOWN if any(not isinstance(v, (int, T)) for v in d) else False, "symexec")
                H1 = F(H0, want) if bl == 63 else H0
                rep.add(nm, tag + ": pending count", same(s, b, (bl + 1) % 64, 32), "symexec", 0, str(b)[:60])
                rep.add(nm, tag + ": bits of the finished blocks", same(s, bit, t.add(bit0, 512, 64) if bl == 63 else bit0), "symexec")
                rep.add(nm, tag + ": hash value", all(same(s, a, c, 32) for a, c in zip(H, H1)), "congruence")
                e = cut.advance(s)
                rep.add(nm, tag + ": next byte is the next iteration", True if e is None else UNKNOWN, "symexec", 0, e or "")
                e = cut.frame_ok(s, {p.obj} | {o for o, _ in cut.lin})
                rep.add(nm, tag + ": nothing else changes", True if e is None else UNKNOWN, "symexec", 0, e or "")
            for s, rv in r[0]:
                if not verify.consistent(s):
                    continue
                rep.add(nm, tag + ": all bytes are absorbed", same(s, cut.I, n), "z3 bit-vectors")
                frame(rep, nm, before, s, set(), tag)


class Absorb(Cut):
    """at the header of iteration I the object has absorbed the first I bytes; counters are linear in I"""

    def __init__(self, exr, fn, p, n):
        super().__init__(exr)
        self.fn, self.p, self.n, self.backs = fn, p, n, []

    def match(self, f, st, env, blk):
        return f.name == self.fn

    def enter(self, f, st, env, blk, changed):
        self.lin = {}
        for oid, offs in changed.items():
            if oid == self.p.obj:
                continue
            for off in sorted({o & ~7 for o in offs}):
                v = st.load(Ptr(oid, off), 8)
                w = {self.diff(s.load(Ptr(oid, off), 8), v) for s, _ in self.trial_states}
                if len(w) != 1 or None in w:
                    raise Unsupported("the loop changes something that is not a counter")
                self.lin[(oid, off)] = (v, w.pop())
        if self.envch:
            raise Unsupported("loop-carried registers")
        self.I = t.fresh("i", 64)
        s = st.copy()
        s.assume(t.ult(self.n, self.I, 64), False)
        for (oid, off), (v, d) in self.lin.items():
            s.store(Ptr(oid, off), 8, self.at(v, d, self.I))
        self.active = (self.active[0], {oid: dict(o.cells) for oid, o in s.mem.items()}, self.active[2])
        return [(s, dict(env))]

    @staticmethod
    def diff(x, v):
        if isinstance(x, Ptr) and isinstance(v, Ptr) and x.obj == v.obj:
            x, v = x.off, v.off
        elif isinstance(x, Ptr) or isinstance(v, Ptr):
            return None
        e = t.sub(x, v, 64)
        return e if isinstance(e, int) else None

    @staticmethod
    def at(v, d, i):
        e = t.mul(d & (2 ** 64 - 1), i, 64)
        return Ptr(v.obj, t.add(v.off, e, 64)) if isinstance(v, Ptr) else t.add(v, e, 64)

    def back(self, f, st, env, blk):
        self.backs.append(st.copy())

    def advance(self, s):
        for (oid, off), (v, d) in self.lin.items():
            w, x = self.at(v, d, t.add(self.I, 1, 64)), s.load(Ptr(oid, off), 8)
            if isinstance(w, Ptr):
                if not isinstance(x, Ptr) or x.obj != w.obj:
                    return "a pointer moves elsewhere"
                w, x = w.off, x.off
            if not same(s, x, w):
                return "a counter does not advance evenly"
        return None


class UpdateString(Base):
    """ensures: the characters are appended to what was absorbed"""
    name = SHA + "update(%s const&)" % bytestr.STR

    def apply(self, exr, st, args, I):
        q, n = bytestr.strof(st, args[1])
        setrope(st, args[0], absorbed(st, args[0]) + rope(st, q, n))
        return [(st, None)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        st = exr.base.copy()
        p, n = st.new(Obj.SIZE, "this", "arg"), t.var("length", 64)
        blank(st, p)
        r0 = (("s", "absorbed", 0, t.var("absorbed_n", 64)),)
        setrope(st, p, r0)
        q = bytestr.string(st, "text", n)
        for s, rv in (self.go(exr, rep, fn, st, [p, q]) or ([], []))[0]:
            ok = bytestr.equalrope(s, absorbed(s, p), r0 + (("s", "text_data", 0, n),))
            rep.add(self.name, "the characters are absorbed", True if ok else UNKNOWN, "ropes")


class Transform(Base):
    """ensures: the hash value becomes that of FIPS 180-4 section 6.2.2 for the block; nothing else changes"""
    name = SHA + "transform()"

    def apply(self, exr, st, args, I):
        p = args[0]
        d, bl, bit, H = Obj.read(st, p)
        if any(not isinstance(x, (int, T)) for x in d + H):
            raise Unsupported("hash object in an unknown state")
        for i, x in enumerate(F(H, d)):
            st.store(addp(p, Obj.H + 4 * i), 4, x)
        return [(st, None)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        st = exr.base.copy()
        p = st.new(Obj.SIZE, "this", "arg")
        Obj.symbolic(st, p, t.var("bl", 32))
        d0, bl0, bit0, H0 = Obj.read(st, p)
        r = self.go(exr, rep, fn, st, [p])
        if r is None:
            return
        if len(r[0]) != 1 or r[1]:
            rep.add(self.name, "a single path", UNKNOWN, "symexec", 0, "%d paths" % len(r[0]))
            return
        s = r[0][0][0]
        d, bl, bit, H = Obj.read(s, p)
        rep.add(self.name, "only the hash value changes", d == d0 and bl is bl0 and bit is bit0, "symexec")
        frame(rep, self.name, st, s, {p.obj}, "path0")
        outs, nodes = compress(H0, d0)
        sweep(rep, self.name, H, nodes, outs)


class Digest(Base):
    """ensures: the 32 bytes are SHA-256 of what was absorbed"""

    def __init__(self, name):
        self.name = name

    def apply(self, exr, st, args, I):
        out, p = (args[1], args[0]) if self.name.endswith("*)") else (args[0], args[1])
        h = app("sha", (absorbed(st, p),), 32)
        for i in range(32):
            st.store(addp(out, i), 1, h[i])
        setrope(st, p, None)
        return [(st, None)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        for bl in range(64):
            bytestr.reset()
            st = exr.base.copy()
            p = st.new(Obj.SIZE, "this", "arg")
            out = st.new(32, "out", "arg")
            Obj.symbolic(st, p, bl)
            before = st.copy()
            d0, _, bit0, H0 = Obj.read(st, p)
            r = self.go(exr, rep, fn, st, [p, out] if self.name.endswith("*)") else [out, p])
            if r is None:
                return
            if r[1]:
                rep.add(self.name, "no exception", False, "symexec", 0, "bl=%d" % bl)
            msg = d0[:bl] + [0x80] + [0] * ((55 - bl) % 64) + [x[1] for x in num(t.add(bit0, 8 * bl, 64), 8)]
            H = H0
            for k in range(0, len(msg), 64):
                H = F(H, msg[k:k + 64])
            for s, rv in r[0]:
                if not verify.consistent(s):
                    continue
                tag = "%d bytes pending" % bl
                got = [s.load(addp(out, i), 1) for i in range(32)]
                want = [t.trunc(t.lshr(H[i // 4], 24 - 8 * (i % 4), 32), 32, 8) for i in range(32)]
                rs = [isinstance(g_, (int, T)) and self.eq(s, g_, w_) for g_, w_ in zip(got, want)]
                rep.add(self.name, tag + ": padding, length and output of FIPS 180-4", True if all(x is True for x in rs) else False if False in rs else UNKNOWN, "congruence + z3")
                frame(rep, self.name, before, s, {out.obj, p.obj}, tag)

    def eq(self, s, a, b):
        if a is b:
            return True
        # a byte of a word of the last compression
        while isinstance(b, T) and b.op != "var" and isinstance(a, T) and a.op == b.op and len(a.args) == len(b.args):
            k = [i for i, (x, y) in enumerate(zip(a.args, b.args)) if x is not y]
            if len(k) != 1:
                break
            a, b = a.args[k[0]], b.args[k[0]]
        return bytestr.equal(s, a, b)


for c in (Ctor(), Update(), UpdateString(), Transform(), Digest(SHA + "digest()"), Digest(SHA + "digest(unsigned char*)")):
    reg(c)


# ---- HMAC, HKDF ------------------------------------------------------------------------------------------

def hmac(key, data):
    return app("hmac", (key, data), 32)


class Hmac(Base):
    """requires: in_len, key_len < 2^60; memory is not exhausted.  ensures: returns 0 and mac = HMAC-SHA-256(key, in)"""
    name = B + "hkdf256_hmac(unsigned char*, unsigned char const*, unsigned long, unsigned char const*, unsigned long)"

    def apply(self, exr, st, args, I):
        mac, inp, n, key, kn = args
        h = hmac(rope(st, key, kn), rope(st, inp, n))
        for i in range(32):
            st.store(addp(mac, i), 1, h[i])
        return [(st, 0)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        for kl in list(range(65)) + [None]:
            bytestr.reset()
            st = exr.base.copy()
            n = t.var("in_len", 64)
            mac, inp = st.new(32, "mac", "arg"), bytestr.opaque(st, "in", n)
            kn = t.var("key_len", 64) if kl is None else kl
            key = bytestr.opaque(st, "key", kn)
            if kl is None:
                st.assume(t.ult(64, kn, 64))
            before = st.copy()
            r = self.go(exr, rep, fn, st, [mac, inp, n, key, kn])
            if r is None:
                return
            tag = "key of more than 64 bytes" if kl is None else "key of %d bytes" % kl
            if r[1] or not r[0]:
                rep.add(self.name, tag + ": returns", False, "symexec")
            for s, rv in r[0]:
                if not verify.consistent(s):
                    continue
                k0 = list(app("sha", (rope(s, key, kn),), 32)) if kl is None else [bytestr.byteat(s, key, i) for i in range(kl)]
                k0 += [0] * (64 - len(k0))
                pad = lambda c: bs([t.xor(x, c, 8) for x in k0])
                inner = app("sha", (pad(0x36) + rope(s, inp, n),), 32)
                want = app("sha", (pad(0x5c) + bs(inner),), 32)
                check(rep, self.name, s, mac, want, tag + ": mac")
                rep.add(self.name, tag + ": returns 0", rv == 0, "symexec", 0, str(rv)[:60])
                frame(rep, self.name, before, s, {mac.obj}, tag)


def check(rep, name, s, p, want, what):
    t0 = time.time()
    got = [s.load(addp(p, i), 1) for i in range(len(want))]
    rs = [bytestr.equal(s, g_, w_) if isinstance(g_, (int, T)) else False if g_ is UNDEF else None for g_, w_ in zip(got, want)]
    ok = True if all(x is True for x in rs) else False if False in rs else UNKNOWN
    rep.add(name, what, ok, "ropes", time.time() - t0, "" if ok is True else "byte %d: %s" % (next(i for i, x in enumerate(rs) if x is not True), t.show(got[next(i for i, x in enumerate(rs) if x is not True)], 3)))


class Extract(Base):
    """ensures: returns 0 and prk = HMAC-SHA-256(salt, ikm)"""
    name = B + "hkdf256_extract(unsigned char*, unsigned char const*, unsigned long, unsigned char const*, unsigned long)"

    def apply(self, exr, st, args, I):
        prk, salt, sn, ikm, n = args
        h = hmac(rope(st, salt, sn), rope(st, ikm, n))
        for i in range(32):
            st.store(addp(prk, i), 1, h[i])
        return [(st, 0)]

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        st = exr.base.copy()
        n, sn = t.var("ikm_len", 64), t.var("salt_len", 64)
        prk, ikm, salt = st.new(32, "prk", "arg"), bytestr.opaque(st, "ikm", n), bytestr.opaque(st, "salt", sn)
        before = st.copy()
        for s, rv in (self.go(exr, rep, fn, st, [prk, salt, sn, ikm, n]) or ([], []))[0]:
            check(rep, self.name, s, prk, hmac(rope(s, salt, sn), rope(s, ikm, n)), "pseudorandom key")
            rep.add(self.name, "returns 0", rv == 0, "symexec")
            frame(rep, self.name, before, s, {prk.obj}, "path")


def okm(prk, info, L):
    """HKDF-Expand of RFC 5869: the first L bytes"""
    out, T_ = [], ()
    for i in range(1, (L + 31) // 32 + 1):
        T_ = bs(hmac(prk, T_ + info + bs([i])))
        out += [x[1] for x in T_]
    return out[:L]


class Expand(Base):
    """ensures: if 1 <= L <= 8160, returns 0 and okm = HKDF-Expand(prk, info, L); otherwise returns a non-zero code and
    writes nothing"""
    symbolic = False
    name = B + "hkdf256_expand(unsigned char*, unsigned long, unsigned char const*, unsigned char const*, unsigned long)"

    def expand(self, exr, st, out, L, prk, info):
        if not isinstance(L, int):
            if not self.symbolic:
                raise Unsupported("symbolic output length")
            # the effect as a whole, to be compared by the caller's proof: one expansion into (out, L)
            rv = t.var("hkdf_rv", 32)
            st.ghost["expansions"] = st.ghost.get("expansions", ()) + ((out.obj, out.off, L, bytestr.key(prk), bytestr.key(info), rv, dict(st.obj(out).cells)),)
            return [(st, rv)]
        if L < 1 or L > 8160:
            return [(st, t.ite(t.var("hkdf_code", 1), M32, M32 - 2, 32))]
        for i, x in enumerate(okm(prk, info, L)):
            st.store(addp(out, i), 1, x)
        return [(st, 0)]

    def apply(self, exr, st, args, I):
        out, L, prk, info, n = args
        return self.expand(exr, st, out, L, rope(st, prk, 32), rope(st, info, n))

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        st = exr.base.copy()
        n, L = t.var("info_len", 64), t.var("L", 64)
        out = st.new(L, "okm", "arg")
        prk, info = bytestr.opaque(st, "prk", 32), bytestr.opaque(st, "info", n)
        before = st.copy()
        r = self.go(exr, rep, fn, st, [out, L, prk, info, n])
        if r is None:
            return
        good = lambda: (rope(st, prk, 32), rope(st, info, n))
        outputs(rep, self.name, before, r, out, L, t.and_(t.ult(0, L, 64), t.not_(t.ult(8160, L, 64)), 1), lambda k: okm(*good(), 32 * k))


def outputs(rep, name, before, r, out, L, okc, want):
    """the paths of a routine that writes L bytes, 32 at a time, the last piece possibly shorter"""
    if r[1]:
        rep.add(name, "no exception", False, "symexec")
    seen = 0
    full = want(255)
    for s, rv in r[0]:
        if not verify.consistent(s):
            continue
        cells = s.obj(out).cells
        tail = bytestr.g(s, "tail").get(out.obj)
        seen += 1
        if rv != 0:
            ok, d = smt.valid(t.not_(okc), s.pc)
            rep.add(name, "an error only for lengths out of range", UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
            ok = isinstance(rv, int) or smt.valid(t.not_(t.eq(rv, 0, 32)), s.pc)[0] is True
            rep.add(name, "an error code is not zero", ok, "z3 bit-vectors")
            continue
        ok, d = smt.valid(okc, s.pc)
        rep.add(name, "success only for lengths in range", UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
        k = 0
        while k in cells and cells[k][0] == 1 and k < 8160 and cells[k][1] is full[k]:
            k += 1
        end, good = k, True
        if tail is not None:
            end = t.add(tail[0], tail[1], 64)
            good = tail[0] == k and all(x is y for x, y in zip(tail[2][:32], full[k:]))
            rng = smt.valid(t.not_(t.ult(min(len(tail[2]), 32), tail[1], 64)), s.pc)[0]
            good = good and rng is True
        good = good and len(cells) == k
        ok, d = smt.valid(t.eq(end, L, 64), s.pc)
        rep.add(name, "%d bytes%s: output" % (k, "" if tail is None else " and a shorter piece"), UNKNOWN if not good else True, "ropes")
        rep.add(name, "%d bytes%s: all of the output" % (k, "" if tail is None else " and a shorter piece"), UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)
        frame(rep, name, before, s, {out.obj}, "path")
    rep.add(name, "paths", seen > 0, "symexec", 0, "%d" % seen)


class ExtractExpand(Base):
    """ensures: HKDF of RFC 5869: okm = Expand(Extract(salt, key), info, L), with the return code of Expand"""
    name = B + ("hkdf256_extract_expand(unsigned char*, unsigned long, unsigned char const*, unsigned long, unsigned char const*, "
                "unsigned long, unsigned char const*, unsigned long)")

    def apply(self, exr, st, args, I):
        out, L, key, kn, salt, sn, info, n = args
        return C[Expand.name].expand(exr, st, out, L, bs(hmac(rope(st, salt, sn), rope(st, key, kn))), rope(st, info, n))

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        # every length: the function is one extraction and one expansion of its result into (output, L), whose code it returns
        bytestr.reset()
        st = exr.base.copy()
        kn, sn, n, L = (t.var(x, 64) for x in ("key_len", "salt_len", "info_len", "L"))
        out = st.new(L, "okm", "arg")
        key, salt, info = bytestr.opaque(st, "key", kn), bytestr.opaque(st, "salt", sn), bytestr.opaque(st, "info", n)
        before = st.copy()
        cells = dict(st.obj(out).cells)
        X = C[Expand.name]
        X.symbolic = True
        try:
            r = self.go(exr, rep, fn, st, [out, L, key, kn, salt, sn, info, n])
        finally:
            X.symbolic = False
        for s, rv in (r or ([], []))[0]:
            ex_ = s.ghost.get("expansions", ())
            want = (bytestr.key(bs(hmac(rope(s, salt, sn), rope(s, key, kn)))), bytestr.key(rope(s, info, n)))
            ok = len(ex_) == 1 and ex_[0][:3] == (out.obj, out.off, L) and ex_[0][6] == cells
            rep.add(self.name, "every L: one expansion into the output", True if ok else UNKNOWN, "ropes")
            if ok:
                rep.add(self.name, "every L: expansion of the extracted key with the info", True if ex_[0][3:5] == want else UNKNOWN, "ropes")
                rep.add(self.name, "every L: the code of the expansion, nothing else written", True if rv is ex_[0][5] and dict(s.obj(out).cells) == cells else UNKNOWN, "ropes")
                frame(rep, self.name, before, s, {out.obj}, "every L")
        # and explicitly for the lengths the library uses and the ends of the range
        for L in (0, 1, 32, 33, 48, 8160, 8161):
            bytestr.reset()
            st = exr.base.copy()
            kn, sn, n = (t.var(x, 64) for x in ("key_len", "salt_len", "info_len"))
            out = st.new(L, "okm", "arg")
            key, salt, info = bytestr.opaque(st, "key", kn), bytestr.opaque(st, "salt", sn), bytestr.opaque(st, "info", n)
            before = st.copy()
            for s, rv in (self.go(exr, rep, fn, st, [out, L, key, kn, salt, sn, info, n]) or ([], []))[0]:
                if L in (0, 8161):
                    rep.add(self.name, "L=%d: an error code" % L, rv != 0 and (isinstance(rv, int) or smt.valid(t.not_(t.eq(rv, 0, 32)), s.pc)[0]), "symexec")
                    continue
                check(rep, self.name, s, out, okm(bs(hmac(rope(s, salt, sn), rope(s, key, kn))), rope(s, info, n), L), "L=%d: output" % L)
                rep.add(self.name, "L=%d: returns 0" % L, rv == 0, "symexec")
                frame(rep, self.name, before, s, {out.obj}, "L=%d" % L)


for c in (Hmac(), Extract(), Expand(), ExtractExpand()):
    reg(c)


# ---- expand_message_xmd -----------------------------------------------------------------------------------

def xmd_blocks(msg, n, dst, dn, L, k):
    """RFC 9380 section 5.3.1: the first k blocks; L: the two bytes of the requested length"""
    tag = dst + bs([dn])
    b0 = app("sha", (bs([0] * 64) + msg + bs(L) + bs([0]) + tag,), 32)
    out, b = [], None
    for i in range(1, k + 1):
        x = bs([t.xor(p, q, 8) for p, q in zip(b0, b)]) if b else bs(b0)
        b = app("sha", (x + bs([i]) + tag,), 32)
        out += b
    return out


class Xmd(Base):
    """requires: in_len >= 0, dst_len >= 0.  ensures: if dst_len <= 255 and 0 <= buf_len <= 8160, returns 0 and buf =
    expand_message_xmd(in, dst, buf_len); otherwise returns a non-zero code and writes nothing"""
    name = B + "xmd_sh256(unsigned char*, int, unsigned char const*, int, unsigned char const*, int)"

    def apply(self, exr, st, args, I):
        buf, L, inp, n, dst, dn = args
        if not isinstance(L, int):
            if not self.symbolic:
                raise Unsupported("symbolic output length")
            # the effect as a whole, to be compared by the caller's proof: one expansion into (out, L)
            rv = t.var("hkdf_rv", 32)
            st.ghost["expansions"] = st.ghost.get("expansions", ()) + ((out.obj, out.off, L, bytestr.key(prk), bytestr.key(info), rv, dict(st.obj(out).cells)),)
            return [(st, rv)]
        for x in (n, dn):
            if smt.valid(t.slt(x, 0, 32) if isinstance(x, T) else int(x >> 31), st.pc)[0] is not False and \
                    smt.valid(t.not_(t.slt(x, 0, 32)) if isinstance(x, T) else 1 - (x >> 31), st.pc)[0] is not True:
                raise Unsupported("a length may be negative")
        res = []
        for v in (True, False):
            s = st.copy()
            try:
                s.assume(t.ult(255, dn, 32) if isinstance(dn, T) else int(dn > 255), v)
            except Infeasible:
                continue
            if v or L > 8160 or L < 0:
                res.append((s, M32))
                continue
            bytes_ = app("xmd", (rope(s, inp, n, 32), rope(s, dst, dn, 32), dn, L), L)
            for i, x in enumerate(bytes_):
                s.store(addp(buf, i), 1, x)
            res.append((s, 0))
        return res

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        st = exr.base.copy()
        n, dn, L = t.var("in_len", 32), t.var("dst_len", 32), t.var("buf_len", 32)
        for x in (n, dn):
            st.assume(t.slt(x, 0, 32), False)
        L64, n64, d64 = (t.zext(x, 32, 64) for x in (L, n, dn))
        buf = st.new(L64, "buf", "arg")
        inp, dst = bytestr.opaque(st, "in", n64), bytestr.opaque(st, "dst", d64)
        before = st.copy()
        r = self.go(exr, rep, fn, st, [buf, L, inp, n, dst, dn])
        if r is None:
            return
        okc = t.and_(t.not_(t.ult(8160, L, 32)), t.not_(t.ult(255, dn, 32)), 1)
        m, d = rope(st, inp, n64), rope(st, dst, d64)
        outputs(rep, self.name, before, r, buf, L64, okc, lambda k: xmd_blocks(m, n, d, t.trunc(dn, 32, 8), [t.trunc(t.lshr(L, 8, 32), 32, 8), t.trunc(L, 32, 8)], k))


reg(Xmd())
