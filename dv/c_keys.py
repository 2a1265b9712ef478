"""Key generation and derivation, over the contracts of HKDF / SHA-256 (C13), division (C15), encodings (C09) and groups (C06)."""
import time
from . import term as t, field as fl, ref, exec as ex, verify, props, smt, c_int, bytestr, grp
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import UNKNOWN
from .grp import G1, G2, PSIZE, SORT, NF, Lin, base, write_nf, read_coords, write_coords, as_point, pco
from .c_code import frame
from .c_exp import coef
from .c_pair import Over, Fn, B
from .c_div import remainder, put, words
from .c_group import CLS
from .c_hash import hmac, okm, app, bs, rope, addp
from .c_int import execute
from .c_sig import gen, elt, Sig, A4, U8V, U8S, Env, PublicKey
from .listloop import ListLoops
C = {}
R = ref.R
RW = [R >> (64 * i) & (1 << 64) - 1 for i in range(4)]
SALT = b"BLS-SIG-KEYGEN-SALT-"
NSEC = B + "secret_key(%s)" % U8S
NLSK = B + "ikm_to_lamport_sk(unsigned char*, unsigned char const*, unsigned long, unsigned char const*, unsigned long)"
NLPK = B + "parent_sk_to_lamport_pk(unsigned char*, %s const&, unsigned int)" % A4
NCHILD = B + "derive_child_sk(%s const&, unsigned int)" % A4
NCHILDU = B + "derive_child_sk_unhardened(%s const&, unsigned int)" % A4
NCG = {g: B + "derive_child_%s_unhardened(%s const&, unsigned int)" % (CLS[g], B + CLS[g]) for g in (G1, G2)}
NAGG = B + "aggregate_secret_keys(std::span<%s const, 18446744073709551615ul>)" % A4
NTO = B + "sk_to_bytes(%s const&)" % A4
NFROM = B + "sk_from_bytes(std::array<unsigned char, 32ul> const&, bool)"
CMPR = {g: B + CLS[g] + "::toCompressedBytesBE() const" for g in (G1, G2)}
OSALT = {g: 48 * (1 if g == G1 else 2) for g in (G1, G2)}


def reg(c):
    C[c.name] = c
    return c


def mod(ws):
    """ws mod r"""
    if all(isinstance(x, int) for x in ws):
        v = sum(x << (64 * i) for i, x in enumerate(ws)) % R
        return [v >> (64 * i) & (1 << 64) - 1 for i in range(4)]
    q, r = remainder(list(ws), RW)
    return list(r) + [0] * (4 - len(r))


def beword(bytes_):
    """big-endian bytes -> words, least significant first"""
    n = len(bytes_) // 8
    return [t.concat_bytes(list(reversed(bytes_[8 * (n - 1 - k):8 * (n - k)]))) for k in range(n)]


def bebytes(ws):
    """words -> big-endian bytes"""
    out = []
    for w in reversed(ws):
        for k in reversed(range(8)):
            out.append(w >> (8 * k) & 255 if isinstance(w, int) else t.trunc(t.lshr(w, 8 * k, 64), 64, 8))
    return out


def be32(i):
    return tuple(("b", x) for x in ([i >> (24 - 8 * k) & 255 for k in range(4)] if isinstance(i, int) else [t.trunc(t.lshr(i, 24 - 8 * k, 32), 32, 8) for k in range(4)]))


def keygen(salt, seed):
    """one round: OS2IP(HKDF(salt, seed || 0, 0x0030, 48)) mod r"""
    o = okm(bs(hmac(salt, seed + bs([0]))), bs([0, 48]), 48)
    return mod(beword(o))


def lamport_sk(ikm, salt):
    return okm(bs(hmac(salt, ikm)), (), 8160)


def lamport_pk(sk, index):
    ikm = bebytes(sk)
    inv = [x ^ 255 if isinstance(x, int) else t.xor(x, 255, 8) for x in ikm]
    out = []
    for k in (ikm, inv):
        l = lamport_sk(bs(k), be32(index))
        for j in range(255):
            out += app("sha", (bs(l[32 * j:32 * j + 32]),), 32)
    return app("sha", (bs(out),), 32)


def secret(rp, n):
    """the key generated from a seed of n >= 32 bytes: opaque function of the seed"""
    return list(_words("keygen", bytestr.key(rp)))


_w = {}


def _words(fn, key, n=4):
    k = (fn, key)
    if k not in _w:
        _w[k] = tuple(t.var("%s%d.%d" % (fn, len(_w), i), 64) for i in range(n))
    return _w[k]


_c = {}


def cbytes(g, n):
    """the compressed encoding of the point: opaque function of the group element"""
    k = (g, n.key())
    if k not in _c:
        _c[k] = len(_c)
    return [t.var("cmp%d[%d]" % (_c[k], i), 8) for i in range(OSALT[g])]


def sames(s, xs, ys, w=64):
    """-> True / False / None"""
    res = True
    for x, y in zip(xs, ys):
        if x is y or isinstance(x, int) and isinstance(y, int) and x == y:
            continue
        if not isinstance(x, (int, T)):
            return False
        if bytestr.differ(s, x, y) if w == 8 else False:
            return False
        ok = smt.valid(t.eq(x, y, w), s.pc)[0]
        if ok is not True:
            res = None if not (isinstance(x, int) and isinstance(y, int)) else False
            if ok is False and not opaque(x) and not opaque(y):
                return False
            if res is False:
                return False
    return res


def opaque(x):
    if isinstance(x, int):
        return False
    return x.op in ("dr", "dq") or x.op == "var" and not x.args[0].startswith(("sk", "in[", "index")) or any(opaque(a) for a in x.args if isinstance(a, T))


class Key(Contract):
    home = "C14"
    loops = None

    def over(self, exr, st):
        return {}

    def hook(self, exr, fn):
        return None

    def apply(self, exr, st, args, I):
        raise Unsupported("used only through the contract of its caller")

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
            return
        for case in self.cases():
            self.case, self.fn = case, fn
            fl.reset()
            bytestr.reset()
            _w.clear()
            _c.clear()
            st = exr.base.copy()
            st.ghost = dict(st.ghost)
            args, out = self.setup(exr, st)
            before = st.copy()
            ov = dict(bytestr.strings())
            env = Env(exr, rep)
            env.old = exr.contracts
            for k, f in env.contracts().items():
                if k.startswith(U8V):
                    ov[k] = f
            for g in (G1, G2):
                ov[CMPR[g]] = Fn(lambda s, a, g=g: self.compress(s, a, g))
            ov.update(self.over(exr, st))
            old = exr.loop_hook, exr.maxvisits
            exr.loop_hook, exr.maxvisits = self.hook(exr, fn), 100000
            try:
                with Over(exr, rep, ov):
                    res = execute(exr, rep, self.name, fn, st, args)
            finally:
                exr.loop_hook, exr.maxvisits = old
            if res is None:
                return
            tag0 = "%s " % case if case is not None else ""
            for k, (s, what) in enumerate(res[1]):
                if verify.consistent(s):
                    rep.add(self.name, tag0 + "exception%d: none is thrown" % k, UNKNOWN, "symexec", 0, str(what))
            n = 0
            for k, (s, rv) in enumerate(res[0]):
                if not verify.consistent(s):
                    continue
                n += 1
                tag = "%spath%d" % (tag0, k)
                frame(rep, self.name, before, s, {out.obj}, tag)
                try:
                    self.result(rep, s, out, tag)
                except Violation as e:
                    rep.add(self.name, tag + ": result", False, "symexec", 0, str(e))
                except Unsupported as e:
                    rep.add(self.name, tag + ": result", UNKNOWN, "symexec", 0, str(e))
            if not n:
                rep.add(self.name, tag0 + "some path returns", UNKNOWN, "symexec")

    def cases(self):
        return [None]

    def compress(self, s, a, g):
        n = as_point(s, g, read_coords(s, g, a[1]))
        if n is None:
            raise Unsupported("encoding of an unknown point")
        for i, x in enumerate(cbytes(g, n)):
            s.store(addp(a[0], i), 1, x)

    def words(self, rep, s, out, want, tag, what):
        got = words(s, out, len(want))
        ok = sames(s, got, want)
        rep.add(self.name, "%s: %s" % (tag, what), UNKNOWN if ok is None else ok, "ropes and bit-vectors", 0, "" if ok else "%s instead of %s" % (str(got)[:200], str(want)[:200]))

    def bytes(self, rep, s, out, want, tag, what):
        got = [s.load(addp(out, i), 1) for i in range(len(want))]
        ok = sames(s, got, want, 8)
        rep.add(self.name, "%s: %s" % (tag, what), UNKNOWN if ok is None else ok, "ropes and bit-vectors")

    def decide(self, rep, s, c, tag, what):
        ok, d = smt.valid(c, s.pc)
        rep.add(self.name, "%s: %s" % (tag, what), UNKNOWN if ok is None else ok, "z3 bit-vectors", 0, d)


def skwords(st, name="sk", below=False):
    p = st.new(32, name, "arg", ro=False)
    ws = [t.var("%s%d" % (name, i), 64) for i in range(4)]
    put(st, p, ws)
    st.mem[p.obj].ro = True
    if below:
        st.assume(less(ws), True)
    return p, ws


def less(ws):
    """value < r"""
    c = 0
    for w, b in zip(ws, RW):
        c = t.or_(t.ult(w, b, 64), t.and_(t.eq(w, b, 64), c, 1), 1)
    return c


class ToBytes(Key):
    """ensures: the 32 big-endian bytes of the key"""
    name = NTO

    def setup(self, exr, st):
        out = st.new(32, "ret", "arg")
        p, self.ws = skwords(st)
        return [out, p], out

    def result(self, rep, s, out, tag):
        self.bytes(rep, s, out, bebytes(self.ws), tag, "big-endian bytes")


class FromBytes(Key):
    """ensures: the big-endian value reduced modulo r; without reduction: the value, or 0 when it is not below r"""
    name = NFROM

    def setup(self, exr, st):
        out, p = st.new(32, "ret", "arg"), st.new(32, "in", "arg")
        self.b = [t.var("in[%d]" % i, 8) for i in range(32)]
        for i, x in enumerate(self.b):
            st.store(addp(p, i), 1, x)
        st.mem[p.obj].ro = True
        self.m = t.var("modOrder", 1)
        return [out, p, self.m], out

    def apply(self, exr, st, args, I):
        out, p, m = args
        if m != 1:
            raise Unsupported("conversion without reduction")
        put(st, out, mod(beword([s8(st, p, i) for i in range(32)])))
        return [(st, None)]

    def result(self, rep, s, out, tag):
        ws = beword(self.b)
        for m in (True, False):
            s2 = s.copy()
            try:
                s2.assume(self.m, m)
            except Infeasible:
                continue
            if m:
                self.words(rep, s2, out, mod(ws), tag, "value modulo r")
                continue
            for v in (True, False):
                s3 = s2.copy()
                try:
                    s3.assume(less(ws), v)
                except Infeasible:
                    continue
                if smt.valid(0, s3.pc)[0] is True:
                    continue
                self.words(rep, s3, out, ws if v else [0] * 4, tag, "the value" if v else "0 for values that are not below r")


def s8(st, p, i):
    return st.load(addp(p, i), 1)


class SecretKey(Key):
    """requires: seeds shorter than 2^60 bytes; memory is not exhausted.  ensures: 0 for seeds shorter than 32 bytes, otherwise
    the first non-zero SK_i = OS2IP(HKDF(salt_i, seed || 0, 0x0030, 48)) mod r with salt_0 = "BLS-SIG-KEYGEN-SALT-" and
    salt_(i+1) = SHA-256(salt_i)"""
    name = NSEC

    def setup(self, exr, st):
        out, n = st.new(32, "ret", "arg"), t.var("n", 64)
        self.p, self.n = bytestr.opaque(st, "seed", n), n
        return [out, self.p, n], out

    def apply(self, exr, st, args, I):
        out, p, n = args
        if smt.valid(t.ult(n, 32, 64), st.pc)[0] is True:
            put(st, out, [0] * 4)
        elif smt.valid(t.not_(t.ult(n, 32, 64)), st.pc)[0] is True:
            put(st, out, secret(rope(st, p, n), n))
        else:
            raise Unsupported("length of the seed")
        return [(st, None)]

    def hook(self, exr, fn):
        """the retry loop: one pass with the first salt, one with an arbitrary 32-byte salt"""
        self.first = None
        self.saltvars = [t.var("salt[%d]" % i, 8) for i in range(32)]

        def h(f, st, env, blk, isback):
            if f.name != fn:
                return None
            if not isback:
                if st.ghost.get("retry"):
                    raise Unsupported("nested loops")
                st.ghost = dict(st.ghost)
                st.ghost["entry"] = st.copy()
                return None
            if st.ghost.get("retry"):
                self.check(st)
                return []
            e = st.ghost.get("entry")
            if e is None:
                raise Unsupported("loop")
            s = st.copy()
            s.ghost = dict(s.ghost)
            obj = self.salt(s, app("sha", (bs(SALT),), 32))
            s.ghost["retry"] = (obj, s.copy())
            for i, x in enumerate(self.saltvars):
                s.store(Ptr(obj[0], obj[1] + i), 1, x)
            kept = {}
            for oid, o in list(s.mem.items()):
                o0 = e.mem.get(oid)
                if o0 is None or o0 is o or o.kind == "opaque":
                    continue
                for k in set(o.cells) | set(o0.cells):
                    if o.cells.get(k) == o0.cells.get(k) or oid == obj[0] and obj[1] <= k < obj[1] + 32:
                        continue
                    c = o.cells.get(k)
                    if c is None:
                        raise Unsupported("loop state")
                    if isinstance(c[1], (int, Ptr)):
                        kept[oid, k] = c
                    elif isinstance(c[1], T):
                        s.wobj(Ptr(oid, 0)).cells[k] = (c[0], t.var("scratch.%s.%d" % (oid, k), 8 * c[0]))
            s.ghost["kept"] = kept
            return [(s, dict(env))]
        return h

    def salt(self, s, want):
        names = {x: i for i, x in enumerate(want)}
        hits = [(oid, k) for oid, o in s.mem.items() if o.alive for k, c in o.cells.items() if c[0] == 1 and c[1] is want[0]]
        hits = [h for h in hits if all(s.mem[h[0]].cells.get(h[1] + i, (0, None))[1] is want[i] for i in range(32))]
        if len(hits) != 1:
            raise Unsupported("the new salt is not found")
        return hits[0]

    def check(self, s):
        obj, s0 = s.ghost["retry"]
        h2 = self.salt(s, app("sha", (bs(self.saltvars),), 32))
        if h2 != obj:
            raise Unsupported("place of the salt")
        for (oid, k), c in s.ghost["kept"].items():
            c2 = s.mem[oid].cells.get(k)
            if c2 != c:
                raise Unsupported("loop state changes")

    def result(self, rep, s, out, tag):
        short = t.ult(self.n, 32, 64)
        if smt.valid(short, s.pc)[0] is True:
            self.words(rep, s, out, [0] * 4, tag, "0 for a seed of less than 32 bytes")
            return
        self.decide(rep, s, t.not_(short), tag, "no key from a seed of less than 32 bytes")
        rt = s.ghost.get("retry")
        want = keygen(bs(self.saltvars) if rt else bs(SALT), rope(s, self.p, self.n))
        got = words(s, out, 4)
        ok = sames(s, got, want)
        if ok is None and bytestr.differ(s, origin(got), origin(want)):
            ok = False
        rep.add(self.name, "%s: key of the %s" % (tag, "rehashed salt" if rt else "first salt"), UNKNOWN if ok is None else ok, "ropes and bit-vectors", 0, "" if ok else "%s" % str(got)[:300])
        nz = 0
        for w in want:
            nz = t.or_(nz, t.not_(t.eq(w, 0, 64)), 1)
        self.decide(rep, s, nz, tag, "the key is not zero")


def origin(ws):
    """a byte term inside the dividend"""
    for w in ws:
        if isinstance(w, T):
            stk = [w]
            while stk:
                x = stk.pop()
                if x.op == "var" and x.w == 8:
                    return x
                stk += [a for a in x.args if isinstance(a, T)]
    return 0


class LamportSk(Key):
    """ensures: the 8160 bytes of HKDF(salt, ikm, "", 8160)"""
    name = NLSK

    def setup(self, exr, st):
        n, sn = t.var("ikm_len", 64), t.var("salt_len", 64)
        out, self.ikm, self.salt = st.new(8160, "out", "arg"), bytestr.opaque(st, "ikm", n), bytestr.opaque(st, "salt", sn)
        self.n, self.sn = n, sn
        return [out, self.ikm, n, self.salt, sn], out

    def apply(self, exr, st, args, I):
        out, ikm, n, salt, sn = args
        for i, x in enumerate(lamport_sk(rope(st, ikm, n), rope(st, salt, sn))):
            st.store(addp(out, i), 1, x)
        return [(st, None)]

    def result(self, rep, s, out, tag):
        self.bytes(rep, s, out, lamport_sk(rope(s, self.ikm, self.n), rope(s, self.salt, self.sn)), tag, "expanded key material")


class LamportPk(Key):
    """ensures: SHA-256 over the hashes of the 255 blocks of lamport_sk(key, index) and of lamport_sk(not key, index)"""
    name = NLPK

    def setup(self, exr, st):
        out = st.new(32, "out", "arg")
        p, self.ws = skwords(st)
        self.i = t.var("index", 32)
        return [out, p, self.i], out

    def apply(self, exr, st, args, I):
        out, p, i = args
        k = app("lamportpk", (bs(bebytes(words(st, p, 4))), be32(i)), 32)
        for j, x in enumerate(k):
            st.store(addp(out, j), 1, x)
        return [(st, None)]

    def result(self, rep, s, out, tag):
        want = lamport_pk(self.ws, self.i)
        got = [s.load(addp(out, i), 1) for i in range(32)]
        ok = sames(s, got, want, 8)
        if ok is None and isinstance(got[0], T) and bytestr.differ(s, got[0], want[0]):
            ok = False
        rep.add(self.name, "%s: compressed Lamport key" % tag, UNKNOWN if ok is None else ok, "ropes and bit-vectors")


class Child(Key):
    """ensures: the key generated from the compressed Lamport key of (parent, index)"""
    name = NCHILD

    def setup(self, exr, st):
        out = st.new(32, "ret", "arg")
        p, self.ws = skwords(st)
        self.i = t.var("index", 32)
        return [out, p, self.i], out

    def result(self, rep, s, out, tag):
        k = app("lamportpk", (bs(bebytes(self.ws)), be32(self.i)), 32)
        self.words(rep, s, out, secret(bs(k), 32), tag, "key generated from the Lamport key")


def noncebytes(g, n, i):
    return app("sha", (bs(cbytes(g, n)) + be32(i),), 32)


def sumwords(ks):
    """the sum of the keys modulo r: opaque function of the list (defined by the loop of aggregate_secret_keys)"""
    return list(_words("keysum", tuple(tuple(x.id if isinstance(x, T) else ("c", x) for x in k) for k in ks)))


class ChildU(Key):
    """requires: parent < r.  ensures: (parent + OS2IP(SHA-256(compressed public key || index))) mod r"""
    name = NCHILDU

    def setup(self, exr, st):
        out = st.new(32, "ret", "arg")
        p, self.ws = skwords(st, below=True)
        self.i, self.p = t.var("index", 32), p
        return [out, p, self.i], out

    def result(self, rep, s, out, tag):
        pk = gen(G1)[1].scale(coef(s, self.p))
        nonce = mod(beword(list(noncebytes(G1, pk, self.i))))
        self.words(rep, s, out, sumwords([self.ws, nonce]), tag, "sum of the parent and the nonce")


class ChildG(Key):
    """requires: pk on the curve.  ensures: pk + (OS2IP(SHA-256(compressed pk || index)) mod r) * generator"""

    def __init__(self, g):
        self.g, self.name = g, NCG[g]

    def setup(self, exr, st):
        out, p = st.new(PSIZE[self.g], "ret", "arg"), st.new(PSIZE[self.g], "pk", "arg")
        self.b = base(self.g, "pk")
        write_coords(st, self.g, p, tuple(pco(self.b, i) for i in range(3)))
        st.mem[p.obj].ro = True
        self.i = t.var("index", 32)
        return [out, p, self.i], out

    def result(self, rep, s, out, tag):
        n = grp.nfof(self.b)
        nonce = mod(beword(list(noncebytes(self.g, n, self.i))))
        want = n + gen(self.g)[1].scale(Lin(0, {mk("zwords", tuple(nonce), 1): 1}))
        got = as_point(s, self.g, read_coords(s, self.g, out, "result"))
        if got is None:
            raise Unsupported("representation of the result")
        ok = grp.geq(s, got, want)
        if not ok:
            # a definite difference: another combination, or a nonce of another string
            d = got - want
            ks = [k for k in d.d if k[0] is self.b]
            x = [c.args for v in got.d.values() if isinstance(v, Lin) for c in v.d if c.op == "zwords"]
            if not ks and len(x) == 1 and not bytestr.differ(s, origin(x[0]), origin(nonce)):
                ok = None
        rep.add(self.name, tag + ": parent plus nonce times the generator", UNKNOWN if ok is None else bool(ok), "group normal form", 0, "" if ok else repr(got)[:200])


class AggSk(Key):
    """requires: fewer than 2^50 keys, each below r.  ensures: their sum modulo r; 0 for the empty list"""
    name = NAGG
    SPAN = "std::span<%s const, 18446744073709551615ul>" % A4

    def apply(self, exr, st, args, I):
        out, p, n = args
        if not isinstance(n, int) or n < 1 or n > 64:
            raise Unsupported("length of the list of keys")
        ks = [words(st, addp(p, 32 * i), 4) for i in range(n)]
        for k in ks:
            ok = smt.valid(less(k), st.pc)[0] is True or isred(k)
            if not ok:
                raise Violation("precondition of aggregate_secret_keys: a key may be above the order", st)
        put(st, out, sumwords(ks))
        return [(st, None)]

    def setup(self, exr, st):
        out, n = st.new(32, "ret", "arg"), t.var("n", 64)
        st.assume(t.ult(n, 1 << 50, 64), True)
        self.n, self.out = n, out
        self.p = st.new(None, "sks", "arg")
        return [out, self.p, n], out

    def over(self, exr, st):
        d = {self.SPAN + "::operator[](unsigned long) const": Fn(lambda s, a: self.at(s, a)),
             "__gnu_cxx::__normal_iterator<%s const*, %s>::operator*() const" % (A4, self.SPAN): Fn(lambda s, a: self.deref(s, a))}
        self.touch = set(d)
        self.L = ListLoops(exr, self.fn, self.touch, {self.p.obj: (self.n, 32)}, self)
        return d

    def hook(self, exr, fn):
        return self.L.hook

    def at(self, s, a):
        d = s.load(a[0], 8)
        if d != self.p:
            raise Unsupported("element of another span")
        return self.el(s, a[1] * 32 if isinstance(a[1], int) else t.mul(a[1], 32, 64))

    def deref(self, s, a):
        d = s.load(a[0], 8)
        if not isinstance(d, Ptr) or d.obj != self.p.obj:
            raise Unsupported("iterator of another container")
        return self.el(s, d.off)

    def el(self, s, off):
        i = self.L.index(s, self.p.obj, off)
        self.L.inrange(s, self.p.obj, i)
        nm = "sks" + self.L.name(i)
        q = s.ghost.get(("el", nm))
        if q is None:
            q, ws = skwords(s, nm, True)
            s.ghost = dict(s.ghost)
            s.ghost["el", nm] = q
        return q

    # list loop: the accumulators are four-word objects, below r before every iteration
    def accumulators(self, st):
        return {oid for oid, o in st.mem.items() if o.alive and o.size == 32 and not o.ro and self.get(st, oid) == [0] * 4}

    def get(self, st, oid):
        o = st.mem[oid]
        if any(k not in (0, 8, 16, 24) or c[0] != 8 for k, c in o.cells.items()) or len(o.cells) != 4:
            return None
        return [o.cells[k][1] for k in (0, 8, 16, 24)]

    def header(self, st, J, jn):
        self.acc = self.accumulators(st) or getattr(self, "acc", set())
        for oid in self.acc:
            ws = [t.var("acc.%s.%d" % (oid, i), 64) for i in range(4)]
            put(st, Ptr(oid, 0), ws)
            st.assume(less(ws), True)

    def step(self, s0, s2, J, jn):
        out = []
        k = [t.var("sks%s%d" % (jn, i), 64) for i in range(4)]
        for oid in sorted(self.acc):
            a, b = self.get(s0, oid), self.get(s2, oid)
            if b is None:
                raise Unsupported("accumulator")
            if a == b:
                out.append((oid, "same"))
                continue
            A = reduced(b)
            if A is None:
                out.append((oid, "other"))
                continue
            c = 0
            W = (len(A) + 1) * 64
            val = lambda ws: t.concat(list(ws) + [0] * (len(A) + 1 - len(ws))) if False else wide(ws, W)
            goal = t.eq(wide(A, W), t.add(wide(a, W), wide(k, W), W), W)
            ok, d = smt.valid(goal, s2.pc)
            if ok is True:
                out.append((oid, "sum"))
            elif ok is False:
                # may be a scratch variable: only the result counts
                out.append((oid, "wrong: " + d[:150]))
            else:
                raise Unsupported("sum of the accumulator and the key")
        return tuple(out)

    def after(self, st, deltas, n, J, jn):
        self.wrong = {}
        if len(deltas) != 1:
            raise Unsupported("iterations differ")
        for oid, k in deltas.pop():
            if k == "sum":
                ws = [t.var("KEYSUM%d" % i, 64) for i in range(4)]
            else:
                ws = [t.var("after.%s.%d" % (oid, i), 64) for i in range(4)]
                self.wrong[oid] = k
            put(st, Ptr(oid, 0), ws)

    def result(self, rep, s, out, tag):
        got = words(s, out, 4)
        if smt.valid(t.eq(self.n, 0, 64), s.pc)[0] is True:
            self.words(rep, s, out, [0] * 4, tag, "0 for the empty list")
            return
        ok = all(isinstance(x, T) and x is t.var("KEYSUM%d" % i, 64) for i, x in enumerate(got))
        d = ""
        if not ok:
            ok = UNKNOWN
            for oid, k in getattr(self, "wrong", {}).items():
                if k.startswith("wrong") and all(x is t.var("after.%s.%d" % (oid, i), 64) for i, x in enumerate(got)):
                    ok, d = False, k
        rep.add(self.name, tag + ": the sum of the keys modulo r", ok, "induction over the list, z3 bit-vectors", 0, d)


def wide(ws, W):
    bs_ = []
    for w in ws:
        bs_ += [w >> (8 * i) & 255 if isinstance(w, int) else t.trunc(t.lshr(w, 8 * i, 64), 64, 8) for i in range(8)]
    bs_ += [0] * (W // 8 - len(bs_))
    return t.concat_bytes(bs_)


def reduced(ws):
    """the dividend when ws is a remainder modulo r"""
    x = ws[0]
    if not isinstance(x, T) or x.op not in ("dr",):
        return None
    i, n = x.args[:2]
    A = list(x.args[2:2 + n])
    return A if list(mod(A)) == list(ws) else None


def isred(ws):
    return reduced(ws) is not None


for c in (ToBytes(), FromBytes(), SecretKey(), LamportSk(), LamportPk(), Child(), ChildU(), ChildG(G1), ChildG(G2), AggSk()):
    reg(c)


def lemmas(_e, rep):
    nm = "keys"

    def ok(what, v, by="integers"):
        rep.add(nm, what, True if v else False, by)
    fl.reset()
    ok("the generators have order r", all(E.mul(g, R) is None for E, g in ((ref.E1, ref.G1), (ref.E2, ref.G2))), "computation")
    a, b = (Lin(0, {mk("zwords", tuple(t.var("%s%d" % (q, i), 64) for i in range(4)), 1): 1}) for q in "ab")
    for g in (G1, G2):
        G = gen(g)[1]
        ok("%s: the key of a sum is the sum of the keys (multiples of r vanish)" % CLS[g], G.scale(grp.ladd(a, b)) == G.scale(a) + G.scale(b), "group normal form")
    ok("the sum of two reduced keys fits in four words", 2 * (R - 1) < 1 << 256)
    ok("48 bytes are enough for the bias bound of KeyGen (ceil(3 ceil(log2 r) / 16))", -(-3 * R.bit_length() // 16) == 48)


props.extra("C14", "consistency of derived keys")(lemmas)
