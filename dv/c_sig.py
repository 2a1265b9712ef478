"""Signatures: signing, the verification predicates and aggregation, over the contracts of C05-C11.

Public keys and signatures are arbitrary coordinates; the group element they stand for is a base of the normal form.
Atoms: oc(P) the curve equation, sub(P) membership as decided by inCorrectSubgroup (C07), H(tag, message) the hash to G2
(C10), PP(form) "the product of the pairings is one" (C11) for a bilinear form in canonical shape."""
import time
from . import term as t, field as fl, ref, exec as ex, verify, props, smt, c_int, bytestr, ir, grp
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import prove_eq, prove_bool, UNKNOWN
from .field import fneg, one, zero, S1, S2, S12
from .grp import G1, G2, PSIZE, SORT, NF, Lin, base, write_nf, read_coords, write_coords, as_point, nfterm, lmul, ladd, lift, pco
from .c_code import run, frame
from .c_exp import coef
from .c_pair import Over, Fn, B, PR, TUP, VTUP, SPAN, FUN, NCALC, NADDP, val, meaning, isconst12, VAL
from .c_group import CLS, oncurve_spec
from .c_int import execute
from .listloop import ListLoops
C = {}
STR = bytestr.STR
U8V = "std::vector<unsigned char, std::allocator<unsigned char>>"
U8S = "std::span<unsigned char const, 18446744073709551615ul>"
GS = {g: "std::span<bls12_381::%s const, 18446744073709551615ul>" % CLS[g] for g in (G1, G2)}
MS = "std::span<%s const, 18446744073709551615ul>" % U8V
SET = "std::set<%s, std::less<%s>, std::allocator<%s>>" % (U8V, U8V, U8V)
A4 = "std::array<unsigned long, 4ul>"
NFM = B + "fromMessage(%s, %s const&)" % (U8S, STR)
ONE = {g: B + CLS[g] + "::one()" for g in (G1, G2)}
CIPHER = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"
POP = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"
MAXMSG = 0x7fffffff


def reg(c):
    C[c.name] = c
    return c


GENC = {}


def gen(g):
    """the standard generator"""
    x, y = grp.GEN[g][:2]
    c = (fl.fconst(x, SORT[g]), fl.fconst(y, SORT[g]), one(SORT[g]))
    k = min((c[0].args[0], c[1].args[0]), (c[0].args[0], fneg(c[1]).args[0]))
    n = NF(g, {(base(g, ("const", k)), 0): 1})
    return c, n if k[1] == c[1].args[0] else n.scale(-1)


def isgen(b):
    if b.op != "pbase" or not (isinstance(b.args[0], tuple) and b.args[0][0] == "const"):
        return False
    g = b.args[1]
    n = gen(g)[1]
    return any(k[0] is b for k in n.d)


class One(Contract):
    """ensures: the standard generator, affine"""
    home = "C12"

    def __init__(self, g):
        self.g, self.name = g, ONE[g]

    def apply(self, exr, st, args, I):
        write_coords(st, self.g, args[0], gen(self.g)[0])
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
            return
        fl.reset()
        st = exr.base.copy()
        out = st.new(PSIZE[self.g], "ret", "arg")
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out]) or []):
            frame(rep, self.name, before, s, {out.obj}, "path%d" % k)
            got = read_coords(s, self.g, out, "result")
            for a, b, nm in zip(got, gen(self.g)[0], "xyz"):
                rep.add(self.name, "coordinate %s of the standard generator" % nm, a is b, "term identity", 0, "%r" % a)


for g in (G1, G2):
    reg(One(g))


# ---- elements ------------------------------------------------------------------------------------

def elt(st, g, p):
    """the group element of arbitrary coordinates"""
    c = read_coords(st, g, p)
    n = as_point(st, g, c)
    if n is None:
        b = mk("pxyz", tuple(c), 0)
        grp._nf[b] = NF(g, {(b, 0): 1})
        n = grp._nf[b]
    return n


def sub(n):
    """membership: what inCorrectSubgroup decides"""
    if all(b.op == "pbase" and (isgen(b) or isinstance(b.args[0], tuple) and b.args[0][0] == "hash") for b, e in n.d):
        return 1
    m = n.scale(-1)
    return mk("insubc", (nfterm(min(n, m, key=lambda q: repr(q.key()))),), 1)


def oc(st, g, p):
    c = read_coords(st, g, p)
    n = as_point(st, g, c)
    return 1 if n is not None else oncurve_spec(g)(c)


def form(pairs):
    """the bilinear form sum of (e1, e2), canonical: sorted entries with a positive leading coefficient"""
    d = {}
    for p, q in pairs:
        for k1, v1 in p.d.items():
            for k2, v2 in q.d.items():
                k = (k1, k2)
                w = lmul(v1, v2)
                d[k] = ladd(d[k], w) if k in d else w
    d = {k: v for k, v in d.items() if not (isinstance(v, int) and v == 0)}

    def key(sg):
        return tuple(sorted((k[0][0].id, k[0][1], k[1][0].id, k[1][1], lmul(v, sg) if isinstance(v, int) else lift(lmul(v, sg)).key()) for k, v in d.items()))
    return min(key(1), key(-1), key=repr)


def PP(pairs, marks=()):
    k = form(pairs)
    if not k and not marks:
        return 1
    return mk("ppone", (k, tuple(sorted(marks, key=repr))), 1)


# ---- texts ---------------------------------------------------------------------------------------

def texts(exr):
    """text of the std::string constants, from their initialisers"""
    out = {}
    mod = exr.mod
    for fn, f in mod.funcs.items():
        if not fn.startswith("__cxx_global_var_init") and "_GLOBAL__" not in fn:
            continue
        f.parse()
        for b in f.blocks.values():
            for I in b:
                if I[0] not in ("call", "invoke"):
                    continue
                flat = list(flatten(I))
                gs = [x for x in flat if getattr(x, "name", None) in mod.globals]
                ctor = [x for x in flat if getattr(x, "name", None) in mod.dem and "basic_string<char" in mod.dem[x.name] and "::basic_string" in mod.dem[x.name]]
                if ctor and len(gs) == 2:
                    ty, init, const = mod.globals[gs[1].name]
                    if init is not None and const:
                        v = bytes(x & 255 for x in init)
                        if v[-1:] == b"\0" and gs[1].off == 0:
                            out["g:" + gs[0].name] = v[:v.index(0)].decode("latin1")
    return out


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    else:
        yield x


class Env:
    """contracts of the callees while a signature function is verified"""

    def __init__(self, exr, rep):
        self.exr, self.rep = exr, rep
        self.texts = texts(exr)
        self.lists = {}        # object -> (kind, n)
        self.loops = None

    # -- arguments
    def point(self, st, g, name, onc=False):
        p = st.new(PSIZE[g], name, "arg", ro=True)
        c = tuple(pco(base(g, name), i) for i in range(3)) if onc else tuple(fl.fvar(name + "." + k, SORT[g]) for k in "xyz")
        self.fill(st, p, lambda: write_coords(st, g, p, c))
        return p

    def fill(self, st, p, f):
        o = st.wobj(p) if not st.mem[p.obj].ro else st.mem[p.obj]
        ro, o.ro = o.ro, False
        f()
        st.mem[p.obj].ro = ro

    def plist(self, st, g, name, n, onc=False):
        p = st.new(None, name, "arg")
        self.lists[p.obj] = (g, name, n, onc)
        return p

    def element(self, st, p):
        """pointer to element i of a list -> pointer to an object with its content"""
        kind, name, n, onc = self.lists[p.obj]
        L = self.loops
        i = L.index(st, p.obj, p.off)
        L.inrange(st, p.obj, i)
        nm = name + L.name(i)
        key = ("el", nm)
        q = st.ghost.get(key)
        if q is None:
            if kind == "item":
                q = st.new(16, nm, "arg", ro=True)
            elif kind in (G1, G2):
                q = self.point(st, kind, nm, onc)
            else:
                ln = t.var(nm + ".size", 64)
                d = bytestr.opaque(st, nm, ln)
                st.assume(t.ult(ln, MAXMSG + 1, 64))
                q = st.new(24, nm, "arg")
                for k, v in ((0, d), (8, Ptr(d.obj, ln)), (16, Ptr(d.obj, ln))):
                    st.store(Ptr(q.obj, k), 8, v)
                st.mem[q.obj].ro = True
            st.ghost = dict(st.ghost)
            st.ghost[key] = q
        return q

    def at(self, st, a):
        """span element access"""
        d = st.load(a[0], 8)
        if not isinstance(d, Ptr) or d.obj not in self.lists:
            raise Unsupported("element of another span")
        i = a[1]
        if isinstance(i, T) and i.w < 64:
            i = t.zext(i, i.w, 64)
        off = i * self.stride(d.obj) if isinstance(i, int) else t.mul(i, self.stride(d.obj), 64)
        return self.element(st, Ptr(d.obj, off))

    def stride(self, obj):
        k = self.lists[obj][0]
        return PSIZE[k] if k in (G1, G2) else 16 if k == "item" else 24

    def deref(self, st, a):
        d = st.load(a[0], 8)
        if not isinstance(d, Ptr) or d.obj not in self.lists:
            raise Unsupported("iterator of another container")
        return self.element(st, d)

    # -- ghost
    def gh(self, st, k, v):
        st.ghost = dict(st.ghost)
        st.ghost[k] = v

    def tag(self, p):
        if not isinstance(p, Ptr) or p.off != 0 or p.obj not in self.texts:
            raise Unsupported("domain separation tag")
        return self.texts[p.obj]

    def hash(self, st, a):
        out, mp, mn, sp = a
        r = bytestr.rope(st, mp, mn)
        big = t.ult(MAXMSG, mn, 64)
        if smt.valid(t.not_(big), st.pc)[0] is not True:
            raise Unsupported("message longer than 2^31 - 1 bytes")
        write_nf(st, G2, out, H(self.tag(sp), r))

    def negate(self, g):
        def f(st, a):
            n = elt(st, g, a[1])
            if as_point(st, g, read_coords(st, g, a[1])) is None:
                write_nf(st, g, a[0], n.scale(-1))
                return
            return self.exr_real(B + CLS[g] + "::negate() const", st, a)
        return f

    def exr_real(self, name, st, a):
        return self.old[name].apply(self.exr, st, a, None)

    def addpair(self, st, a):
        v = a[0].obj
        d = dict(st.ghost.get("pairs", {}))
        if a[0].off != 0 or v not in d:
            raise Unsupported("list of pairs")
        d[v] = d[v] + ((elt(st, G1, a[1]), elt(st, G2, a[2])),)
        self.gh(st, "pairs", d)

    def newpairs(self, st, a):
        d = dict(st.ghost.get("pairs", {}))
        d[a[0].obj] = ()
        self.gh(st, "pairs", d)

    def pspan(self, st, a):
        """std::span over the whole vector of pairs"""
        if not isinstance(a[1], Ptr) or a[1].off != 0 or a[1].obj not in st.ghost.get("pairs", {}):
            raise Unsupported("span over another list")
        st.store(a[0], 8, Ptr("pairsof:" + a[1].obj, 0))
        st.store(Ptr(a[0].obj, ex.addoff(a[0].off, 8)), 8, self.npairs(st, a[1].obj))

    def npairs(self, st, obj):
        return t.var("npairs.%s" % obj, 64)

    def calculate(self, st, a):
        if not isinstance(a[1], Ptr) or not a[1].obj.startswith("pairsof:") or a[1].off != 0:
            raise Unsupported("pairing of another list")
        v = a[1].obj[8:]
        if a[2] is not self.npairs(st, v):
            raise Unsupported("pairing of a part of the list")
        it = st.ghost["pairs"][v]
        ex.write_el(st, a[0], val(("pp", tuple(x for x in it if x[0] != "all"), tuple(x for x in it if x[0] == "all"))))

    def eq12(self, st, a):
        vs = [ex.read_el(st, x, S12) for x in a[:2]]
        for x, y in (vs, vs[::-1]):
            if isconst12(x):
                m = meaning(y)
                if m is not None:
                    return PP(m[1], m[2])
        return self.exr_real(B + "fp12::equal(%sfp12 const&) const" % B, st, a)[0][1]

    def isone12(self, st, a):
        m = meaning(ex.read_el(st, a[0], S12))
        if m is None:
            raise Unsupported("comparison with one")
        return PP(m[1], m[2])

    def ser(self, st, a):
        """toAffineBytesLE: 96 bytes that depend on the point only"""
        if a[2] & 1 != 1 if isinstance(a[2], int) else True:
            raise Violation("the proof of possession is not over the standard encoding of the key", st)
        n = elt(st, G1, a[1])
        for i, b in enumerate(serbytes(n)):
            st.store(Ptr(a[0].obj, ex.addoff(a[0].off, i)), 1, b)

    def bytesvec(self, st, a):
        """std::vector<uint8_t>(first, last)"""
        f, l = a[1], a[2]
        if not isinstance(f, Ptr) or not isinstance(l, Ptr) or f.obj != l.obj:
            raise Unsupported("range of bytes")
        n = l.off - f.off if isinstance(l.off, int) and isinstance(f.off, int) else t.sub(l.off, f.off, 64)
        if isinstance(n, int):
            if n < 0:
                raise Violation("range of negative length", st)
            d = st.new(max(n, 1), "vec", "arg")
            for i in range(n):
                st.store(Ptr(d.obj, i), 1, bytestr.byteat(st, f, i))
            e = Ptr(d.obj, n)
        elif st.obj(f).kind == "opaque":
            bytestr.rope(st, f, n)
            d, e = f, l
        else:
            raise Unsupported("range of bytes")
        for k, v in ((0, d), (8, e), (16, e)):
            st.store(Ptr(a[0].obj, ex.addoff(a[0].off, k)), 8, v)

    def content(self, st, p):
        b, e = st.load(p, 8), st.load(Ptr(p.obj, ex.addoff(p.off, 8)), 8)
        if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj != e.obj:
            raise Unsupported("content of a vector")
        n = e.off - b.off if isinstance(e.off, int) and isinstance(b.off, int) else t.sub(e.off, b.off, 64)
        return bytestr.rope(st, b, n)

    def newset(self, st, a):
        d = dict(st.ghost.get("sets", {}))
        d[a[0].obj] = ()
        self.gh(st, "sets", d)

    def insert(self, st, a):
        # returns pair<iterator, bool> in registers
        d = dict(st.ghost.get("sets", {}))
        if a[0].off != 0 or a[0].obj not in d:
            raise Unsupported("set of messages")
        d[a[0].obj] = d[a[0].obj] + (("in", bytestr.key(self.content(st, a[1]))),)
        self.gh(st, "sets", d)
        return (t.var("it", 64), t.var("isnew%d" % len(d[a[0].obj]), 8))

    def setsize(self, st, a):
        it = st.ghost.get("sets", {}).get(a[0].obj)
        if it is None or len(it) != 1 or it[0][0] != "all":
            if it == ():
                return 0
            raise Unsupported("size of the set of messages")
        m = it[0][2]
        r = []
        for v in (True, False):
            s = st.copy()
            try:
                s.assume(t.var("DISTINCT", 1), v)
                D = m if v else t.var("D", 64)
                if not v:
                    s.assume(t.ult(D, m, 64), True)
            except Infeasible:
                continue
            r.append((s, D))
        return r

    def contracts(self):
        nop = lambda s, a: None
        d = {NFM: self.hash, NADDP: self.addpair, VTUP + "::vector()": self.newpairs, VTUP + "::~vector()": nop,
             NCALC: self.calculate, FUN + "::function()": nop, FUN + "::~function()": nop, FUN + "::function(%s const&)" % FUN: nop, FUN + "::function(%s&&)" % FUN: nop,
             FUN + "::function(std::nullptr_t)": nop, FUN + "::function(decltype(nullptr))": nop,
             B + "fp12::equal(%sfp12 const&) const" % B: self.eq12, B + "fp12::isOne() const": self.isone12,
             B + "g1::toAffineBytesLE(%sfrom_mont) const" % B: self.ser,
             U8V + "::~vector()": nop, SET + "::set()": self.newset, SET + "::~set()": nop, SET + "::size() const": self.setsize,
             SET + "::insert(%s&&)" % U8V: self.insert, SET + "::insert(%s const&)" % U8V: self.insert,
             U8V + "::vector(%s const&)" % U8V: lambda s, a: self.copyvec(s, a), U8V + "::vector(%s&&)" % U8V: lambda s, a: self.copyvec(s, a)}
        for g in (G1, G2):
            c = B + CLS[g]
            d[c + "::negate() const"] = self.negate(g)
            d[c + "::inCorrectSubgroup() const"] = lambda s, a, g=g: sub(elt(s, g, a[0]))
            d[GS[g] + "::operator[](unsigned long) const"] = self.at
            d["__gnu_cxx::__normal_iterator<bls12_381::%s const*, %s>::operator*() const" % (CLS[g], GS[g])] = self.deref
        d["std::span<dv_item, 18446744073709551615ul>::operator[](unsigned long) const"] = self.at
        d["__gnu_cxx::__normal_iterator<dv_item*, std::span<dv_item, 18446744073709551615ul>>::operator*() const"] = self.deref
        d[MS + "::operator[](unsigned long) const"] = self.at
        d["__gnu_cxx::__normal_iterator<%s const*, %s>::operator*() const" % (U8V, MS)] = self.deref
        for nm in self.exr.mod.dem.values():
            if nm.startswith(U8V + "::vector<") and "(" in nm and nm.count("unsigned char") and not nm.startswith(U8V + "::vector(") and ("void>(unsigned char*, unsigned char*" in nm or "void>(unsigned char const*, unsigned char const*" in nm or "void>(__gnu_cxx::__normal_iterator<unsigned char" in nm):
                d[nm] = self.bytesvec
            if nm.startswith(SPAN + "::span<") and "std::vector<%s" % TUP in nm:
                d[nm] = self.pspan
        self.touch = {k for k in d if k.endswith("::operator*() const") or k.endswith("::operator[](unsigned long) const")}
        return {k: Fn(v) for k, v in d.items()}

    def copyvec(self, st, a):
        for k in (0, 8, 16):
            st.store(Ptr(a[0].obj, ex.addoff(a[0].off, k)), 8, st.load(Ptr(a[1].obj, ex.addoff(a[1].off, k)), 8))

    def lengths(self):
        return {o: (v[2], self.stride(o)) for o, v in self.lists.items()}


def H(tag, rope):
    return NF(G2, {(_hashbase(tag, bytestr.key(rope)), 0): 1})


def _hashbase(tag, key):
    return base(G2, ("hash", tag, key))


_ser = {}


def serbytes(n):
    k = n.key()
    if k not in _ser:
        _ser[k] = len(_ser)
    return [t.var("ser%d[%d]" % (_ser[k], i), 8) for i in range(96)]


class Sig(Contract):
    """contract of one signature function: .setup(env, st) -> (args, out object or None); .check(...)"""
    home = "C12"

    def start(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
        return fn

    def more(self, env):
        return {}

    def client(self, env):
        return None

    def apply(self, exr, st, args, I):
        raise Unsupported("used only through the contract of its caller")

    def verify(self, exr, rep):
        fn = self.start(exr, rep)
        if fn is None:
            return
        fl.reset()
        bytestr.reset()
        VAL.clear()
        _ser.clear()
        env = Env(exr, rep)
        env.old = exr.contracts
        st = exr.base.copy()
        st.ghost = dict(st.ghost)
        args, out = self.setup(env, st)
        before = st.copy()
        ov = env.contracts()
        ov.update(self.more(env))
        env.loops = ListLoops(exr, getattr(self, "loopfn", lambda e, f: f)(exr, fn), env.touch, env.lengths(), self.client(env))
        with Over(exr, rep, ov):
            old = getattr(exr, "loop_hook", None)
            exr.loop_hook = env.loops.hook
            try:
                res = execute(exr, rep, self.name, fn, st, args)
            finally:
                exr.loop_hook = old
        if res is None:
            return
        rets, thrown = res
        for k, (s, what) in enumerate(thrown):
            if verify.consistent(s):
                rep.add(self.name, "exception%d: none is thrown" % k, UNKNOWN, "symexec", 0, str(what))
        n = 0
        for k, (s, rv) in enumerate(rets):
            if not verify.consistent(s):
                continue
            n += 1
            frame(rep, self.name, before, s, {out.obj} if out else set(), "path%d" % k)
            try:
                self.result(env, rep, s, rv, out, "path%d" % k)
            except Violation as e:
                rep.add(self.name, "path%d: result" % k, False, "symexec", 0, str(e))
            except Unsupported as e:
                rep.add(self.name, "path%d: result" % k, UNKNOWN, "symexec", 0, str(e))
        if not n:
            rep.add(self.name, "some path returns", UNKNOWN, "symexec")

    def same(self, rep, s, g, out, want, tag, what):
        got = as_point(s, g, read_coords(s, g, out, "result"))
        if got is None:
            rep.add(self.name, "%s: %s" % (tag, what), UNKNOWN, "group normal form", 0, "representation of the result")
            return
        ok = grp.geq(s, got, want)
        rep.add(self.name, "%s: %s" % (tag, what), ok if ok is True else self.definite(got, want), "group normal form", 0, "" if ok else "%r instead of %r" % (got, want))

    def definite(self, got, want):
        """different combinations of independent elements"""
        return False

    def boolean(self, rep, s, rv, want, tag, what):
        ok, d = prove_bool(s, rv, want)
        rep.add(self.name, "%s: %s" % (tag, what), UNKNOWN if ok is None else ok, "propositional", 0, d)


def words(nm, st, p, n=4):
    ws = [t.var("%s%d" % (nm, i), 64) for i in range(n)]
    for i, w in enumerate(ws):
        st.store(Ptr(p.obj, 8 * i), 8, w)
    return ws


def lin(ws):
    return Lin(0, {t.bit(w, j): 1 << (64 * i + j) for i, w in enumerate(ws) for j in range(64)})


class PublicKey(Sig):
    """ensures: sk times the generator, affine"""
    name = B + "public_key(%s const&)" % A4

    def apply(self, exr, st, args, I):
        n = gen(G1)[1].scale(coef(st, args[1]))
        write_nf(st, G1, args[0], n)
        return [(st, None)]

    def setup(self, env, st):
        out, sk = st.new(PSIZE[G1], "ret", "arg"), st.new(32, "sk", "arg")
        self.ws = words("sk", st, sk)
        self.sk = sk
        return [out, sk], out

    def result(self, env, rep, s, rv, out, tag):
        self.same(rep, s, G1, out, gen(G1)[1].scale(coef(s, self.sk)), tag, "sk times the generator")
        c = read_coords(s, G1, out)
        rep.add(self.name, tag + ": affine", True if c[2] is one(S1) or c[2] is zero(S1) else UNKNOWN, "term identity", 0, "z = %r" % c[2])


class Sign(Sig):
    """requires: messages of at most 2^31 - 1 bytes.  ensures: sk times the hash of the message under the ciphersuite's tag"""
    name = B + "sign(%s const&, %s)" % (A4, U8S)

    def setup(self, env, st):
        out, sk = st.new(PSIZE[G2], "ret", "arg"), st.new(32, "sk", "arg")
        words("sk", st, sk)
        n = t.var("n", 64)
        st.assume(t.ult(n, MAXMSG + 1, 64), True)
        m = bytestr.opaque(st, "msg", n)
        self.a = sk, m, n
        return [out, sk, m, n], out

    def result(self, env, rep, s, rv, out, tag):
        sk, m, n = self.a
        self.same(rep, s, G2, out, H(CIPHER, bytestr.rope(s, m, n)).scale(coef(s, sk)), tag, "sk times the hash of the message")


class PopProve(Sig):
    """ensures: sk times the hash, under the proof tag, of the encoding of the public key of sk"""
    name = B + "pop_prove(%s const&)" % A4

    def setup(self, env, st):
        out, sk = st.new(PSIZE[G2], "ret", "arg"), st.new(32, "sk", "arg")
        words("sk", st, sk)
        self.sk = sk
        return [out, sk], out

    def result(self, env, rep, s, rv, out, tag):
        k = coef(s, self.sk)
        self.same(rep, s, G2, out, H(POP, tuple(("b", x) for x in serbytes(gen(G1)[1].scale(k)))).scale(k), tag, "sk times the hash of the public key")


class Verify(Sig):
    """requires: messages of at most 2^31 - 1 bytes.  ensures: key and signature are points of order r and
    e(-G, sig) e(pk, H(m)) = 1"""
    name = B + "verify(%sg1 const&, %s, %sg2 const&)" % (B, U8S, B)

    def setup(self, env, st):
        n = t.var("n", 64)
        st.assume(t.ult(n, MAXMSG + 1, 64), True)
        self.m, self.n = bytestr.opaque(st, "msg", n), n
        self.pk, self.sig = env.point(st, G1, "pk"), env.point(st, G2, "sig")
        return [self.pk, self.m, n, self.sig], None

    def hash(self, s):
        return H(CIPHER, bytestr.rope(s, self.m, self.n))

    def result(self, env, rep, s, rv, out, tag):
        want = valid(s, ((G1, self.pk), (G2, self.sig)))
        want = t.and_(want, PP([(gen(G1)[1].scale(-1), elt(s, G2, self.sig)), (elt(s, G1, self.pk), self.hash(s))]), 1)
        self.boolean(rep, s, rv, want, tag, "true exactly when the points are valid and the pairing equation holds")


def valid(s, ps):
    want = 1
    for g, p in ps:
        want = t.and_(want, t.and_(oc(s, g, p), sub(elt(s, g, p)), 1), 1)
    return want


class PopVerify(Verify):
    """ensures: key and proof are points of order r and e(-G, proof) e(pk, H_pop(encoding of pk)) = 1"""
    name = B + "pop_verify(%sg1 const&, %sg2 const&)" % (B, B)

    def setup(self, env, st):
        self.pk, self.sig = env.point(st, G1, "pk"), env.point(st, G2, "sig")
        return [self.pk, self.sig], None

    def hash(self, s):
        return H(POP, tuple(("b", x) for x in serbytes(elt(s, G1, self.pk))))


class Aggregate(Sig):
    """requires: points on the curve.  ensures: their sum (the identity for the empty list), whatever their number"""

    def __init__(self, g):
        self.g = g
        self.name = B + "aggregate_%s(%s)" % ("public_keys" if g == G1 else "signatures", GS[g])

    def setup(self, env, st):
        out, n = st.new(PSIZE[self.g], "ret", "arg"), t.var("n", 64)
        st.assume(t.ult(n, 1 << 50, 64), True)
        p = env.plist(st, self.g, "P", n, True)
        self.bad = []
        return [out, p, n], out

    def client(self, env):
        self.env = env
        return self

    # list loop client
    def accumulators(self, st):
        out = set()
        for oid, o in st.mem.items():
            if o.alive and o.size == PSIZE[self.g] and not o.ro:
                n = self.point(st, oid)
                if n is not None and n.iszero():
                    out.add(oid)
        self.acc = out
        return out

    def point(self, st, oid):
        try:
            return as_point(st, self.g, read_coords(st, self.g, Ptr(oid, 0)))
        except (Violation, Unsupported, KeyError, TypeError, AttributeError):
            return None

    def header(self, st, J, jn):
        for oid in self.acc:
            b = base(self.g, "S" + oid)
            write_coords(st, self.g, Ptr(oid, 0), tuple(pco(b, i) for i in range(3)))

    def step(self, s0, s2, J, jn):
        out = []
        for oid in sorted(self.acc):
            if s0.mem[oid].cells == s2.mem[oid].cells:
                out.append((oid, 0))
                continue
            a, b = self.point(s0, oid), self.point(s2, oid)
            if b is None:
                raise Unsupported("accumulator")
            d = b - a
            if d == grp.nfof(base(self.g, "P" + jn)):
                out.append((oid, 1))
            else:
                if any(k[0] is base(self.g, "S" + q) for q in self.acc for k in d.d):
                    raise Unsupported("accumulators depend on each other")
                if grp.geq(s2, d, grp.nfof(base(self.g, "P" + jn))):
                    out.append((oid, 1))
                else:
                    raise Violation("an iteration adds %r instead of the element" % d, s2)
        return tuple(out)

    def after(self, st, deltas, n, J, jn):
        if len(deltas) != 1:
            raise Unsupported("iterations differ")
        for oid, k in deltas.pop():
            write_nf(st, self.g, Ptr(oid, 0), NF(self.g) if k == 0 else sumof(self.g, "P"))

    def result(self, env, rep, s, rv, out, tag):
        n = next(iter(env.lists.values()))[2]
        want = sumof(self.g, "P")
        if smt.valid(t.eq(n, 0, 64), s.pc)[0] is True:
            want = NF(self.g)
            got = as_point(s, self.g, read_coords(s, self.g, out, "result"))
            if got == sumof(self.g, "P"):
                want = got
        self.same(rep, s, self.g, out, want, tag, "sum of all elements")


def sumof(g, name):
    return grp.nfof(base(g, ("sum", name)))


class AggregateIf(Aggregate):
    """the templates over objects with an accessor and a predicate; requires: the accessor yields points on the curve.
    ensures: the sum of the accessor's points over the elements (i, x_i) for which the predicate holds"""

    def __init__(self, g):
        self.g = g
        k = ("keys", "key") if g == G1 else ("sigs", "sig")
        self.name = "dv_aggregate_%s(std::span<dv_item, 18446744073709551615ul>, dv_%s const&, dv_sel const&)" % k
        self.get = "dv_%s::operator()(dv_item const&) const" % k[1]

    def setup(self, env, st):
        out, n = st.new(PSIZE[self.g], "ret", "arg"), t.var("n", 64)
        st.assume(t.ult(n, 1 << 50, 64), True)
        p = env.plist(st, "item", "P", n)
        f, sel = st.new(1, "f", "arg", ro=True), st.new(1, "sel", "arg", ro=True)
        self.fp, self.sp = f, sel
        return [out, p, n, f, sel], out

    def loopfn(self, exr, fn):
        """the loops are in the template"""
        c = [m for m, d in exr.mod.dem.items() if m in exr.mod.funcs and "aggregate_%s<dv_item" % ("public_keys" if self.g == G1 else "signatures") in d]
        return c[0] if len(c) == 1 else fn

    def which(self, st, p):
        for k, q in st.ghost.items():
            if isinstance(k, tuple) and k[0] == "el" and q == p:
                return k[1]
        raise Unsupported("an object that is not an element of the list")

    def more(self, env):
        def get(s, a):
            nm = self.which(s, a[2])
            write_coords(s, self.g, a[0], tuple(pco(base(self.g, nm), i) for i in range(3)))

        def sel(s, a):
            nm = self.which(s, a[1])
            J = env.loops.inside[-1] if env.loops.inside else 0
            if nm != "P" + env.loops.name(J):
                raise Unsupported("predicate on another element")
            if smt.valid(t.eq(a[2], J, 64), s.pc)[0] is not True:
                if smt.valid(t.eq(a[2], J, 64), s.pc)[0] is False:
                    raise Violation("the predicate is called with another index", s)
                raise Unsupported("index given to the predicate")
            return t.var("sel" + nm, 1)
        return {self.get: Fn(get), "dv_sel::operator()(dv_item const&, unsigned long) const": Fn(sel)}

    def step(self, s0, s2, J, jn):
        d = s2.decide(t.var("selP" + jn, 1))
        r = super().step(s0, s2, J, jn)
        for oid, k in r:
            if s0.mem[oid].cells != s2.mem[oid].cells or d is not None:
                if d is None:
                    raise Violation("an element is added whether or not it is selected", s2)
                if k != int(d) and any(kk for _, kk in r) != d:
                    raise Violation("an element that is %s is %s" % (("not selected", "added") if not d else ("selected", "not added")), s2)
        return tuple((oid, (d, k)) for oid, k in r)

    def after(self, st, deltas, n, J, jn):
        for oid in sorted(self.acc):
            ds = {dict(x)[oid] for x in deltas}
            if all(k == 0 for _, k in ds):
                write_nf(st, self.g, Ptr(oid, 0), NF(self.g))
            elif ds == {(True, 1), (False, 0)}:
                write_nf(st, self.g, Ptr(oid, 0), sumof(self.g, "P"))
            else:
                raise Unsupported("iterations differ")


class AggregateVerify(Sig):
    """requires: messages of at most 2^31 - 1 bytes, fewer than 2^50 of them.  ensures: true exactly when there are as
    many keys as messages, all keys and the signature are points of order r, the messages are distinct (when asked for) and
    e(-G, sig) prod e(pk_i, H(m_i)) = 1"""
    name = B + "aggregate_verify(%s, %s, %sg2 const&, bool)" % (GS[G1], MS, B)

    def setup(self, env, st):
        n, m, dup = t.var("n", 64), t.var("m", 64), t.var("dup", 1)
        for x in (n, m):
            st.assume(t.ult(x, 1 << 50, 64), True)
        pk, ms = env.plist(st, G1, "pk", n), env.plist(st, "msg", "msg", m)
        self.sig = env.point(st, G2, "sig")
        self.n, self.m, self.dup = n, m, dup
        return [pk, n, ms, m, self.sig, dup], None

    def client(self, env):
        self.env = env
        return self

    def accumulators(self, st):
        return set()

    def header(self, st, J, jn):
        for k in ("pairs", "sets"):
            self.env.gh(st, k, {o: v + (("before", jn),) for o, v in st.ghost.get(k, {}).items()})

    def step(self, s0, s2, J, jn):
        out = []
        for k in ("pairs", "sets"):
            for o, v in s2.ghost.get(k, {}).items():
                v0 = s0.ghost[k].get(o)
                if v0 is None:
                    continue
                if v[:len(v0)] != v0:
                    raise Unsupported("list changed within a loop")
                for x in v[len(v0):]:
                    out.append((k, o, x))
        q = s2.ghost.get(("el", "pk" + jn))
        ok = None
        if q is not None:
            ok = bool(lits(s2, oc(s2, G1, q)) and lits(s2, sub(elt(s2, G1, q))))
        return (tuple(out), ok)

    def after(self, st, deltas, n, J, jn):
        oks = {ok for _, ok in deltas}
        outs = {o for o, _ in deltas}
        if len(outs) != 1:
            raise Unsupported("iterations differ")
        for k, o, x in outs.pop():
            d = dict(st.ghost[k])
            if k == "sets":
                m = self.env.loops.lists[next(q for q, v in self.env.lists.items() if v[0] == "msg")][0]
                if x != ("in", msgkey(jn)) or n is not m and smt.valid(t.eq(n, m, 64), st.pc)[0] is not True:
                    raise Unsupported("set of other values")
                d[o] = d[o] + (("all", "msg", m),)
            else:
                d[o] = d[o] + (("all", pairkey(x, jn), "n" if smt.valid(t.eq(n, self.n, 64), st.pc)[0] is True else "?"),)
            self.env.gh(st, k, d)
        if oks == {True}:
            st.assume(t.var("ALLVALID", 1), True)

    def result(self, env, rep, s, rv, out, tag):
        what = "true exactly when lists match, points are valid, messages distinct where asked for, and the pairing equation holds"
        s = s.copy()
        for k, q in list(s.ghost.items()):
            if isinstance(k, tuple) and k[0] == "el" and k[1].startswith("pk#"):
                if lits(s, oc(s, G1, q), False) or lits(s, sub(elt(s, G1, q)), False):
                    s.assume(t.var("ALLVALID", 1), False)
                elif s.ghost.get("inloop"):
                    raise Unsupported("return from within the loop")
        d = s.decide(self.dup)
        x = s.copy()
        eqs = []
        for v in (True, False):
            if smt.valid(t.not_(t.eq(self.n, self.m, 64)) if v else t.eq(self.n, self.m, 64), s.pc)[0] is not True:
                eqs.append(v)
        for v in eqs:
            s2 = s.copy()
            if len(eqs) > 1:
                s2.assume(t.eq(self.n, self.m, 64), v)
            if not v:
                self.boolean(rep, s2, rv, 0, tag, what + " (lengths differ)")
                continue
            want = t.and_(valid(s2, ((G2, self.sig),)), t.var("ALLVALID", 1), 1)
            want = t.and_(want, t.or_(t.not_(self.dup), t.var("DISTINCT", 1), 1), 1)
            want = t.and_(want, PP([(gen(G1)[1].scale(-1), elt(s2, G2, self.sig))], [("all", pairkey(None, "#J"), "n")]), 1)
            self.boolean(rep, s2, rv, want, tag, what)


def lits(s, b, v=True):
    if isinstance(b, int):
        return bool(b) == v
    if v and b.op == "and":
        return all(lits(s, x) for x in b.args)
    if not v and b.op == "and":
        return s.decide(b) is False or any(lits(s, x, False) for x in b.args)
    return s.decide(b) is v


def msgkey(jn):
    return bytestr.key((("s", "msg" + jn, 0, t.var("msg" + jn + ".size", 64)),))


def pairkey(x, jn):
    """(pk_J, H(m_J)), with the index renamed"""
    c = tuple(fl.fvar("pk" + jn + "." + k, S1) for k in "xyz")
    b = mk("pxyz", c, 0)
    want = (((b.id, 0, 1),), ((_hashbase(CIPHER, msgkey(jn)).id, 0, 1),))
    if x is None:
        return ("pk", "hash")
    got = tuple(n.key() for n in x)
    return ("pk", "hash") if got == want else ("other",) + tuple(repr(n).replace(jn, "#") for n in x)


class PopFast(Sig):
    """ensures: false for the empty list, otherwise verify(sum of the keys, message, signature)"""
    name = B + "pop_fast_aggregate_verify(%s, %s, %sg2 const&)" % (GS[G1], U8S, B)

    def setup(self, env, st):
        n, l = t.var("n", 64), t.var("l", 64)
        st.assume(t.ult(l, MAXMSG + 1, 64), True)
        st.assume(t.ult(n, 1 << 50, 64), True)
        self.n, self.l = n, l
        self.pks, self.m, self.sig = env.plist(st, G1, "P", n, True), bytestr.opaque(st, "msg", l), env.point(st, G2, "sig")
        return [self.pks, n, self.m, l, self.sig], None

    def more(self, env):
        def agg(s, a):
            if a[1] != self.pks or smt.valid(t.eq(a[2], self.n, 64), s.pc)[0] is not True:
                raise Unsupported("aggregate of another list")
            write_nf(s, G1, a[0], sumof(G1, "P"))

        def ver(s, a):
            return self.v(s, elt(s, G1, a[0]), bytestr.rope(s, a[1], a[2]), elt(s, G2, a[3]))
        return {C_AGG1: Fn(agg), Verify.name: Fn(ver)}

    def v(self, s, p, r, q):
        return mk("verifies", (p.key(), bytestr.key(r), q.key()), 1)

    def result(self, env, rep, s, rv, out, tag):
        for e in (True, False):
            s2 = s.copy()
            try:
                if smt.valid(t.eq(self.n, 0, 64), s.pc)[0] is (not e) or smt.valid(t.not_(t.eq(self.n, 0, 64)), s.pc)[0] is e:
                    continue
            except Infeasible:
                continue
            want = 0 if e else self.v(s2, sumof(G1, "P"), bytestr.rope(s2, self.m, self.l), elt(s2, G2, self.sig))
            self.boolean(rep, s2, rv, want, tag, "false for the empty list" if e else "verifies under the sum of the keys")


C_AGG1 = B + "aggregate_public_keys(%s)" % GS[G1]
for c in (PublicKey(), Sign(), PopProve(), Verify(), PopVerify(), Aggregate(G1), Aggregate(G2), AggregateIf(G1), AggregateIf(G2), AggregateVerify(), PopFast()):
    reg(c)


# ---- lemmas --------------------------------------------------------------------------------------

def lemmas(exr, rep):
    nm = "signatures"

    def ok(what, v, by="integers"):
        rep.add(nm, what, True if v else False, by)
    fl.reset()
    for g, c in ((G1, ref.E1 if hasattr(ref, "E1") else None), (G2, ref.E2 if hasattr(ref, "E2") else None)):
        co, n = gen(g)
        X, Y, _ = co
        ok("%s: the generator is on the curve" % CLS[g], grp.curve_poly(g, *co) is zero(SORT[g]), "field arithmetic")
    sk = Lin(0, {mk("zwords", tuple(t.var("a%d" % i, 64) for i in range(4)), 1): 1})
    G, h, o = gen(G1)[1], H(CIPHER, (("b", t.var("m", 8)),)), grp.nfof(base(G2, "rest"))
    p = grp.nfof(base(G1, "other"))
    ok("a signature verifies under its key: e(-G, sk H) e(sk G, H) = 1", PP([(G.scale(-1), h.scale(sk)), (G.scale(sk), h)]) == 1, "bilinear normal form")
    ok("the public key and the signature of a key are points of order r", sub(G.scale(sk)) == 1 and sub(h.scale(sk)) == 1, "group normal form")
    ok("a proof of possession verifies under its key", PP([(G.scale(-1), h.scale(sk)), (G.scale(sk), h)]) == 1, "bilinear normal form")
    ok("adding a signature and its pair keeps the equation of an aggregate (induction step)", form([(G.scale(-1), o + h.scale(sk)), (p, h), (G.scale(sk), h)]) == form([(G.scale(-1), o), (p, h)]), "bilinear normal form")
    ok("adding a key and its signature of the same message keeps the equation of a fast aggregate (induction step)", form([(G.scale(-1), o + h.scale(sk)), (p + G.scale(sk), h)]) == form([(G.scale(-1), o), (p, h)]), "bilinear normal form")
    ok("an altered signature does not satisfy the equation as a form", PP([(G.scale(-1), h.scale(sk) + o), (G.scale(sk), h)]) != 1, "bilinear normal form")
    tx = texts(exr)
    for v in (CIPHER, POP):
        rep.add(nm, "a string constant holds the tag %s" % v, True if v in tx.values() else UNKNOWN, "initialisers of the globals")


props.extra("C12", "schemes")(lemmas)


def total(exr, rep):
    """functions that the predicates call before the points are checked: any coordinates are safe"""
    names = [(B + "%s::affine() const" % CLS[g], g) for g in (G1, G2)] + [(B + "g1::toAffineBytesLE(%sfrom_mont) const" % B, G1), (NADDP, None)]
    for name, g in names:
        fn = exr.find(name)
        if fn is None:
            rep.add(name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
            continue
        fl.reset()
        st = exr.base.copy()
        pts = {}
        for q in (G1, G2) if g is None else (g,):
            p = pts[q] = st.new(PSIZE[q], "pt", "arg")
            write_coords(st, q, p, tuple(fl.fvar("%s.%s" % (CLS[q], k), SORT[q]) for k in "xyz"))
        if g is None:
            v = st.new(24, "pairs", "arg")
            args, outs = [v, pts[G1], pts[G2]], {v.obj}
        else:
            out = st.new(96 if "Bytes" in name else PSIZE[g], "ret", "arg")
            args, outs = [out, pts[g]] + ([1] if "Bytes" in name else []), {out.obj}
        before = st.copy()

        def emplace(s, a):
            for q, x in zip((G1, G2), a[1:]):
                read_coords(s, q, x)
            return s.new(8, "back", "arg")
        from . import c_pair
        ov = c_pair.append_models(exr, emplace)
        old = exr.contracts
        exr.contracts = {k: v for k, v in old.items() if not k.endswith("::affine() const") and k != name and "::toAffineBytes" not in k}
        exr.contracts.update(ov)
        try:
            res = execute(exr, rep, name, fn, st, args)
        finally:
            exr.contracts = old
            rep.used -= set(ov)
            exr.used -= set(ov)
        if res is None:
            continue
        for k, (s, what) in enumerate(res[1]):
            if verify.consistent(s):
                rep.add(name, "any coordinates: no exception", False, "symexec", 0, str(what))
        for k, (s, rv) in enumerate(res[0]):
            if verify.consistent(s):
                frame(rep, name, before, s, outs, "any coordinates, path%d" % k)
        rep.add(name, "any coordinates: safe execution", bool(res[0]), "symexec")


props.extra("C12", "points that are not checked yet")(total)
