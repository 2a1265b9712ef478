"""fp::inverse (binary extended Euclid) by a loop invariant, and the word-level helpers it uses.

Inside the loop the four field objects hold plain integers.  Words are modelled as word i of an integer V, where V is a
linear polynomial with rational coefficients in the header symbols (u, v, s, r); facts about them live in the state and
are discharged by z3, the product relations of the invariant by polynomial identity.
"""
import time
from fractions import Fraction as Fr
import z3
from . import term as t, field as fl, exec as ex, ref, verify, smt, props, c_field, loopcut
from .exec import Ptr, Violation, Infeasible, Contract
from .ir import Unsupported
from .term import T, mk
P = ref.P
C = {}
B = "bls12_381::"
LIM = 1 << 384
Z = []                  # integer values: (poly dict name->Fr, 1->const)
_zi = {}
FIELD = {}              # integer symbol -> field term of its Montgomery value


def zint(p):
    p = {k: v for k, v in p.items() if v}
    k = tuple(sorted(p.items(), key=lambda kv: str(kv[0])))
    if k not in _zi:
        _zi[k] = len(Z)
        Z.append(p)
    return _zi[k]


def zadd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def zscale(a, c):
    return {k: v * c for k, v in a.items()}


def zexpr(p):
    """z3: the polynomial times a positive integer, and that integer"""
    d = 1
    for v in p.values():
        d = d * Fr(v).denominator // __import__("math").gcd(d, Fr(v).denominator)
    e = z3.IntVal(0)
    for k, v in p.items():
        c = int(Fr(v) * d)
        e = e + (c if k == 1 else c * z3.Int(k))
    return e, d


_valid = {}


def facts(st):
    return st.ghost.get("zf", ())


def fact(st, f):
    st.ghost["zf"] = facts(st) + (f,)


def entails(st, g):
    key = (tuple(f.get_id() for f in facts(st)), g.get_id())
    got = _valid.get(key)
    if got is None:
        s = z3.Solver()
        s.set("timeout", 20000)
        for f in facts(st):
            s.add(f)
        s.add(z3.Not(g))
        got = (s.check() == z3.unsat, facts(st), g)
        _valid[key] = got
    return got[0]


def ge0(p, strict=False):
    e, _ = zexpr(p)
    return e > 0 if strict else e >= 0


def toint(st, p):
    """the integer in memory at p, or None when it is not in the integer view"""
    cs = [st.load(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8) for i in range(6)]
    c = cs[0]
    if all(isinstance(x, int) for x in cs):
        return {1: Fr(sum(x << (64 * i) for i, x in enumerate(cs)))} if any(cs) else {}
    if isinstance(c, T) and c.op == "iw" and all(isinstance(x, T) and x.op == "iw" and x.args == (c.args[0], i) for i, x in enumerate(cs)):
        return Z[c.args[0]]
    if isinstance(c, T) and c.op == "limb" and c.args[1] == 1 and all(isinstance(x, T) and x.op == "limb" and x.args[0] is c.args[0] and x.args[1] == 1 and x.args[2] == i for i, x in enumerate(cs)):
        nm = "f%d" % c.args[0].id
        v = z3.Int(nm)
        fact(st, z3.And(v >= (1 if st.decide(fl.fzero_atom(c.args[0])) is False else 0), v < P))
        FIELD[nm] = c.args[0]
        return {nm: Fr(1)}
    raise Unsupported("operand is not in the integer view")


def intview(st, p):
    for i in range(6):
        c = st.load(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8)
        if isinstance(c, T) and c.op == "iw":
            return True
    return False


def wint(st, p, V):
    k = zint(V)
    V = Z[k]
    if not V or set(V) == {1}:
        n = int(V.get(1, 0))
        for i, x in enumerate(ex.int_limbs(n)):
            st.store(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8, x)
        return
    for i in range(6):
        st.store(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8, mk("iw", (k, i), 64))


def fork(st, g):
    """[(state, bool)] for the z3 condition g"""
    if entails(st, g):
        return [(st, True)]
    if entails(st, z3.Not(g)):
        return [(st, False)]
    s2 = st.copy()
    fact(st, g)
    fact(s2, z3.Not(g))
    return [(st, True), (s2, False)]


def even(V):
    e, d = zexpr(V)
    return e % (2 * d) == 0


class IntWrap(Contract):
    def __init__(self, name, inner, always=False):
        self.name, self.inner, self.always = name, inner, always
        self.home = getattr(inner, "home", None)

    def apply(self, exr, st, args, I):
        a = list(args)
        if exr.zmode and (self.always or any(intview(st, x) for x in (a[:1] if self.op in ("div2", "mul2", "isZero", "isEven", "isOdd") else a[1:] if self.op in ("ladd", "lsub", "ldouble") else a[:2]))):
            return getattr(self, "i_" + self.op)(exr, st, a)
        if self.inner is None or getattr(self.inner, "inline", False):
            return exr.run(exr.find(self.name), st, args)
        return self.inner.apply(exr, st, args, I)

    def i_isZero(self, exr, st, a):
        V = toint(st, a[0])
        e, _ = zexpr(V)
        return [(s, int(b)) for s, b in fork(st, e == 0)]

    def i_isEven(self, exr, st, a):
        V = toint(st, a[0])
        return [(s, int(b)) for s, b in fork(st, even(V))]

    def i_isOdd(self, exr, st, a):
        V = toint(st, a[0])
        return [(s, int(not b)) for s, b in fork(st, even(V))]

    def i_equal(self, exr, st, a):
        V, W = toint(st, a[0]), toint(st, a[1])
        e, _ = zexpr(zadd(V, W, -1))
        return [(s, int(b)) for s, b in fork(st, e == 0)]

    def i_div2(self, exr, st, a):
        V = toint(st, a[0])
        hi = st.load(a[1], 8)
        if hi != 0:
            raise Unsupported("div2 with an incoming bit")
        if not entails(st, even(V)):
            raise Unsupported("halving a number that may be odd")
        wint(st, a[0], zscale(V, Fr(1, 2)))
        return [(st, None)]

    def i_mul2(self, exr, st, a):
        V = toint(st, a[0])
        V = zscale(V, 2)
        if not entails(st, ge0(zadd({1: Fr(LIM)}, V, -1), True)):
            raise Violation("doubling can overflow 384 bits", st)
        wint(st, a[0], V)
        return [(st, 0)]

    def i_cmp(self, exr, st, a):
        V, W = toint(st, a[0]), toint(st, a[1])
        d = zadd(V, W, -1)
        out = []
        e, _ = zexpr(d)
        for s, b in fork(st, e > 0):
            if b:
                out.append((s, 1))
            else:
                for s2, b2 in fork(s, e == 0):
                    out.append((s2, 0 if b2 else t.mask(64 if self.rw is None else self.rw)))
        return out

    def i_ladd(self, exr, st, a):
        V = zadd(toint(st, a[1]), toint(st, a[2]))
        if not entails(st, ge0(zadd({1: Fr(LIM)}, V, -1), True)):
            raise Violation("sum can overflow 384 bits", st)
        wint(st, a[0], V)
        return [(st, None)]

    def i_ldouble(self, exr, st, a):
        return self.i_ladd(exr, st, [a[0], a[1], a[1]])

    def i_lsub(self, exr, st, a):
        V = zadd(toint(st, a[1]), toint(st, a[2]), -1)
        if not entails(st, ge0(V)):
            raise Violation("unsigned subtraction can wrap", st)
        wint(st, a[0], V)
        return [(st, None)]


def bint(k, st):
    """(field term of the Montgomery value, bound) of an integer, in the state st"""
    V = Z[k]                # linear combination of integers whose field values are known
    F = fl.zero(-1)
    for a, c in V.items():
        c = Fr(c)
        c = c.numerator * pow(c.denominator, -1, P)
        if a == 1:
            f = fl.f1(c * ref.MRI)
        else:
            zf = st.ghost.get("zfield") if st is not None else None
            if zf and zf[0] == a:
                g = zf[1]
            elif a in FIELD:
                g = FIELD[a]
            else:
                return mk("fraw", tuple(mk("iw", (k, i), 64) for i in range(6)), -1), 10
            f = fl.fmul(g, fl.f1(c))
        F = fl.fadd(F, f)
    for b in (1, 2):
        if st is not None and entails(st, z3.And(ge0(V), ge0(zadd({1: Fr(b * P)}, V, -1), True))):
            return F, b
    return F, 10


FPp, FPc = B + "fp*", B + "fp const*"
OPS = {"isZero() const": "isZero", "isEven() const": "isEven", "isOdd() const": "isOdd", "equal(bls12_381::fp const&) const": "equal",
       "div2(unsigned long const&)": "div2", "mul2()": "mul2", "cmp(bls12_381::fp const&) const": "cmp"}


class Helper(Contract):
    """the small word functions, verified on arbitrary words; inlined at ordinary call sites"""
    home = "C02"
    inline = True

    def __init__(self, op, name):
        self.op, self.name = op, name

    def verify(self, exr, rep):
        from .c_code import run
        name, op = self.name, self.op
        fn = exr.find(name)
        if fn is None:
            rep.add(name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        st = ex.State()
        two = op in ("cmp", "equal")
        ps, ws = [], []
        for k in range(2 if two else 1):
            p = st.new(48, "x%d" % k)
            w = [t.var("x%d_%d" % (k, i), 64) for i in range(6)]
            for i in range(6):
                st.store(Ptr(p.obj, 8 * i), 8, w[i])
            ps.append(p)
            ws.append(w)
        args = list(ps)
        e = None
        if op == "div2":
            q = st.new(8, "e")
            e = t.var("e0", 64)
            st.store(q, 8, e)
            args.append(q)
        own = None
        try:
            res = run(exr, rep, name, fn, st, args, merge=False)
        finally:
            if own is not None:
                exr.contracts[name] = own
        if res is None:
            return
        cat = lambda w: z3.Concat(*[enc.e(x, 64) for x in reversed(w)])
        ok, why = True, ""
        t0 = time.time()
        for s, rv in res:
            enc = smt.Enc()
            X = [cat(w) for w in ws]
            sol = z3.Solver()
            sol.set("timeout", 60000)
            for c, val in s.pc:
                b = enc.e(c, 1)
                sol.add(b == (1 if val else 0))
            out = cat([s.load(Ptr(ps[0].obj, 8 * i), 8) for i in range(6)])
            def ret(w):
                return enc.e(rv, w) if isinstance(rv, T) else z3.BitVecVal(rv, w)
            if op == "isZero":
                g = (ret(1) == 1) == (X[0] == 0)
            elif op == "isEven":
                g = (ret(1) == 1) == (z3.Extract(0, 0, X[0]) == 0)
            elif op == "isOdd":
                g = (ret(1) == 1) == (z3.Extract(0, 0, X[0]) == 1)
            elif op == "equal":
                g = (ret(1) == 1) == (X[0] == X[1])
            elif op == "div2":
                g = out == (z3.LShR(X[0], 1) | (z3.Concat(enc.e(e, 64), z3.BitVecVal(0, 320)) << 63))
            elif op == "mul2":
                g = z3.And(out == X[0] << 1, ret(64) == z3.ZeroExt(63, z3.Extract(383, 383, X[0])))
            else:
                w = rv.w if isinstance(rv, T) else self.rw
                R = ret(w)
                g = z3.If(z3.UGT(X[0], X[1]), R == 1, z3.If(X[0] == X[1], R == 0, R == z3.BitVecVal(-1, w)))
            if op not in ("div2", "mul2"):
                g = z3.And(g, out == X[0])
            sol.add(z3.Not(g))
            r = sol.check()
            if r != z3.unsat:
                ok = False if r == z3.sat else verify.UNKNOWN
                why = str(sol.model())[:300] if r == z3.sat else "solver gave up"
                break
        rep.add(name, "word-level result for all operands (%d paths)" % len(res), ok, "z3 bit-vectors", time.time() - t0, why)


for sig, op in OPS.items():
    if op in ("isEven", "isOdd", "div2", "mul2", "cmp"):
        h = Helper(op, B + "fp::" + sig)
        h.rw = 8
        C[h.name] = h


def wrap(exr):
    """integer-view contracts for the functions the inversion loop calls"""
    out = {}
    for sig, op in OPS.items():
        out[B + "fp::" + sig] = op
    for nm, op, n in (("_ladd", "ladd", 2), ("_lsubtract", "lsub", 2), ("_ldouble", "ldouble", 1)):
        out["%s%s(%s%s)" % (B, nm, FPp, (", " + FPc) * n)] = op
    W = {}
    for name, op in out.items():
        w = IntWrap(name, exr.contracts.get(name), always=op not in ("isZero", "equal"))
        w.op, w.rw = op, 8
        W[name] = w
    return W


def known(st, v):
    """a stored flag whose condition is decided on the path"""
    if isinstance(v, T) and v.op == "zext" and v.args[0].w == 1:
        d = st.decide(v.args[0])
        if d is not None:
            return int(d)
    return v


class InvCut(loopcut.Cut):
    """u*s + v*r = p;  a*r + u*2^n = 0 and a*s = v*2^n (mod p);  u >= 1, v >= 0, 0 <= r, s <= 2^n;  u*v*2^n <= p*a.
    With v = 0: u = 1, s = p (p is prime and does not divide 2^n), so 381 <= n <= 762; with v >= 1: n <= 761."""

    def __init__(self, exr, x, rep, name):
        super().__init__(exr)
        self.x, self.rep, self.name = x, rep, name
        self.done = {}

    def match(self, f, st, env, blk):
        return True

    def roles(self, st, changed):
        """objects by their value at loop entry"""
        a = "f%d" % self.x.id
        want = {"u": {1: Fr(P)}, "v": {a: Fr(1)}, "s": {1: Fr(1)}, "r": {}}
        R = {}
        fps, ctr = [], []
        for oid, offs in changed.items():
            o = st.mem[oid]
            if o.size == 48:
                V = toint(st, Ptr(oid, 0))
                k = [n for n, w in want.items() if w == V and n not in R]
                if not k:
                    raise Unsupported("loop variable with an unexpected initial value")
                R[k[0]] = Ptr(oid, 0)
            elif not o.cells:
                continue            # scratch, uninitialised at the header
            elif o.size in (1, 4, 8):
                ctr.append(Ptr(oid, 0))
            elif any(o.cells.values()):
                raise Unsupported("loop changes an object of %s bytes" % o.size)
        # objects not changed in the trial iteration may still be roles: look for all
        for oid, o in list(st.mem.items()):
            if o.size == 48 and o.cells and not oid.startswith("g:") and o.kind == "stack" and all(r.obj != oid for r in R.values()):
                try:
                    V = toint(st.copy(), Ptr(oid, 0))
                except (Unsupported, Violation):
                    continue
                for n, w in want.items():
                    if w == V and n not in R:
                        R[n] = Ptr(oid, 0)
                        break
        if set(R) != set("uvsr"):
            raise Unsupported("loop roles not recognised: %s %s" % (sorted(R), [(o, st.mem[o].size, list(st.mem[o].cells.items())[:2]) for o in changed]))
        self.a = a
        return R, ctr

    def enter(self, f, st, env, blk, changed):
        self.R, ctr = self.roles(st, changed)
        self.ctr = []               # (place, initial value, change per iteration, size): counters and flags
        for c in ctr:
            sz = st.mem[c.obj].size
            c0 = st.load(c, sz)
            if not isinstance(c0, int):
                raise Unsupported("loop counter with a symbolic initial value")
            m = (1 << 8 * sz) - 1
            ds = set()
            for s3, _ in self.trial_states:
                c1 = known(s3, s3.load(c, sz))
                if not isinstance(c1, int):
                    raise Unsupported("object changed by the loop is not a counter: %r" % (c1,))
                ds.add((c1 - c0) & m)
            ds = ds - {0} or {0}
            if len(ds) != 1:
                raise Unsupported("object changed by the loop is not a counter")
            self.ctr.append((c, c0, ds.pop(), sz))
        if self.envch:
            # registers: counters too
            self.regs = []
            for k in self.envch:
                c0 = env[k]
                if not isinstance(c0, int) or any(e3[k] != c0 + 1 for _, e3 in self.trial_states if k in e3):
                    raise Unsupported("register changed by the loop is not a counter")
                self.regs.append((k, c0))
        else:
            self.regs = []
        self.rep.add(self.name, "loop invariant holds on entry", True, "exact integers")
        self.head = st
        out = []
        self.allowed = {p.obj for p in self.R.values()} | {c[0].obj for c in self.ctr}
        u, v, s, r = (z3.Int(n) for n in "uvsr")
        for n in range(0, 763):
            if n <= 761:
                b = st.copy()
                e = dict(env)
                self.setn(b, e, n)
                for nm in "uvsr":
                    wint(b, self.R[nm], {nm: Fr(1)})
                # linear facts implied by the invariant when v >= 1 (u*s + v*r = p gives s <= p, r <= p, s + r <= p)
                fact(b, z3.And(u >= 1, v >= 1, u <= P, v <= P, s >= 0, r >= 0, s <= P, r <= P, s + r <= P))
                b.ghost["inv_n"] = n
                out.append((b, e))
            if n >= 381:        # s = p <= 2^n
                x = st.copy()
                e = dict(env)
                self.setn(x, e, n)
                wint(x, self.R["u"], {1: Fr(1)})
                wint(x, self.R["v"], {})
                wint(x, self.R["s"], {1: Fr(P)})
                wint(x, self.R["r"], {"r": Fr(1)})
                # 0 < r < 2p and r is not p: p does not divide 2^n
                fact(x, z3.And(r > 0, r < 2 * P, r != P))
                # the words hold r; as a Montgomery value: r / 2^384, with a*r = -2^n and a = x*2^384
                F = fl.fmul(fl.f1(-pow(2, n, P) * pow(ref.MRI, 2, P)), fl.finv(self.x))
                x.ghost["zfield"] = ("r", F)
                x.ghost["inv_n"] = n
                out.append((x, e))
        return out

    def setn(self, st, env, n):
        for c, c0, d, sz in self.ctr:
            st.store(c, sz, (c0 + d * n) % (1 << 8 * sz))
        for k, c0 in self.regs:
            env[k] = c0 + n

    def back(self, f, st, env, blk):
        n = st.ghost["inv_n"]
        for c, c0, d, sz in self.ctr:
            if known(st, st.load(c, sz)) != (c0 + d * (n + 1)) % (1 << 8 * sz):
                raise Unsupported("loop counter changes irregularly")
        for k, c0 in self.regs:
            if env[k] != c0 + n + 1:
                raise Unsupported("loop counter changes irregularly")
        w = self.frame_ok(st, self.allowed)
        if w:
            raise Unsupported(w)
        V = {nm: toint(st, self.R[nm]) for nm in "uvsr"}
        key = (tuple(sorted((k, zint(x)) for k, x in V.items())), tuple(f.get_id() for f in facts(st)))
        if key in self.done:
            return
        self.done[key] = facts(st)
        t0 = time.time()
        rep, name = self.rep, self.name
        ok, why = True, []

        def mulp(a, b):
            r = {}
            for x, c in a.items():
                for y, d in b.items():
                    m = tuple(sorted([z for z in (x, y) if z != 1]))
                    r[m] = r.get(m, 0) + c * d
            return {k: v for k, v in r.items() if v}
        d = zadd(zadd(mulp(V["u"], V["s"]), mulp(V["v"], V["r"])), {("s", "u"): 1, ("r", "v"): 1}, -1)
        if d:
            ok = False
            why.append("u*s + v*r changes")

        # a*r' + 2E*u' and a*s' - 2E*v' as integer combinations of (a*r + E*u) and (a*s - E*v)
        def combo(A, Bv, sgn):
            # A in terms of r,s ; Bv in terms of u,v
            al, be = A.get("r", 0), A.get("s", 0)
            if set(A) - {"r", "s"} or Fr(al).denominator != 1 or Fr(be).denominator != 1:
                return False
            return zadd(zscale(Bv, 2 * sgn), {"u": al, "v": -be}, -1) == {}
        if not combo(V["r"], V["u"], 1):
            ok = False
            why.append("a*r + u*2^n = 0 (mod p) is not preserved")
        if not combo(V["s"], V["v"], -1):
            ok = False
            why.append("a*s = v*2^n (mod p) is not preserved")
        u, v = z3.Int("u"), z3.Int("v")
        eu, du = zexpr(V["u"])
        ev, dv = zexpr(V["v"])
        if not entails(st, z3.And(eu >= du, ev >= 0)):
            ok = False
            why.append("u >= 1, v >= 0 is not preserved")
        if not entails(st, z3.And(eu <= P * du, ev <= P * dv)):
            ok = False
            why.append("u, v <= p is not preserved")
        # 2*u'*v' <= u*v: uv - 2u'v' is a sum of products of nonnegative terms
        q = zadd({("u", "v"): 1}, zscale(mulp(V["u"], V["v"]), 2), -1)
        if any(c < 0 for c in q.values()) or any(m not in ((), ("u", "u"), ("v", "v"), ("u", "v"), ("u",), ("v",)) for m in q):
            s = z3.Solver()
            s.set("timeout", 5000)
            for f in facts(st):
                s.add(f)
            s.add(2 * eu * ev > u * v * du * dv)
            if s.check() != z3.unsat:
                ok = False
                why.append("u*v does not halve")
        if not entails(st, z3.And(ge0(V["r"]), ge0(V["s"]), ge0(zadd({1: Fr(2 * P)}, V["r"], -1)))):
            ok = False
            why.append("0 <= r <= 2p is not preserved")
        m, rr, ss = z3.Int("m"), z3.Int("r"), z3.Int("s")
        s2 = st.copy()
        fact(s2, z3.And(rr <= m, ss <= m))
        er, dr = zexpr(V["r"])
        es, ds = zexpr(V["s"])
        if not entails(s2, z3.And(er <= 2 * m * dr, es <= 2 * m * ds)):
            ok = False
            why.append("r, s <= 2^n is not preserved")
        if not ok:
            # an invariant of this shape fails: the loop body is wrong, or another algorithm
            raise Violation("loop invariant not preserved: " + "; ".join(why), st)
        rep.add(name, "loop invariant preserved (branch %d)" % len(self.done), True, "polynomial identity + z3", time.time() - t0)


class Inverse(verify.FieldFn):
    home = "C02"

    def verify(self, exr, rep):
        from .c_code import frame
        name = self.name
        fn = exr.find(name)
        if fn is None:
            rep.add(name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        x = verify.symbol("x", -1)
        W = wrap(exr)
        saved = {k: exr.contracts.get(k) for k in W}
        exr.contracts.update(W)
        exr.zmode = True
        oldb = ex.BINT

        ex.BINT = bint
        try:
            for al in (False, True):
                st = exr.base.copy()
                px = st.new(48, "x")
                ex.write_fp(st, px, x)
                out = px if al else st.new(48, "ret")
                if al:
                    continue
                z0 = fl.fzero_atom(x)
                a0, a1 = st.copy(), st.copy()
                a0.assume(z0, True)
                a1.assume(z0, False)
                # zero maps to zero
                exr.loop_hook = None
                exr.exclude, exr.merge, exr.throws, exr.used, exr.inlined = {name, B + "fp::multiplyAssign(bls12_381::fp const&)", B + "fp::multiply(bls12_381::fp const&) const"}, False, [], set(), set()
                t0 = time.time()
                for s, _ in exr.run(fn, a0, [out, px]):
                    F, k = ex.read_fp(s, out)
                    rep.add(name, "inverse of zero is zero", k == 1 and verify.prove_eq(s, F, fl.zero(-1))[0], "polynomial identity", time.time() - t0)
                cut = InvCut(exr, x, rep, name)
                exr.loop_hook = cut.hook
                before = a1.copy()
                t0 = time.time()
                res = exr.run(fn, a1, [out, px])
                exr.loop_hook = None
                rep.used |= exr.used
                rep.inlined |= exr.inlined
                bad, seen = None, set()
                for s, _ in res:
                    n = s.ghost.get("inv_n")
                    if n is None:
                        raise Unsupported("no loop invariant was applied")
                    seen.add(n)
                    F, k = ex.read_fp(s, out)
                    g = k == 1 and verify.prove_eq(s, F, fl.finv(x), nonzero=[x])[0]
                    if g is not True and bad is None:
                        bad = n
                rep.add(name, "result * x = 1 for every number of steps 381..762 (%d exits)" % len(res), bad is None and len(seen) == 382, "polynomial identity", time.time() - t0,
                        "" if bad is None else "wrong after %d iterations" % bad)
                frame(rep, name, before, res[0][0], {out.obj}, "frame")
        finally:
            ex.BINT = oldb
            exr.zmode = False
            exr.loop_hook = None
            exr.exclude = set()
            for k, c in saved.items():
                if c is None:
                    exr.contracts.pop(k, None)
                else:
                    exr.contracts[k] = c


C[B + "fp::inverse() const"] = Inverse(B + "fp::inverse() const", [("in", -1)], -1, fl.finv)
