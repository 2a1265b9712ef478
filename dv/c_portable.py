"""The portable C++ limb back end: the real functions of arithmetic.cpp compiled with __x86_64__ undefined, executed
symbolically on their IR; Add64/Sub64/Mul64 are events replayed in the exact word engine (their bodies are proved
separately as bit-vector identities)."""
import os, re, time, glob
from math import floor
from . import build, ir, exec as ex, term as t, wordint as wi, ref, verify, props, c_limb, smt
from .exec import Ptr, Violation, Contract
from .ir import Unsupported
from .term import T
from .wordint import Word, K, Ctx, W64, Poly, C as CC, TOP
P = ref.P
ML = [(P >> (64 * i)) & (W64 - 1) for i in range(6)]
FP, CFP, U = "bls12_381::fp*", "bls12_381::fp const*", "unsigned long const&"
_exec = {}


class Ev(Contract):
    """Add64(x,y,c) -> (x+y+c mod 2^64, carry); Sub64 likewise with borrow; Mul64(x,y) -> (high, low).  requires c <= 1 (checked at replay)."""

    def __init__(self, kind):
        self.kind = kind
        self.name = "bls12_381::%s(%s)" % (kind, ", ".join([U] * (2 if kind == "Mul64" else 3)))

    def apply(self, exr, st, args, I):
        out = args[0]
        ins = [st.load(a, 8) for a in args[1:]]
        a, b = t.fresh("w", 64), t.fresh("f", 64)
        st.ghost["ev"] = st.ghost.get("ev", ()) + ((self.kind, tuple(ins), a, b),)
        st.store(Ptr(out.obj, out.off + 8), 8, a)     # std::get<0>
        st.store(Ptr(out.obj, out.off), 8, b)         # std::get<1>
        return [(st, None)]


CT = {k: Ev(k) for k in ("Add64", "Sub64", "Mul64")}


def executor():
    if "e" not in _exec:
        inc = os.path.join(build.HERE, "harness", "portable.hpp")
        srcs = [build.REPO + "/src/arithmetic.cpp", build.REPO + "/src/fp.cpp"]
        outs = ir.compile_ir(srcs, os.path.join(build.workdir(), "portable"), [build.REPO + "/include", build.REPO + "/src"], ["-include", inc])
        e = ex.Exec(ir.load(outs), {c.name: c for c in CT.values()})
        e.run_ctors()
        _exec["e"] = e
    return _exec["e"]


class Replay:
    def __init__(self, ctx, env):
        self.ctx, self.env, self.flags, self.memo = ctx, dict(env), [], {}

    def val(self, v):
        if isinstance(v, int):
            return K(v)
        w = self.env.get(v.id)
        if w is not None:
            return w
        w = self.memo.get(v.id)
        if w is None:
            a = v.args
            if v.op == "mul" and v.w == 64:
                w = self.product(self.val(a[0]), self.val(a[1]))[1]
            elif v.op == "add" and v.w == 64:
                w = self.sum(self.val(a[0]), self.val(a[1]))[0]
            elif v.op == "trunc" and isinstance(a[0], T) and a[0].w == 128 and v.w == 64:
                w = self.wide(a[0])[1]
            elif v.op == "zext" and isinstance(a[0], T) and a[0].w == 1:
                w = self.carry(a[0])
            else:
                raise Unsupported("word term " + v.op)
            self.memo[v.id] = w
        return w

    def product(self, x, y):
        k = ("mul",) + tuple(sorted((id(x), id(y))))
        if k not in self.memo:
            self.memo[k] = self.ctx.mul(x, y) + (x, y)
        return self.memo[k][:2]

    def sum(self, x, y, cin=None):
        """-> (sum, carry); the carry joins the flags the proof has to account for"""
        k = ("add",) + tuple(sorted((id(x), id(y)))) + (id(cin),)
        if k not in self.memo:
            r, c = self.ctx.addc(x, y) if cin is None or (cin.isconst() and cin.lo == 0) else self.ctx.addc(x, y, cin)
            x.used = y.used = True
            if not c.isconst():
                self.flags.append(c)
            self.memo[k] = (r, c, x, y, cin)
        return self.memo[k][:2]

    def wide(self, v):
        """128-bit term -> (high word, low word); the sum's carry out of 128 bits must be zero"""
        if isinstance(v, int):
            return K(v >> 64), K(v & (wi.W64 - 1))
        k = ("w", v.id)
        if k in self.memo:
            return self.memo[k]
        a = v.args
        if v.op == "zext":
            r = K(0), self.val(a[0])
        elif v.op == "mul":
            (h, x), (g, y) = self.wide(a[0]), self.wide(a[1])
            if not all(z.isconst() and z.lo == 0 for z in (h, g)):
                raise Unsupported("product of 128-bit words")
            r = self.product(x, y)
        elif v.op == "add":
            (h, x), (g, y) = self.wide(a[0]), self.wide(a[1])
            lo, c = self.sum(x, y)
            hi, o = self.sum(h, g, c)
            r = hi, lo
        elif v.op == "lshr" and a[1] == 64:
            r = K(0), self.wide(a[0])[0]
        elif v.op == "shl" and a[1] == 64:
            r = self.wide(a[0])[1], K(0)
        else:
            raise Unsupported("128-bit term " + v.op)
        self.memo[k] = r
        return r

    def carry(self, c):
        """(a + b) < a as the carry of a + b"""
        if c.op == "ult" and isinstance(c.args[0], T) and c.args[0].op == "add" and any(c.args[1] is z or c.args[1] == z for z in c.args[0].args):
            x, y = c.args[0].args
            return self.sum(self.val(x), self.val(y))[1]
        raise Unsupported("word term of a condition")

    def event(self, kind, ins, a, b):
        ws = [self.val(x) for x in ins]
        if kind == "Mul64":
            h, l = self.ctx.mul(*ws)
            self.env[a.id], self.env[b.id] = h, l
            return
        if len(ws) == 3 and ws[2].isconst() and ws[2].lo == 0:
            ws = ws[:2]
        elif len(ws) == 3 and ws[2].hi > 1 and self.ctx.bounds(ws[2].p)[1] > 1:
            raise Violation("carry argument of %s can exceed 1" % kind)
        r, c = (self.ctx.addc if kind == "Add64" else self.ctx.subb)(*ws)
        for w in ws[:2]:
            w.used = True
        self.env[a.id], self.env[b.id] = r, c
        if not c.isconst():
            self.flags.append(c)


def narrow(rp, lits, iv):
    """word intervals implied by the branch decisions; False when the path is impossible"""
    for _ in range(2):
        for c, val in lits:
            if c.op == "not":
                c, val = c.args[0], not val
            if c.op in ("ult", "ule", "eq"):
                a, b = c.args
                x, y = (a, b) if isinstance(a, T) else (b, a)
                if not isinstance(x, T) or isinstance(y, T) or x.id not in rp.env:
                    continue
                lo, hi = iv.get(x.id, (rp.env[x.id].lo, rp.env[x.id].hi))
                if c.op == "eq":
                    if val:
                        lo, hi = max(lo, y), min(hi, y)
                    elif lo == y:
                        lo += 1
                    elif hi == y:
                        hi -= 1
                else:
                    s = 0 if c.op == "ule" else 1
                    if x is a:          # x < y
                        if val:
                            hi = min(hi, y - s)
                        else:
                            lo = max(lo, y + 1 - s)
                    else:               # y < x
                        if val:
                            lo = max(lo, y + s)
                        else:
                            hi = min(hi, y - 1 + s)
                if lo > hi:
                    return False
                iv[x.id] = (lo, hi)
    return True


def facts(rp, ctx, groups, iv):
    """turn the narrowed words of a 6-word number into a bound on the number"""
    for ws in groups:
        if not any(isinstance(x, T) and x.id in iv for x in ws):
            continue
        lo = hi = 0
        words = [rp.val(x) for x in ws]
        for i, (x, wd) in enumerate(zip(ws, words)):
            l, h = iv.get(x.id, (wd.lo, wd.hi)) if isinstance(x, T) else (wd.lo, wd.hi)
            lo += l << (64 * i)
            hi += h << (64 * i)
        V = c_limb.expand(ctx, wi.value(words))
        l2, h2 = ctx.bounds(V)
        lo, hi = max(lo, l2), min(hi, h2)
        if lo > hi:
            return False
        if V.isconst():
            continue
        if len(V.d) == 1 and list(V.d.values()) == [1]:
            a = next(iter(V.d))
            if len(a) == 1:
                x, y = ctx.rng[a[0]]
                ctx.rng[a[0]] = (max(x, lo), min(y, hi))
                if ctx.rng[a[0]][0] > ctx.rng[a[0]][1]:
                    return False
                continue
        tot, a = ctx.atom(lo, hi, "V")
        q = V - tot
        for at in sorted(q.atoms() - {a}, reverse=True):
            if [m for m in q.d if at in m] == [(at,)]:
                r = Poly({m: v for m, v in q.d.items() if m != (at,)}).scale(-1 / q.d[(at,)])
                ctx.eqs = [(b, ctx.subst(x, at, r)) for b, x in ctx.eqs] + [(at, r)]
                ctx.groups = [(b, ctx.subst(x, at, r)) for b, x in ctx.groups if b != at]
                break
    return True


SPEC = {"_add": (2, c_limb.ADDB), "_double": (1, [(k,) for k in (1, 2, 3, 4)]), "_subtract": (2, [(k, 1) for k in range(1, 10)]),
        "_ladd": (2, c_limb.ADDB), "_ldouble": (1, [(k,) for k in (1, 2, 3, 4)]), "_lsubtract": (2, [("raw", "le")]),
        "_negate": (1, [(1,)]), "_multiply": (2, [b for b in c_limb.MULB if b[1] != "raw" and b[1] <= 7]), "_square": (1, [(1,), (2,), (3,)])}


def one(e, nm, fn, pat, bs, rep):
    t0 = time.time()
    tag = "portable, %s, bounds %s" % ("distinct" if len(set(pat)) == len(pat) else "alias" + "".join(map(str, pat)), ",".join(map(str, bs)))
    full = "bls12_381::%s(%s) [portable]" % (nm, ", ".join([FP] + [CFP] * (len(pat) - 1)))
    st = e.base.copy()
    obj, xs = {}, {}
    for q in pat:
        if q not in obj:
            obj[q] = st.new(48, "arg%d" % q, "arg")
    bnd = {}
    for q, b in zip(pat[1:], bs):
        bnd.setdefault(q, b)
    for q in bnd:
        xs[q] = [t.var("x%d_%d" % (q, i), 64) for i in range(6)]
        for i in range(6):
            st.store(Ptr(obj[q].obj, 8 * i), 8, xs[q][i])
    e.exclude, e.merge, e.throws = set(), False, []
    e.used, e.inlined = set(), set()
    try:
        outs = e.run(fn, st, [obj[q] for q in pat])
    except Violation as v:
        rep.add(full, tag + ": safe execution", False, "symexec", time.time() - t0, str(v))
        return
    n = 0
    for k, (s, _) in enumerate(outs):
        ctx = Ctx()
        vals = {}
        ordr = list(bnd)
        if nm == "_lsubtract" and len(ordr) == 2:
            yw, Y = c_limb.setup(ctx, "y", "le")
            dW, _a = ctx.atom(0, TOP - 1, "D")
            xw = [ctx.word(name="x%d" % i) for i in range(6)]
            ctx.group(xw, Y + dW)
            vals = {pat[1]: (xw, Y + dW), pat[2]: (yw, Y)}
        else:
            for i, q in enumerate(ordr):
                vals[q] = c_limb.setup(ctx, "xy"[i], bnd[q] if bnd[q] != "le" else "raw")
        env = {}
        for q in ordr:
            for i in range(6):
                env[xs[q][i].id] = vals[q][0][i]
        rp = Replay(ctx, env)
        for ev in s.ghost.get("ev", ()):
            rp.event(*ev)
        iv = {}
        if not narrow(rp, s.pc, iv):
            continue
        res = []
        for i in range(6):
            res.append(s.load(Ptr(obj[pat[0]].obj, 8 * i), 8))
        groups = [xs[q] for q in ordr]
        if all(isinstance(r, T) for r in res):
            groups.append(res)
        sub = [ev for ev in s.ghost.get("ev", ()) if ev[0] == "Sub64"]
        for i in range(len(sub) - 5):
            w6 = sub[i:i + 6]
            if [v[1][1] for v in w6] == ML:
                groups.append([v[1][0] for v in w6])
        # "not all words zero"
        for c, val in s.pc:
            if not val and c.op == "and":
                cj = []
                ex.conjuncts(c, cj)
                for q in ordr:
                    if len(cj) == 6 and all(x.op == "eq" and x.args[0] in xs[q] and x.args[1] == 0 for x in cj) and len({x.args[0].id for x in cj}) == 6:
                        a = next(iter(vals[q][1].d))[0]
                        ctx.rng[a] = (max(1, ctx.rng[a][0]), ctx.rng[a][1])
        plain = ctx.copy()
        if not facts(rp, ctx, groups, iv):
            continue
        live = True
        # branch decisions on carries
        for c, val in s.pc:
            if c.op == "eq" and isinstance(c.args[0], T) and isinstance(c.args[1], int) and c.args[0].id in rp.env:
                f = rp.env[c.args[0].id]
                if any(f is g for g in rp.flags):
                    f.used = True
                    v = c.args[1] if val else 1 - c.args[1]
                    if v not in (0, 1) or not ctx.assume_zero(f.p - CC(v)) or not plain.assume_zero(f.p - CC(v)):
                        live = False
        if not live:
            continue
        X = vals[pat[1]][1]
        Y = vals[pat[2]][1] if len(pat) > 2 else X
        cases = [(ctx, plain)]
        for f in rp.flags:
            if f.isconst() or f.used:
                continue
            nxt = []
            for a, b in cases:
                for v in (0, 1):
                    a2, b2 = a.copy(), b.copy()
                    if a2.assume_zero(f.p - CC(v)) and b2.assume_zero(f.p - CC(v)):
                        nxt.append((a2, b2))
            cases = nxt
            if len(cases) > 64:
                raise Unsupported("too many discarded carries")
        for c, c0 in cases:
            n += 1
            nn = {"_negate": "__negate", "_square": "_square"}.get(nm, nm)
            if nm == "_negate":
                V = c_limb.expand(c, wi.value([rp.val(x) for x in res]))
                d = c_limb.expand(c, V + X)
                z = c.bounds(X)[1] == 0
                rep.add(full, tag + " path%d: result = -x (mod p)" % k, (d.isconst() and d.const() in (0, P)) or (z and c.bounds(V) == (0, 0)), "word polynomials", time.time() - t0, repr(d.d)[:200])
                rep.add(full, tag + " path%d: result < p" % k, c_limb.in_range(c, V, P - 1), "interval arithmetic", 0)
                continue
            c_limb.post(nn, bs, c, [rp.val(x) for x in res], X, Y, rep, full, tag + " path%d" % k, t0, c0)
        for q in ordr:
            if q != pat[0]:
                same = all(s.load(Ptr(obj[q].obj, 8 * i), 8) is xs[q][i] for i in range(6))
                rep.add(full, tag + " path%d: operand unchanged" % k, same, "symexec", 0)
    if not n:
        rep.add(full, tag + ": returns", False, "symexec", 0, "no feasible path")


def bounds_for(nm, pat, bounds):
    if nm == "_multiply" and len(set(pat)) < 3:
        return [b for b in bounds if b in ((1, 1), (3, 3), (2, 4), (1, 7))]
    if nm in ("_add", "_ladd"):
        return [b for b in bounds if b[0] <= b[1] or b in ((8, 1), (5, 4))] if len(set(pat)) == 3 else [b for b in bounds if b in ((1, 1), (4, 4), (1, 8))]
    return bounds


def make(nm):
    arity, bounds = SPEC[nm]

    def go(_e, rep):
        e = executor()
        fn = e.find("bls12_381::%s(%s)" % (nm, ", ".join([FP] + [CFP] * arity)))
        if fn is None:
            rep.add(nm + " [portable]", "function present", verify.UNKNOWN, "extract")
            return
        for pat in ([(0, 1), (0, 0)] if arity == 1 else [(0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0)]):
            for bs in bounds_for(nm, pat, bounds):
                if arity == 2 and pat[1] == pat[2] and bs[0] != bs[1]:
                    continue
                one(e, nm, fn, pat, bs, rep)
    return go


for _nm in SPEC:
    props.extra("C01", _nm + " [portable]")(make(_nm))


def prim(kind):
    """Add64 / Sub64 / Mul64 against their bodies: exact for all 64-bit operands and carry <= 1"""
    def go(_e, rep):
        e = executor()
        name = CT[kind].name
        fn = e.find(name)
        if fn is None:
            rep.add(name, "function present", verify.UNKNOWN, "extract")
            return
        x, y = t.var("x", 64), t.var("y", 64)
        c = t.zext(t.var("c", 1), 1, 64)
        vals = [x, y, c][:2 if kind == "Mul64" else 3]
        st = e.base.copy()
        out = st.new(16, "ret", "arg")
        ps = []
        for v in vals:
            p = st.new(8, "a", "arg")
            st.store(p, 8, v)
            ps.append(p)
        e.exclude, e.merge, e.throws, e.used, e.inlined = {name}, False, [], set(), set()
        t0 = time.time()
        try:
            res = e.run(fn, st, [out] + ps)
        except Violation as v:
            rep.add(name, "safe execution", False, "symexec", time.time() - t0, str(v))
            return
        finally:
            e.exclude = set()
        for k, (s, _) in enumerate(res):
            a, b = s.load(Ptr(out.obj, 8), 8), s.load(out, 8)
            X, Y = t.zext(x, 64, 128), t.zext(y, 64, 128)
            if kind == "Mul64":
                pr = t.mul(X, Y, 128)
                want = (t.trunc(t.lshr(pr, 64, 128), 128, 64), t.trunc(pr, 128, 64))
            else:
                Cx = t.zext(c, 64, 128)
                r = t.add(t.add(X, Y, 128), Cx, 128) if kind == "Add64" else t.sub(t.sub(X, Y, 128), Cx, 128)
                want = (t.trunc(r, 128, 64), t.trunc(t.and_(t.lshr(r, 64, 128), 1, 128), 128, 64))
            for nm, g, w_ in (("first", a, want[0]), ("second", b, want[1])):
                ok, d, be = smt.equal(g, w_, 64, s.pc)
                rep.add(name, "path%d: %s component" % (k, nm), ok, be, time.time() - t0, d)
    return go


for _k in CT:
    props.extra("C01", CT[_k].name)(prim(_k))
    props.extra("C15", CT[_k].name)(prim(_k))
C = {}


# the multiply-accumulate helpers: name -> (number of operands, words returned, value); madd0 returns the upper word
# requires d <= 1 in madd1s and madd2s (it is passed on as a carry; the callers are checked to satisfy it)
BITOP = {"madd2s": 3, "madd1s": 2}
MADD = {
    "madd": (5, 3, lambda a, b, t_, u, v: (a * b, v, (u, 1), (t_, 2))),
    "madd0": (3, 1, lambda a, b, c: (a * b, c)),
    "madd1": (3, 2, lambda a, b, c: (a * b, c)),
    "madd2": (4, 2, lambda a, b, c, d: (a * b, c, d)),
    "madd2s": (5, 3, lambda a, b, c, d, e: (a * b, a * b, c, e, (d, 1))),
    "madd1s": (4, 3, lambda a, b, d, e: (a * b, a * b, e, (d, 1))),
    "madd2sb": (4, 3, lambda a, b, c, e: (a * b, a * b, c, e)),
    "madd1sb": (3, 3, lambda a, b, e: (a * b, a * b, e)),
    "madd3": (5, 2, lambda a, b, c, d, e: (a * b, c, d, (e, 1))),
}


def concrete(evs, names, vals, res):
    """the same events on numbers"""
    env = {t.var(n, 64).id: v for n, v in zip(names, vals)}

    def ev(x):
        if isinstance(x, int):
            return x
        if x.id in env:
            return env[x.id]
        return t.evaluate(x, env)
    for kind, ins, a, b in evs:
        i = [ev(x) for x in ins]
        if kind == "Mul64":
            env[a.id], env[b.id] = i[0] * i[1] >> 64, i[0] * i[1] % W64
        else:
            s = i[0] + i[1] + i[2] if kind == "Add64" else i[0] - i[1] - i[2]
            env[a.id], env[b.id] = s % W64, abs(s // W64)
    return [ev(x) for x in res]


def madd(nm):
    """the words returned, put together, are the exact value (modulo 2^(64 * words)); for madd0 the upper word of it"""
    ar, nw, spec = MADD[nm]

    def go(_e, rep):
        import random
        e = executor()
        name = "bls12_381::%s(%s)" % (nm, ", ".join([U] * ar))
        fn = e.find(name)
        if fn is None:
            rep.add(name, "function present", verify.UNKNOWN, "extract")
            return
        t0 = time.time()
        names = ["m%d" % i for i in range(ar)]
        xs = [t.var(n, 64) for n in names]
        st = e.base.copy()
        ps = []
        for x in xs:
            p = st.new(8, "a", "arg")
            st.store(p, 8, x)
            ps.append(p)
        out = st.new(8 * nw, "ret", "arg") if nw > 1 else None
        e.exclude, e.merge, e.throws, e.used, e.inlined = set(), False, [], set(), set()
        try:
            res = e.run(fn, st, ([out] if out else []) + ps)
        except Violation as v:
            rep.add(name, "safe execution", False, "symexec", time.time() - t0, str(v))
            return
        if len(res) != 1:
            raise Unsupported("several paths")
        s, rv = res[0]
        got = [s.load(Ptr(out.obj, 8 * i), 8) for i in range(nw)] if out else [rv]
        evs = s.ghost.get("ev", ())
        ctx = Ctx()
        ws = [ctx.word(0, 1) if BITOP.get(nm) == i else ctx.word() for i, _ in enumerate(xs)]
        rp = Replay(ctx, {x.id: w for x, w in zip(xs, ws)})
        for v in evs:
            rp.event(*v)
        V = wi.value([rp.val(x) for x in got])
        want = Poly()
        for y in spec(*[w.p for w in ws]):
            y, k = y if isinstance(y, tuple) else (y, 0)
            want = want + y.scale(1 << (64 * k))
        cases = [ctx]
        for f in rp.flags:
            if f.isconst() or f.used:
                continue
            nxt = []
            for c in cases:
                for v in (0, 1):
                    c2 = c.copy()
                    if c2.assume_zero(f.p - CC(v)):
                        nxt.append(c2)
            cases = nxt
            if len(cases) > 64:
                raise Unsupported("too many discarded carries")
        good = True
        for c in cases:
            if nw == 1:
                d = c.norm(want - V.scale(W64))
                lo, hi = c.bounds(d)
                good = good and lo >= 0 and hi < W64
            else:
                d = c.norm(want - V)
                good = good and d.isconst() and d.const() % (1 << (64 * nw)) == 0
        det = ""
        if not good:
            rnd = random.Random(1)
            good = verify.UNKNOWN
            for _ in range(20000):
                v = [rnd.choice([rnd.getrandbits(64), W64 - 1 - rnd.getrandbits(2), rnd.getrandbits(2), 1 << rnd.randrange(64)]) for _ in xs]
                if nm in BITOP:
                    v[BITOP[nm]] &= 1
                w = 0
                for y in spec(*v):
                    y, k = y if isinstance(y, tuple) else (y, 0)
                    w += y << (64 * k)
                g = concrete(evs, names, v, got)
                if (g[0] != w >> 64 & (W64 - 1)) if nw == 1 else sum(q << (64 * i) for i, q in enumerate(g)) != w % (1 << (64 * nw)):
                    good, det = False, "counterexample: " + ", ".join(map(hex, v))
                    break
        rep.add(name, "upper word of the exact value" if nw == 1 else "%d words hold the exact value" % nw, good, "word polynomials", time.time() - t0, det)
    return go


for _nm in MADD:
    props.extra("C15", _nm)(madd(_nm))
