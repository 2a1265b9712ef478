"""Square-and-multiply exponentiation and double-and-add scalar multiplication, for every exponent: loop invariants
over the bits of the exponent."""
import re, time
import z3
from . import term as t, field as fl, exec as ex, ref, verify, smt, loopcut
from .exec import Ptr, Violation, Infeasible, Contract
from .ir import Unsupported
from .term import T, mk
from .grp import G1, G2, SORT, PSIZE, NF, base, read_point, write_nf, as_point, read_coords, Lin, lmul
C = {}
B = "bls12_381::"


def reg(c):
    C[c.name] = c
    return c


def arr(n):
    return "std::array<unsigned long, %dul> const&" % n


def cat(enc, ws):
    v = [enc.e(w, 64) if isinstance(w, T) else z3.BitVecVal(w, 64) for w in reversed(ws)]
    return z3.Concat(*v) if len(v) > 1 else v[0]


def words(st, p, n):
    return [st.load(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8) for i in range(n)]


class BitLength(Contract):
    """position of the highest set bit plus one; 0 for 0"""
    home = "C15"

    def __init__(self, n):
        self.n = n
        self.name = "unsigned long %sscalar::bitLength<%dul>(%s)" % (B, n, arr(n))

    def apply(self, exr, st, args, I):
        ws = words(st, args[0], self.n)
        if all(isinstance(w, int) for w in ws):
            return [(st, sum(w << (64 * i) for i, w in enumerate(ws)).bit_length())]
        if not all(isinstance(w, (int, T)) for w in ws):
            raise Violation("bitLength of uninitialised words", st)
        L = mk("bitlen", tuple(ws), 64)
        st.assume(t.ule(L, 64 * self.n, 64))
        return [(st, L)]

    def verify(self, exr, rep):
        from .c_code import run, frame
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        st = exr.base.copy()
        p = st.new(8 * self.n, "s", "arg")
        ws = [t.var("s%d" % i, 64) for i in range(self.n)]
        for i, w in enumerate(ws):
            st.store(Ptr(p.obj, 8 * i), 8, w)
        before = st.copy()
        res = run(exr, rep, self.name, fn, st, [p])
        for k, (s, rv) in enumerate(res or []):
            t0 = time.time()
            enc = smt.Enc()
            W = 64 * self.n
            X = cat(enc, ws)
            r = enc.e(rv, 64) if isinstance(rv, T) else z3.BitVecVal(rv, 64)
            sol = z3.Solver()
            sol.set("timeout", 60000)
            for c, val in s.pc:
                sol.add(enc.e(c, 1) == (1 if val else 0))
            R = z3.ZeroExt(W - 64, r) if W > 64 else r
            one = z3.BitVecVal(1, W)
            g = z3.And(z3.ULE(r, W), z3.Or(r == W, z3.LShR(X, R) == 0), z3.Implies(r == 0, X == 0), z3.Implies(r != 0, z3.LShR(X, R - 1) & 1 == one))
            sol.add(z3.Not(g))
            q = sol.check()
            rep.add(self.name, "result is the bit length (path %d)" % k, True if q == z3.unsat else False if q == z3.sat else verify.UNKNOWN, "z3 bit-vectors", time.time() - t0)
            frame(rep, self.name, before, s, set(), "path %d" % k)


for n in (1, 2, 4, 6, 8):
    reg(BitLength(n))


def has(x, L, memo):
    if not isinstance(x, T):
        return False
    if x is L:
        return True
    v = memo.get(x.id)
    if v is None:
        memo[x.id] = v = any(has(a, L, memo) for a in x.args if isinstance(a, T))
    return v


class BitLoop(loopcut.Cut):
    """Bits of s from the top (acc = op(s >> pos)) or from the bottom (acc = op(s mod 2^pos)); one bit per iteration.

    sub-classes give the meaning of the accumulator."""

    def __init__(self, exr, ws, rep, name):
        super().__init__(exr)
        self.ws, self.rep, self.name = ws, rep, name
        self.N = 64 * len(ws)
        self.seen = {}
        self.count = 0

    def match(self, f, st, env, blk):
        return True

    def hook(self, f, st, env, blk, isback):
        if self.trial is None and isback and self.active and self.active[0] == (f.name, blk, len(self.exr.stack)):
            return self.step(f, st, env)
        return super().hook(f, st, env, blk, isback)

    def subst(self, st, env, L, v):
        memo, ev = {}, {L.id: v}
        def sub(x):
            if has(x, L, memo):
                return evalL(x, L, v)
            return x
        for oid, o in list(st.mem.items()):
            if any(has(x[1], L, memo) for x in o.cells.values()):
                o = st.wobj(Ptr(oid, 0))
                for off, c in list(o.cells.items()):
                    o.cells[off] = (c[0], sub(c[1])) + tuple(c[2:])
        for k in list(env):
            env[k] = sub(env[k])

    def enter(self, f, st, env, blk, changed):
        raise NotImplementedError

    def hook_entry(self, f, st, env, blk):
        pass

    def bit(self, k):
        w = self.ws[k // 64]
        return t.and_(t.lshr(w, k % 64, 64), 1, 64)

    def bitval(self, st, k):
        """the value of bit k on this path, or None"""
        extra = [(c, v) for c, v in st.pc if c not in self.base_lits]
        b = self.bit(k)
        if isinstance(b, int):
            return b
        for v in (0, 1):
            if smt.valid(t.eq(b, v, 64), extra)[0] is True:
                return v
        return None


def evalL(x, L, v):
    """rebuild x with L := v"""
    memo = {L.id: v}

    def go(y):
        if not isinstance(y, T):
            return y
        if y.id in memo:
            return memo[y.id]
        a = [go(z) for z in y.args]
        if y.op == "var" or not y.args:
            r = y
        elif all(p is q for p, q in zip(a, y.args)):
            r = y
        else:
            w = y.w
            fn = {"add": t.add, "sub": t.sub, "mul": t.mul, "and": t.and_, "or": t.or_, "lshr": t.lshr, "shl": t.shl}.get(y.op)
            if fn is None:
                raise Unsupported("loop bound expression " + y.op)
            r = fn(a[0], a[1], w)
        memo[y.id] = r
        return r
    return go(x)


class Loop(BitLoop):
    """driver shared by exponentiation and scaling: handles an initial counter that depends on bitLength(s)"""

    def hook(self, f, st, env, blk, isback):
        key = (f.name, blk, len(self.exr.stack))
        if self.trial is not None:
            return loopcut.Cut.hook(self, f, st, env, blk, isback)
        if isback:
            if self.active and self.active[0] == key:
                return self.step(f, st, env)
            return None
        if self.active is not None:
            return None
        L = mk("bitlen", tuple(self.ws), 64)
        memo = {}
        # a counter that starts from the bit length: find what the loop changes, with the bit length fixed for the trial
        s0, e0 = st.copy(), dict(env)
        sym = any(has(x[1], L, memo) for o in st.mem.values() for x in o.cells.values()) or any(has(v, L, memo) for v in env.values())
        if sym:
            self.subst(s0, e0, L, self.N)
        self.trial = (key, [])
        try:
            self.exr._loop_trial(f, s0.copy(), dict(e0), blk)
        finally:
            backs = self.trial[1]
            self.trial = None
        if not backs:
            return None
        objs, regs = set(), set()
        for s3, e3 in backs:
            for oid, o in s0.mem.items():
                o3 = s3.mem.get(oid)
                if o3 is not None and o3 is not o and o3.cells != o.cells:
                    objs.add(oid)
            for k, v in e3.items():
                if k in e0 and e0[k] is not v and e0[k] != v:
                    regs.add(k)
        symctr = any(has(x[1], L, memo) for oid in objs for x in st.mem[oid].cells.values()) or any(has(env[k], L, memo) for k in regs)
        self.active = (key,)
        self.changed, self.regs = objs, regs
        self.base_pc, self.base_lits, self.base_fk = list(st.pc), dict(st.lits), dict(st.fk)
        self.lobjs = [oid for oid, o in st.mem.items() if oid not in objs and any(has(x[1], L, memo) for x in o.cells.values())] if symctr else []
        self.lregs = [k for k, v in env.items() if k not in regs and has(v, L, memo)] if symctr else []
        self.setup(st)
        out = []
        for l in (range(self.N + 1) if symctr else [None]):
            s, e = st.copy(), dict(env)
            if l is not None:
                self.subst(s, e, L, l)
                for oid in self.lobjs:          # arbitrary from here on: the invariant does not mention it
                    o = s.wobj(Ptr(oid, 0))
                    for off, c in list(o.cells.items()):
                        o.cells[off] = (c[0], mk("var", ("any bit length",), c[0] * 8)) + tuple(c[2:])
                for k in self.lregs:
                    e[k] = mk("var", ("any bit length",), 64)
            r = self.start(s, e, l)
            out += r
        return out

    def control(self, st, env):
        k = []
        for oid in sorted(self.changed):
            o = st.mem[oid]
            if oid in self.accs or not self.h0[oid]:
                continue
            k.append((oid, tuple(sorted((off, c[1] if isinstance(c[1], int) else ("t", c[1].id if isinstance(c[1], T) else id(c[1]))) for off, c in o.cells.items()))))
        return tuple(k), tuple((r, env[r]) for r in sorted(self.regs))

    def norm(self, st):
        """forget what the previous iterations decided"""
        st.pc, st.lits, st.fk = list(self.base_pc), dict(self.base_lits), dict(self.base_fk)
        for oid in self.changed:
            if not self.h0[oid] and st.mem.get(oid) is not None and st.mem[oid].cells:
                st.wobj(Ptr(oid, 0)).cells.clear()
        for oid, cells in self.h0_all.items():
            if oid not in self.changed and oid not in self.lobjs and oid in st.mem and st.mem[oid].cells != cells:
                if not cells:
                    st.wobj(Ptr(oid, 0)).cells.clear()
                else:
                    raise Unsupported("the loop changes %s only sometimes" % oid)

    def frames(self, st):
        self.h0 = {oid: dict(st.mem[oid].cells) for oid in self.changed}
        self.h0_all = {oid: dict(o.cells) for oid, o in st.mem.items()}


class ExpLoop(Loop):
    def __init__(self, exr, ws, rep, name, x, sort, xptr):
        super().__init__(exr, ws, rep, name)
        self.x, self.sort, self.xptr = x, sort, xptr

    def setup(self, st):
        self.frames(st)
        self.accs = []
        for oid in self.changed:
            if st.mem[oid].size == ex.SIZES[self.sort] and st.mem[oid].cells:
                F = ex.read_el(st, Ptr(oid, 0), self.sort)
                if F is fl.one(self.sort) or verify.prove_eq(st, F, fl.one(self.sort))[0] is True:
                    self.accs.append(oid)
        if len(self.accs) != 1:
            raise Unsupported("exponentiation accumulator not recognised")
        self.cells = {}

    def acc(self, pos):
        return verify.symbol("acc%d" % pos, self.sort)

    def start(self, st, env, l):
        """acc = 1 = x^(s >> l) since the bits from l on are zero (bitLength), or l is the full width"""
        pos = self.N if l is None else l
        st.ghost["pos"] = pos
        return self.visit(st, env, pos, fl.one(self.sort) if pos == 0 else None)

    def visit(self, st, env, pos, val=None):
        self.norm(st)
        k = (pos, self.control(st, env))
        if k in self.seen:
            return []
        self.seen[k] = 1
        self.count += 1
        st.ghost = dict(st.ghost)
        st.ghost["pos"] = pos
        ex.write_el(st, Ptr(self.accs[0], 0), self.acc(pos))
        return [(st, env)]

    def step(self, f, st, env):
        pos = st.ghost["pos"] - 1
        if pos < 0:
            raise Violation("more iterations than bits", st)
        b = self.bitval(st, pos)
        if b is None:
            raise Unsupported("iteration does not depend on bit %d" % pos)
        y = self.acc(pos + 1)
        F = ex.read_el(st, Ptr(self.accs[0], 0), self.sort)
        want = fl.fsq(y)
        if b:
            want = fl.fmul(want, self.x)
        ok, d = verify.prove_eq(st, F, want)
        if ok is not True:
            raise Violation("loop invariant not preserved at bit %d = %d: %s" % (pos, b, d), st) if ok is False else Unsupported(d)
        return self.visit(st, env, pos)


def evalue(ws):
    return sum(w << (64 * i) for i, w in enumerate(ws))


CLS = {-1: "fp", -2: "fp2", -6: "fp6", -12: "fp12"}


class Exp(Contract):
    """x^s for the integer s of the words"""

    def __init__(self, sort, n, fname, home):
        self.sort, self.n, self.home = sort, n, home
        c = B + CLS[sort]
        self.cyc = fname.startswith("cyc")
        self.name = "%s %s::%s<%dul>(%s) const" % (c, c, fname, n, arr(n))

    def apply(self, exr, st, args, I):
        out, x, s = args
        X = ex.read_el(st, x, self.sort, "base of " + self.name)
        if self.cyc:
            need_cyclotomic(st, X, self.name)
        ws = words(st, s, self.n)
        if all(isinstance(w, int) for w in ws):
            v = fl.fpow(X, evalue(ws))
        elif all(isinstance(w, (int, T)) for w in ws):
            v = mk("fop", ("fpowv", X) + tuple(ws), self.sort)
        else:
            raise Violation("uninitialised exponent", st)
        ex.write_el(st, out, v)
        return [(st, None)]

    def verify(self, exr, rep):
        from .c_code import frame
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        x = verify.symbol("x", self.sort)
        px = st.new(ex.SIZES[self.sort], "x", "arg")
        ex.write_el(st, px, x)
        ps = st.new(8 * self.n, "s", "arg")
        ws = [t.var("s%d" % i, 64) for i in range(self.n)]
        for i, w in enumerate(ws):
            st.store(Ptr(ps.obj, 8 * i), 8, w)
        out = st.new(ex.SIZES[self.sort], "ret", "arg")
        if self.cyc:
            st.ghost["cyclo"] = True
        before = st.copy()
        cut = ExpLoop(exr, ws, rep, self.name, x, self.sort, px)
        t0 = time.time()
        exr.exclude, exr.merge, exr.throws, exr.used, exr.inlined = {self.name}, False, [], set(), set()
        exr.loop_hook = cut.hook
        try:
            res = exr.run(fn, st, [out, px, ps])
        finally:
            exr.loop_hook = None
            exr.exclude = set()
            rep.used |= exr.used
            rep.inlined |= exr.inlined
        if cut.active is None:
            raise Unsupported("no loop over the bits of the exponent")
        rep.add(self.name, "loop invariant acc = x^(s >> i) on entry and after each of the %d positions" % cut.count, True, "polynomial identity + z3", time.time() - t0)
        ok, why = bool(res), ""
        for s, rv in res:
            pos = s.ghost["pos"]
            F = ex.read_el(s, out, self.sort)
            g, d = verify.prove_eq(s, F, cut.acc(pos))
            if pos != 0 or g is not True:
                ok, why = False, "stops with %d bits left; %s" % (pos, d)
        rep.add(self.name, "result = x^s (%d exits)" % len(res), ok, "polynomial identity", 0, why)
        frame(rep, self.name, before, res[0][0], {out.obj}, "frame")


def need_cyclotomic(st, X, fn):
    pass


for sort, ns in ((-1, (1, 4, 6)), (-2, (1, 6)), (-6, (1, 6)), (-12, (1, 4, 6))):
    for n in ns:
        reg(Exp(sort, n, "exp", "C02"))
for n in (1, 4):
    reg(Exp(-12, n, "cyclotomicExp", "C03"))


# ---- scalar multiplication -------------------------------------------------------------------

class ScaleLoop(Loop):
    """acc = (s mod 2^pos) * P, n = 2^pos * P"""

    def __init__(self, exr, ws, rep, name, g, P0):
        super().__init__(exr, ws, rep, name)
        self.g, self.P0 = g, P0

    def accb(self, pos):
        return base(self.g, "Q%d" % pos)

    def pts(self, st):
        return [oid for oid in self.changed if st.mem[oid].size == PSIZE[self.g] and st.mem[oid].cells]

    def setup(self, st):
        self.frames(st)
        self.accs = []
        self.msb = False
        for oid in self.changed:
            if st.mem[oid].size == PSIZE[self.g] and st.mem[oid].cells:
                n = read_point(st, self.g, Ptr(oid, 0))
                if n.iszero():
                    self.accs.append(oid)
                elif n.key() == self.P0.key():
                    self.accs.append(oid)
                else:
                    raise Unsupported("loop point not recognised")
        zeros = [o for o in self.accs if read_point(st, self.g, Ptr(o, 0)).iszero()]
        if len(zeros) != 1:
            raise Unsupported("scalar multiplication accumulator not recognised")
        self.acc_id = zeros[0]
        self.msb = len(self.accs) == 1

    def start(self, st, env, l):
        pos = 0 if not self.msb else self.N if l is None else l
        return self.visit(st, env, pos)

    def visit(self, st, env, pos):
        self.norm(st)
        k = (pos, self.control(st, env))
        if k in self.seen:
            return []
        self.seen[k] = 1
        self.count += 1
        st.ghost = dict(st.ghost)
        st.ghost["pos"] = pos
        for o in self.accs:
            b = self.accb(pos)
            write_nf(st, self.g, Ptr(o, 0), NF(self.g, {(b, 0): 1}) if o == self.acc_id else self.P0.scale(1 << pos))
        return [(st, env)]

    def step(self, f, st, env):
        pos = st.ghost["pos"]
        b0 = NF(self.g, {(self.accb(pos), 0): 1})
        npos = pos - 1 if self.msb else pos + 1
        if npos < 0 or npos > self.N:
            raise Violation("more iterations than bits", st)
        b = self.bitval(st, npos if self.msb else pos)
        if b is None:
            raise Unsupported("iteration does not depend on bit")
        for o in self.accs:
            got = read_point(st, self.g, Ptr(o, 0))
            if o == self.acc_id:
                want = b0.scale(2) + self.P0.scale(b) if self.msb else b0 + self.P0.scale(b << pos)
            else:
                want = self.P0.scale(1 << npos)
            if got.key() != want.key():
                raise Violation("loop invariant not preserved at bit %d = %d" % (pos, b), st)
        return self.visit(st, env, npos)


def coef(st, p, n=4):
    """the scalar at p as a coefficient"""
    ws = words(st, p, n)
    if all(isinstance(w, int) for w in ws):
        return evalue(ws)
    if all(isinstance(w, (int, T)) for w in ws):
        return Lin(0, {mk("zwords", tuple(ws), 1): 1})
    raise Violation("uninitialised scalar", st)


class Scale(Contract):
    """s * P in the group, for every point of the curve and every s"""
    home = "C06"

    def __init__(self, g, n):
        self.g, self.n = g, n
        c = B + {G1: "g1", G2: "g2"}[g]
        self.name = "%s %s::scale<%dul>(%s) const" % (c, c, n, arr(n))

    def apply(self, exr, st, args, I):
        out, p, s = args
        P0 = read_point(st, self.g, p, self.name)
        write_nf(st, self.g, out, P0.scale(coef(st, s, self.n)))
        return [(st, None)]

    def verify(self, exr, rep):
        from .c_code import frame
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        fl.reset()
        st = exr.base.copy()
        b = base(self.g, "P")
        P0 = NF(self.g, {(b, 0): 1})
        px = st.new(PSIZE[self.g], "P", "arg")
        from .grp import pco, write_coords
        write_coords(st, self.g, px, tuple(pco(b, k) for k in range(3)))
        ps = st.new(8 * self.n, "s", "arg")
        ws = [t.var("s%d" % i, 64) for i in range(self.n)]
        for i, w in enumerate(ws):
            st.store(Ptr(ps.obj, 8 * i), 8, w)
        out = st.new(PSIZE[self.g], "ret", "arg")
        before = st.copy()
        cut = ScaleLoop(exr, ws, rep, self.name, self.g, P0)
        t0 = time.time()
        exr.exclude, exr.merge, exr.throws, exr.used, exr.inlined = {self.name}, False, [], set(), set()
        exr.loop_hook = cut.hook
        try:
            res = exr.run(fn, st, [out, px, ps])
        finally:
            exr.loop_hook = None
            exr.exclude = set()
            rep.used |= exr.used
            rep.inlined |= exr.inlined
        if cut.active is None:
            raise Unsupported("no loop over the bits of the scalar")
        rep.add(self.name, "loop invariant acc = (bits seen) * P on entry and after each of the %d positions" % cut.count, True, "group normal form + z3", time.time() - t0)
        ok, why = bool(res), ""
        L = mk("bitlen", tuple(ws), 64)
        for s, rv in res:
            pos = s.ghost["pos"]
            got = read_point(s, self.g, out)
            if got.key() != NF(self.g, {(cut.accb(pos), 0): 1}).key():
                ok, why = False, "returns something else after %d iterations" % pos
                continue
            if cut.msb:
                if pos:
                    ok, why = False, "stops with %d bits left" % pos
            elif pos < cut.N and smt.valid(t.ule(L, pos, 64), s.pc)[0] is not True:
                ok, why = False, "stops after %d bits although more may be set" % pos
        rep.add(self.name, "result = s * P (%d exits)" % len(res), ok, "group normal form + z3", 0, why)
        frame(rep, self.name, before, res[0][0], {out.obj}, "frame")


for n in (1, 2, 4, 6):
    reg(Scale(G1, n))
for n in (1, 2, 4, 8):
    reg(Scale(G2, n))
