"""Multi-word division (bn_divn_low and the word helpers it uses), for every dividend and divisor.

The helpers are proved on bit-vectors or, where they multiply, on exact integers.  bn_divn_low is executed with the
helpers replaced by their contracts; words are integers, products of a quotient digit with a divisor word are
monomials, and every condition is linear in them.  The loop over quotient digits is cut at its header: between two
visits  A_before = digit * M * B^k + A_after  and  A_after < M * B^k.
"""
import time
from math import gcd
import z3
from . import term as t, smt, verify, ref, props, field as fl, exec as ex
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
B_ = 1 << 64
NS = "bls12_381::"
C = {}


def reg(c):
    C[c.name] = c
    return c


# ---------------------------------------------------------------- polynomials over integer atoms
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pc(k):
    return {(): k} if k else {}


def pat(a):
    return {(a,): 1}


RNG = {}          # atom -> (lo, hi)


def arange(a):
    return RNG.get(a, (0, B_ - 1))


def prange(p):
    lo = hi = 0
    for m, c in p.items():
        l = h = 1
        for a in m:
            x, y = arange(a)
            l, h = l * x, h * y
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def monos(ps):
    return frozenset(m for p in ps for m in p if m)


class F:
    """a condition over integers: a tree of and / or over  poly <= 0;  m: the monomials in it"""
    __slots__ = ("k", "a", "m", "id", "zi", "zr")
    tab = {}

    def __new__(cls, k, *a):
        key = (k,) + tuple(x.id if isinstance(x, F) else x for x in a)
        f = cls.tab.get(key)
        if f is None:
            f = object.__new__(cls)
            f.k, f.a, f.id = k, a, len(cls.tab)
            f.zi = f.zr = None
            f.m = monos([dict(a[0])]) if k == "le" else frozenset(m for x in a for m in x.m)
            cls.tab[key] = f
        return f


TRUE, FALSE = F("and"), F("or")


def le(a, b):
    """a <= b"""
    p = padd(a, b, -1)
    if not p or set(p) == {()}:
        return TRUE if p.get((), 0) <= 0 else FALSE
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, c)
    k = -(-p.get((), 0) // g)           # sum of multiples of g plus c <= 0
    q = {m: c // g for m, c in p.items() if m}
    if k:
        q[()] = k
    return F("le", tuple(sorted(q.items())))


def ge(a, b):
    return le(b, a)


def lt(a, b):
    return le(padd(a, pc(1)), b)


def And(*fs):
    return F("and", *fs)


def Or(*fs):
    return F("or", *fs)


def eq(a, b):
    return And(le(a, b), le(b, a))


def Not(f):
    if f.k == "le":
        return lt({}, dict(f.a[0]))
    return F("or" if f.k == "and" else "and", *[Not(x) for x in f.a])


def Ite(c, x, y):
    return And(Or(Not(c), x), Or(c, y))


def zx(p, mk):
    return z3.Sum([c * mk("*".join(m)) if m else c * mk(None) for m, c in p]) if len(p) > 1 else p[0][1] * mk("*".join(p[0][0]) if p[0][0] else None)


def _int(n):
    return z3.Int(n) if n is not None else z3.IntVal(1)


def _real(n):
    return z3.Real(n) if n is not None else z3.RealVal(1)


def z(f, real):
    r = f.zr if real else f.zi
    if r is None:
        if f.k == "le":
            r = zx(f.a[0], _real if real else _int) <= 0
        else:
            r = (z3.And if f.k == "and" else z3.Or)([z(x, real) for x in f.a])
        if real:
            f.zr = r
        else:
            f.zi = r
    return r


def boundsof(ms):
    out = []
    todo = set(ms)
    done = set()
    while todo:
        m = todo.pop()
        if m in done:
            continue
        done.add(m)
        v = {m: 1}
        l = h = 1
        for a in m:
            l, h = l * arange(a)[0], h * arange(a)[1]
        out += [ge(v, pc(l)), le(v, pc(h))]
        if len(m) > 1:
            for i in range(len(m)):
                r = m[:i] + m[i + 1:]
                lo, hi = arange(m[i])
                out += [ge(v, {r: lo} if lo else {}), le(v, {r: hi})]
                todo.add(r)
    return out


_cache = {}
STAT = {"real": 0, "int": 0, "no": 0, "unk": 0, "t": 0.0}


def facts(st):
    return st.ghost.get("dz", ())


def fact(st, *fs):
    st.ghost["dz"] = facts(st) + fs


MODE = {"real": False}     # feasibility of helper outcomes over the rationals only (enough for constant divisors)


def check(st, goal, timeout=30000, real=False):
    """True / False (model) / None: does the goal follow from the facts of the state?"""
    pf = pcfacts(st)
    fs = facts(st) + pf
    key = (tuple(f.id for f in fs), goal.id, real, timeout)
    if key in _cache:
        return _cache[key]
    ms = set(goal.m)
    for f in fs:
        ms |= f.m
    todo, seen, ds = list(ms), set(), []
    while todo:
        for a in todo.pop():
            f = DEF.get(a)
            if f is not None and a not in seen:
                seen.add(a)
                ds.append(f)
                todo += [m for m in f.m if m not in ms]
                ms |= f.m
    al = boundsof(ms) + list(fs) + ds + [Not(goal)]
    t0 = time.time()
    r = None
    STAT["n"] = STAT.get("n", 0) + 1
    # over the rationals first: strictness is already expressed by + 1
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", timeout)
    for f in al:
        s.add(z(f, True))
    q = s.check()
    STAT["tr"] = STAT.get("tr", 0) + time.time() - t0
    STAT["nf"] = STAT.get("nf", 0) + len(al)
    if q == z3.unsat:
        r = True
        STAT["real"] += 1
    elif real:
        STAT["no"] += 1
    else:
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", timeout)
        for f in al:
            s.add(z(f, False))
        q = s.check()
        r = True if q == z3.unsat else False if q == z3.sat else None
        STAT["int" if r else "no" if r is False else "unk"] += 1
    STAT["t"] += time.time() - t0
    _cache[key] = r
    return r


_n = [0]


def newatom(name, lo=0, hi=B_ - 1):
    _n[0] += 1
    a = "%s!%d" % (name, _n[0])
    RNG[a] = (lo, hi)
    return a


def newword(name):
    """a fresh 64-bit term and its atom"""
    x = t.fresh(name, 64)
    return x


def atom(x):
    a = "t%d" % x.id
    if x.w != 64 and a not in RNG:
        RNG[a] = (0, (1 << x.w) - 1)
    return a


_defs = {}        # terms that are not polynomials: the atom standing for them
DEF = {}          # atom -> fact defining it, valid in every state


def iv(x, w, st):
    """integer value of a word term as a polynomial"""
    if isinstance(x, int):
        return pc(x)
    if not isinstance(x, T):
        raise Unsupported("operand is not an integer: %r" % (x,))
    loc = st.ghost.get("div", {})
    if x.id in loc:
        return loc[x.id]
    if x.id in _defs:
        return _defs[x.id]
    op = x.op

    def wrap(p, w):
        """p mod 2^w"""
        lo, hi = prange(p)
        if lo >= 0 and hi < 1 << w:
            return p
        if lo >= 0 or check(st, ge(p, {}), real=True):
            if hi < 1 << w or check(st, lt(p, pc(1 << w)), real=True):
                r = p
                loc = dict(st.ghost.get("div", {}))
                loc[x.id] = r
                st.ghost["div"] = loc
                return r
        if w == 64 and lo >= 0:
            _defs[x.id] = split(p, st)[1]
            return _defs[x.id]
        k = newatom("k", 0, max(0, hi >> w) - min(0, lo >> w))
        base = min(0, lo >> w)
        r = newatom("w", 0, (1 << w) - 1)
        f = eq(p, padd(pat(r), pscale(padd(pat(k), pc(base)), 1 << w)))
        _defs[x.id] = pat(r)
        DEF[r] = f
        return pat(r)
    if op == "zext":
        return iv(x.args[0], x.args[0].w, st)
    if op == "trunc":
        return wrap(iv(x.args[0], x.args[0].w, st), w)
    if op in ("add", "sub"):
        a, b = iv(x.args[0], w, st), iv(x.args[1], w, st)
        if op == "add" and isinstance(x.args[1], int) and x.args[1] >> (w - 1):
            b = pc(x.args[1] - (1 << w))
        return wrap(padd(a, b, 1 if op == "add" else -1), w)
    if op == "mul":
        p = pmul(iv(x.args[0], w, st), iv(x.args[1], w, st))
        if w == 64:
            hi, lo = split(p, st)
            _defs[x.id] = lo
            return lo
        return wrap(p, w)
    if op == "shl" and isinstance(x.args[1], int):
        return wrap(pscale(iv(x.args[0], w, st), 1 << x.args[1]), w)
    if op == "or" and w > 1:
        a, b = iv(x.args[0], w, st), iv(x.args[1], w, st)
        for p, q in ((a, b), (b, a)):
            g = 0
            for c in p.values():
                g = __import__("math").gcd(g, c)
            low = g & -g if g else 1 << w
            if prange(q)[1] < low and prange(q)[0] >= 0:
                return padd(p, q)
    if op == "lshr" and isinstance(x.args[1], int):
        p = iv(x.args[0], x.w, st)
        if x.args[1] == 64:
            return split(p, st)[0]
    if op == "udiv":
        a, d = iv(x.args[0], w, st), iv(x.args[1], w, st)
        if check(st, ge(d, pc(1))) is not True:
            raise Violation("division by a divisor that may be zero", st)
        q, r = newatom("q", 0, B_ - 1), newatom("r", 0, B_ - 1)
        # a < d * 2^64 makes the quotient a word
        if check(st, lt(a, pscale(d, B_))) is not True:
            raise Unsupported("quotient may not fit a word")
        fs = (eq(a, padd(pmul(pat(q), d), pat(r))), lt(pat(r), d))
        loc = dict(st.ghost.get("div", {}))
        loc[x.id] = pat(q)
        st.ghost["div"] = loc
        fact(st, *fs)
        return pat(q)
    if op == "or" and w > 1:
        a, b = iv(x.args[0], w, st), iv(x.args[1], w, st)
        if prange(a) == (0, 1) and prange(b) == (0, 1):
            r = newatom("b", 0, 1)
            DEF[r] = Ite(Or(eq(a, pc(1)), eq(b, pc(1))), eq(pat(r), pc(1)), eq(pat(r), {}))
            _defs[x.id] = pat(r)
            return pat(r)
    if op in ("eq", "ult", "ule", "not", "and", "or", "slt") and w == 1:
        b = newatom("b", 0, 1)
        f = Ite(cond(x, st), eq(pat(b), pc(1)), eq(pat(b), {}))
        _defs[x.id] = pat(b)
        DEF[b] = f
        return pat(b)
    if op == "ite":
        c = cond(x.args[0], st)
        a, b = iv(x.args[1], w, st), iv(x.args[2], w, st)
        r = newatom("i", 0, (1 << w) - 1)
        f = Ite(c, eq(pat(r), a), eq(pat(r), b))
        _defs[x.id] = pat(r)
        DEF[r] = f
        return pat(r)
    if w <= 64:
        return pat(atom(x))
    raise Unsupported("no integer reading of %s" % op)


_split = {}


def split(p, st):
    """p = hi * 2^64 + lo"""
    key = tuple(sorted(p.items()))
    if key not in _split:
        h, l = newatom("hi"), newatom("lo")
        _split[key] = (h, l)
        DEF[h] = DEF[l] = eq(p, padd(pat(l), pscale(pat(h), B_)))
    h, l = _split[key]
    return pat(h), pat(l)


def cond(c, st):
    """integer formula of a condition"""
    if isinstance(c, int):
        return TRUE if c else FALSE
    op = c.op
    if op == "not":
        return Not(cond(c.args[0], st))
    if op in ("and", "or"):
        return (And if op == "and" else Or)(cond(c.args[0], st), cond(c.args[1], st))
    if op in ("eq", "ult", "ule", "slt"):
        x, y = c.args
        w = x.w if isinstance(x, T) else y.w
        a, b = iv(x, w, st), iv(y, w, st)
        if op == "slt":
            for p in (a, b):
                if prange(p)[1] >= 1 << (w - 1):
                    raise Unsupported("signed comparison")
        return {"eq": eq, "ult": lt, "slt": lt, "ule": lambda a, b: ge(b, a)}[op](a, b)
    raise Unsupported("condition %s" % op)


def pcfacts(st):
    out = []
    memo = st.ghost.get("dpc", {})
    new = {}
    st.ghost["dpc"] = memo
    for c, v in list(st.pc):
        k = (c.id, bool(v))
        if k not in memo:
            if k not in new:
                new[k] = None            # guards recursion: cond may query
                memo = dict(memo)
                memo[k] = None
                st.ghost["dpc"] = memo
                try:
                    f = cond(c, st)
                    if not v:
                        f = Not(f)
                except Unsupported:
                    f = None
                memo = dict(st.ghost["dpc"])
                memo[k] = f
                st.ghost["dpc"] = memo
        f = memo.get(k)
        if f is not None:
            out.append(f)
    return tuple(out)


_hasclz = {}


def hasclz(x):
    if not isinstance(x, T):
        return False
    r = _hasclz.get(x.id)
    if r is None:
        r = _hasclz[x.id] = x.op == "ctlz" or any(hasclz(a) for a in x.args)
    return r


def decide(st, c):
    if hasclz(c):
        for v in (True, False):
            if smt.valid(c if v else t.not_(c), st.pc)[0] is True:
                return v
        return None
    try:
        f = cond(c, st)
    except Unsupported:
        return None
    # exact over the rationals only: a branch that is impossible for integers alone may be explored
    if check(st, f, real=True) is True:
        return True
    if check(st, Not(f), real=True) is True:
        return False
    return None


def val(ws, st):
    r = {}
    for i, x in enumerate(ws):
        r = padd(r, pscale(iv(x, 64, st), B_ ** i))
    return r


def words(st, p, n):
    out = []
    for i in range(n):
        x = st.load(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8)
        if not isinstance(x, (int, T)):
            raise Violation("uninitialised word %d is used" % i, st)
        out.append(x)
    return out


def put(st, p, ws):
    for i, x in enumerate(ws):
        st.store(Ptr(p.obj, ex.addoff(p.off, 8 * i)), 8, x)


def csize(x, st):
    if not isinstance(x, int):
        raise Unsupported("symbolic size")
    x = t.sgn(x, 32)
    if x < 0:
        raise Violation("negative size %d" % x, st)
    return x


def vi(ws):
    return sum(x << (64 * i) for i, x in enumerate(ws))


def fresh_words(name, n):
    return [newword(name + str(i)) for i in range(n)]


def bits_of(x, st):
    """(bits as int or None, E polynomial = 2^bits)"""
    if isinstance(x, int):
        return x, pc(1 << x)
    E = "E%d" % x.id
    RNG.setdefault(E, (2, 1 << 63))
    return None, pat(E)


class Low(Contract):
    """contract of a word helper; applies on constants anywhere and on symbolic words under the division proof"""
    home = "C15"
    sizes = range(1, 11)

    def apply(self, exr, st, args, I):
        if not getattr(exr, "divmode", False):
            raise Unsupported("word helper called outside a division")
        return self.app(exr, st, args)

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        for n in self.sizes:
            for al in self.alias:
                self.size(exr, rep, fn, n, al)

    alias = (False,)

    def arrays(self, exr, n, names, al):
        st = exr.base.copy()
        ps, ws = {}, {}
        for nm in names:
            p = st.new(8 * n, nm, "arg")
            ws[nm] = [t.var("%s%d" % (nm, i), 64) for i in range(n)]
            put(st, p, ws[nm])
            ps[nm] = p
        ps["out"] = ps[names[0]] if al else st.new(8 * n, "c", "arg")
        return st, ps, ws

    def res(self, exr, rep, fn, st, args, n, outs, goal, pre=(), merge=False, tag=""):
        from .c_code import frame, run as crun
        before = st.copy()
        for c in pre:
            before.assume(c, True)
        r = crun(exr, rep, self.name, fn, before, args, merge=merge)
        if r is None:
            return
        t0 = time.time()
        ok, det = True, ""
        for s, rv in r:
            out = words(s, args[0], n) if outs else []
            g, d = goal(out, rv, s)
            if g is not True:
                ok, det = g, d
                break
        rep.add(self.name, "%d words%s: result exact on %d paths" % (n, tag, len(r)), verify.UNKNOWN if ok is None else ok, "z3", time.time() - t0, det)
        frame(rep, self.name, before, r[0][0], {args[0].obj} if outs else set(), "%d words%s" % (n, tag))


def bvcat(en, ws, extra):
    v = [en.e(x, 64) for x in reversed(ws)]
    r = z3.Concat(*v) if len(v) > 1 else v[0]
    return z3.ZeroExt(extra, r)


def bvcheck(s, en, g, timeout=60000):
    sol = z3.Solver()
    sol.set("timeout", timeout)
    for c, v in s.pc:
        sol.add(en.e(c, 1) == (1 if v else 0))
    sol.add(z3.Not(g))
    q = sol.check()
    return (True, "") if q == z3.unsat else (False, str(sol.model())[:300]) if q == z3.sat else (None, "z3: unknown")


def bvall(s, en, gs):
    for g in gs:
        r = bvcheck(s, en, g)
        if r[0] is not True:
            return r
    return True, ""


U, UC = "unsigned long*", "unsigned long const*"


class Lshb(Low):
    name = NS + "bn_lshb_low(%s, %s, int, int)" % (U, UC)
    alias = (False, True)

    def size(self, exr, rep, fn, n, al):
        st, ps, ws = self.arrays(exr, n, ["a"], al)
        bits = t.var("bits", 32)

        def goal(out, rv, s):
            en = smt.Enc()
            S = z3.ZeroExt(96, en.e(bits, 32))
            a = [z3.BitVecVal(0, 64)] + [en.e(x, 64) for x in ws["a"]] + [z3.BitVecVal(0, 64)]
            g = [en.e(o, 64) == z3.Extract(127, 64, z3.Concat(a[i + 1], a[i]) << S) for i, o in enumerate(out + [rv])]
            return bvall(s, en, g)
        self.res(exr, rep, fn, st, [ps["out"], ps["a"], n, bits], n, True, goal,
                 [t.ule(1, bits, 32), t.ule(bits, 63, 32)], tag=", in place" if al else "")

    def app(self, exr, st, args):
        n = csize(args[2], st)
        A = words(st, args[1], n)
        bits = args[3]
        if isinstance(bits, T):
            if smt.valid(t.and_(t.ule(1, bits, 32), t.ule(bits, 63, 32), 1), st.pc)[0] is not True:
                raise Unsupported("shift amount not known to be between 1 and 63")
            for k in (63, 1):
                if smt.valid(t.eq(bits, k, 32), st.pc)[0] is True:
                    bits = k
                    break
        elif not 1 <= bits <= 63:
            raise Violation("shift by %d" % bits, st)
        if isinstance(bits, int) and all(isinstance(x, int) for x in A):
            v = vi(A) << bits
            put(st, args[0], [v >> (64 * i) & (B_ - 1) for i in range(n)])
            return [(st, v >> (64 * n))]
        k, E = bits_of(bits, st)
        sh = st.ghost.get("shift")
        if sh is not None and sh != E:
            raise Unsupported("operands are shifted by different amounts")
        st.ghost["shift"] = E
        Av = val(A, st)
        out = fresh_words("s", n)
        cy = newword("cy")
        put(st, args[0], out)
        fact(st, eq(padd(val(out, st), pscale(iv(cy, 64, st), B_ ** n)), pmul(E, Av)), lt(iv(cy, 64, st), E))
        # what the shift does to the top word
        top = A[-1]
        if isinstance(bits, T) and isinstance(top, T):
            en = smt.Enc()
            X = z3.ZeroExt(66, en.e(top, 64))
            S = z3.ZeroExt(98, en.e(bits, 32))
            pt = pmul(E, iv(top, 64, st))
            if bvcheck(st, en, z3.UGE(X << S, 1 << 62), 10000)[0] is True:
                fact(st, ge(pt, pc(1 << 62)))
            if bvcheck(st, en, z3.ULE((X + 1) << S, 1 << 63), 10000)[0] is True:
                fact(st, ge(pc(1 << 63), padd(pt, E)))
        return [(st, cy)]


class Rshb(Low):
    name = NS + "bn_rshb_low(%s, %s, int, int)" % (U, UC)
    alias = (False, True)

    def size(self, exr, rep, fn, n, al):
        st, ps, ws = self.arrays(exr, n, ["a"], al)
        bits = t.var("bits", 32)

        def goal(out, rv, s):
            en = smt.Enc()
            S = z3.ZeroExt(96, en.e(bits, 32))
            a = [en.e(x, 64) for x in ws["a"]] + [z3.BitVecVal(0, 64)]
            g = [en.e(o, 64) == z3.Extract(63, 0, z3.LShR(z3.Concat(a[i + 1], a[i]), S)) for i, o in enumerate(out)]
            g.append(en.e(rv, 64) == a[0] & ((z3.BitVecVal(1, 64) << z3.Extract(63, 0, S)) - 1))
            return bvall(s, en, g)
        self.res(exr, rep, fn, st, [ps["out"], ps["a"], n, bits], n, True, goal, [t.ule(bits, 63, 32)], tag=", in place" if al else "")

    def app(self, exr, st, args):
        n = csize(args[2], st)
        A = words(st, args[1], n)
        bits = args[3]
        if isinstance(bits, int) and all(isinstance(x, int) for x in A):
            v = vi(A)
            put(st, args[0], [v >> bits >> (64 * i) & (B_ - 1) for i in range(n)])
            return [(st, v & ((1 << bits) - 1))]
        if isinstance(bits, T):
            for k in (63, 1):
                if smt.valid(t.eq(bits, k, 32), st.pc)[0] is True:
                    bits = k
                    break
        k, E = bits_of(bits, st)
        Av = val(A, st)
        out = fresh_words("d", n)
        low = newword("low")
        put(st, args[0], out)
        fact(st, eq(Av, padd(pmul(E, val(out, st)), iv(low, 64, st))), lt(iv(low, 64, st), E))
        st.ghost["unshift"] = (E, Av, out)
        return [(st, low)]


class Linear(Low):
    """out + s * 2^64n * carry = a + b (s = 1) or a - b (s = -1)"""

    def __init__(self, nm, two, s):
        self.name = NS + "%s(%s, %s, %s, int)" % (nm, U, UC, UC if two else "unsigned long")
        self.two, self.s = two, s
        self.alias = (False, True)
        self.sizes = range(1 if two else 0, 9 if two and s > 0 else 11)

    def size(self, exr, rep, fn, n, al):
        st, ps, ws = self.arrays(exr, n, ["a", "b"] if self.two else ["a"], al)
        b = ps["b"] if self.two else t.var("digit", 64)

        def goal(out, rv, s):
            if n:
                s = s.copy()
                bv = val(ws["b"], s) if self.two else iv(b, 64, s)
                r = check(s, eq(padd(val(out, s), pscale(iv(rv, 64, s), self.s * B_ ** n)), padd(val(ws["a"], s), bv, self.s)))
                if r and n:
                    r = check(s, ge(pc(1), iv(rv, 64, s)))
                return (r if r is not False else None), ""
            return smt.valid(t.eq(rv, b, 64), s.pc)
        self.res(exr, rep, fn, st, [ps["out"], ps["a"], b, n], n, True, goal, tag=", in place" if al else "", merge=self.two)

    def app(self, exr, st, args):
        n = csize(args[3], st)
        A = words(st, args[1], n)
        Bw = words(st, args[2], n) if self.two else [args[2]]
        if n and n not in self.sizes:
            raise Unsupported("%d words: outside the verified sizes" % n)
        if n == 0:
            return [(st, 0 if self.two else args[2])]
        if all(isinstance(x, int) for x in A + Bw):
            v = vi(A) + self.s * vi(Bw)
            put(st, args[0], [v >> (64 * i) & (B_ - 1) for i in range(n)])
            return [(st, 1 if v < 0 or v >> (64 * n) else 0)]
        if not self.two and Bw[0] == 0:
            put(st, args[0], A)
            return [(st, 0)]
        v = padd(val(A, st), val(Bw, st), self.s)
        out = fresh_words("x", n)
        ov = val(out, st)
        # carry 0 or 1: split the cases here
        res = []
        s2 = st.copy()
        for s, cy in ((st, 0), (s2, 1)):
            fact(s, eq(padd(ov, pc(self.s * cy << (64 * n))), v))
            if check(s, FALSE, 300, real=MODE["real"]) is True:
                continue
            put(s, args[0], out)
            res.append((s, cy))
        return res


class Mul1(Low):
    name = NS + "bn_mul1_low(%s, %s, unsigned long, int)" % (U, UC)
    alias = (False, True)

    def size(self, exr, rep, fn, n, al):
        st, ps, ws = self.arrays(exr, n, ["a"], al)
        q = t.var("digit", 64)

        def goal(out, rv, s):
            s = s.copy()
            lhs = padd(val(out, s), pscale(iv(rv, 64, s), B_ ** n))
            rhs = pmul(val(ws["a"], s), iv(q, 64, s))
            r = check(s, eq(lhs, rhs), 60000)
            return r if r is not False else None, ""
        self.res(exr, rep, fn, st, [ps["out"], ps["a"], q, n], n, True, goal, tag=", in place" if al else "")

    def app(self, exr, st, args):
        n = csize(args[3], st)
        A = words(st, args[1], n)
        q = args[2]
        if isinstance(q, int) and all(isinstance(x, int) for x in A):
            v = vi(A) * q
            put(st, args[0], [v >> (64 * i) & (B_ - 1) for i in range(n)])
            return [(st, v >> (64 * n))]
        qv = iv(q, 64, st)
        v = pmul(val(A, st), qv)
        if set(qv) not in ({()}, set()) and () in qv:
            # products of two words are products of integers in [0, 2^64)
            for x in A:
                p = pmul(iv(x, 64, st), qv)
                fact(st, ge(p, {}), ge(pscale(qv, B_ - 1), p))
        out = fresh_words("m", n)
        cy = newword("mc")
        put(st, args[0], out)
        fact(st, eq(padd(val(out, st), pscale(iv(cy, 64, st), B_ ** n)), v))
        return [(st, cy)]


class Cmp(Low):
    name = NS + "dv_cmp(%s, %s, int)" % (UC, UC)
    sizes = range(1, 11)

    def size(self, exr, rep, fn, n, al):
        st, ps, ws = self.arrays(exr, n, ["a", "b"], True)

        def goal(out, rv, s):
            en = smt.Enc()
            X, Y = bvcat(en, ws["a"], 0), bvcat(en, ws["b"], 0)
            return bvcheck(s, en, en.e(rv, 32) == z3.If(X == Y, z3.BitVecVal(0, 32), z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32))))
        self.res(exr, rep, fn, st, [ps["a"], ps["b"], n], n, False, goal, merge=True)

    def app(self, exr, st, args):
        n = csize(args[2], st)
        A, Bw = words(st, args[0], n), words(st, args[1], n)
        if all(isinstance(x, int) for x in A + Bw):
            a, b = vi(A), vi(Bw)
            return [(st, 0 if a == b else 1 if a > b else 0xffffffff)]
        a, b = val(A, st), val(Bw, st)
        res = []
        for f, r in ((lt(a, b), 0xffffffff), (eq(a, b), 0), (lt(b, a), 1)):
            s = st.copy()
            fact(s, f)
            if check(s, FALSE, 300, real=MODE["real"]) is True:
                continue
            res.append((s, r))
        return res


class Move(Low):
    """digit shifts: inlined at call sites, checked here"""
    inline = True

    def __init__(self, nm, left):
        self.name = NS + "%s(%s, %s, int, int)" % (nm, U, UC)
        self.left = left
        self.alias = (False, True)

    def size(self, exr, rep, fn, n, al):
        for k in range(n):
            st, ps, ws = self.arrays(exr, n, ["a"], al)

            def goal(out, rv, s):
                a = ws["a"]
                want = [0] * k + a[:n - k] if self.left else a[k:] + [0] * k
                return (out == want, "" if out == want else "words differ")
            self.res(exr, rep, fn, st, [ps["out"], ps["a"], n, k], n, True, goal, tag=" by %d%s" % (k, ", in place" if al else ""))


for c in (Lshb(), Rshb(), Linear("bn_subn_low", True, -1), Linear("bn_addn_low", True, 1), Linear("bn_sub1_low", False, -1), Linear("bn_add1_low", False, 1),
          Mul1(), Cmp(), Move("dv_lshd", True), Move("dv_rshd", False)):
    reg(c)


# ---------------------------------------------------------------- the division loop
def digit_loop(f):
    """header of the outermost loop containing the 128-bit division"""
    best = None
    for h, body in f.loops.items():
        for b in body:
            if any(I[0] == "bin" and "udiv" in I[:3] and any(getattr(x, "n", None) == 128 for x in I) or I[0] == "udiv" for I in f.blocks[b]):
                if best is None or len(body) > len(f.loops[best]):
                    best = h
    return best


class Digits:
    """cut of the digit loop.  Invariant before digit k: what is left of the (shifted) dividend is below M * B^k, where M
    is the shifted divisor, and each digit found so far satisfies A_before = digit * M * B^k + A_after."""

    def __init__(self, fname, header, P, n, A0, M0, rep, name, tag, bvars):
        self.fname, self.header, self.P, self.n = fname, header, P, n
        self.A0, self.M0, self.rep, self.name, self.tag, self.bvars = A0, M0, rep, name, tag, bvars
        self.seen = set()
        self.done = 0

    def oblige(self, st, what, o):
        t0 = time.time()
        r = check(st, o, 120000)
        self.done += 1
        if r is not True:
            self.rep.add(self.name, "%s: %s" % (self.tag, what), verify.UNKNOWN, "z3 integers", time.time() - t0,
                         "no proof (%s)" % ("counterexample to the inductive step" if r is False else "unknown"))
            raise Unsupported("%s: %s is not established" % (self.tag, what))

    def local(self, x):
        """symbolic value computed from the divisor only"""
        return isinstance(x, T) and {v.id if isinstance(v, T) else v for v in t.variables([x])} <= self.bvars

    def hook(self, f, st, env, blk, isback):
        if f.name != self.fname or blk != self.header:
            return None
        n = self.n
        g = st.ghost.get("digits")
        A = words(st, self.P["a"], n + 2)
        Bw = words(st, self.P["b"], n + 2)
        cw = words(st, self.P["c"], n + 2)
        if g is None:
            E = st.ghost.get("shift", pc(1))
            sb = max([i + 1 for i, x in enumerate(Bw) if x != 0], default=0)
            sa = max([i + 1 for i, x in enumerate(A) if x != 0], default=0)
            if sb == 0 or sa < sb:
                raise Unsupported("sizes at the digit loop")
            k = sa - sb
            M = val(Bw, st)
            Aprev = pmul(E, self.A0)
            self.oblige(st, "divisor is shifted by the same amount", eq(M, pmul(E, self.M0)))
            self.oblige(st, "divisor is normalised", ge(iv(Bw[sb - 1], 64, st), pc(1 << 62)))
            base = dict(M=M, sb=sb, Bw=Bw, E=E, start={oid: set(o.cells) for oid, o in st.mem.items()}, env=dict(env), hist=())
        else:
            base, k, Aprev = g["base"], g["k"] - 1, g["A"]
            M, sb = base["M"], base["sb"]
            if Bw != base["Bw"]:
                raise Unsupported("the loop changes the divisor")
        if k < 0:
            raise Unsupported("more iterations than quotient digits")
        for i, x in enumerate(cw):
            h = g["hist"].get(i) if g else None
            if i != k and (x is not h if h is not None else x != 0):
                raise Unsupported("quotient words other than the current one change")
        dg = iv(cw[k], 64, st)
        Av = val(A, st)
        self.oblige(st, "A = digit * M * B^%d + A'" % k, eq(Aprev, padd(Av, pmul(dg, pscale(M, B_ ** k)))))
        self.oblige(st, "A' < M * B^%d" % k, lt(Av, pscale(M, B_ ** k)))
        # continue from an arbitrary state satisfying the invariant
        s = st.copy()
        top = sb + k
        nd = t.var("digit.%d.%d" % (k, sb), 64)
        nA = [t.var("rem.%d.%d.%d" % (k, sb, i), 64) if i < top else 0 for i in range(n + 2)]
        put(s, self.P["a"], nA)
        put(s, Ptr(self.P["c"].obj, 8 * k), [nd])
        keep = {self.P[x].obj for x in "abc"}
        sig = [k, sb]
        live = set(keep)
        todo = [v.obj for v in env.values() if isinstance(v, Ptr)]
        while todo:
            oid = todo.pop()
            if oid not in live and oid in s.mem:
                live.add(oid)
                todo += [v.obj for sz, v in s.mem[oid].cells.values() if isinstance(v, Ptr)]
        for oid, o in list(s.mem.items()):
            if oid.startswith("g:") or oid in keep or o.ro:
                continue
            if oid not in live:
                if "#" in oid:
                    del s.mem[oid]
                continue
            if oid == self.P["d"].obj:
                s.wobj(self.P["d"]).cells.clear()
                continue
            dead = [off for off, (sz, v) in o.cells.items() if isinstance(v, T) and not self.local(v) or off not in base["start"].get(oid, ())]
            if dead:
                o = s.wobj(Ptr(oid, 0))
                for off in dead:
                    del o.cells[off]
            if g is None:
                base["start"][oid] = set(o.cells)
            sig.append((oid, tuple(sorted((off, sz, v.id if isinstance(v, T) else repr(v)) for off, (sz, v) in o.cells.items()))))
        e2 = {}
        for r, v in env.items():
            if r in base["env"] and (v is base["env"][r] or isinstance(v, (int, Ptr)) and v == base["env"][r]) and (not isinstance(v, T) or self.local(v)):
                e2[r] = v
        s.pc, s.lits = list(self.pc0[0]), dict(self.pc0[1])
        for c, v in st.pc:
            if self.local(c):
                try:
                    s.assume(c, v)
                except Infeasible:
                    return []
        hist = dict(g["hist"]) if g else {}
        hist[k] = nd
        nv = val(nA, s)
        s.ghost["dz"] = (eq(M, pmul(base["E"], self.M0)), ge(iv(Bw[sb - 1], 64, st), pc(1 << 62)), lt(nv, pscale(M, B_ ** k)))
        s.ghost["div"], s.ghost["dpc"] = {}, {}
        s.ghost["digits"] = dict(base=base, k=k, A=nv, hist=hist)
        sig = repr(sig) + repr(sorted((r, v.id if isinstance(v, T) else repr(v)) for r, v in e2.items())) + repr([(c.id, v) for c, v in s.pc])
        if sig in self.seen:
            return []
        self.seen.add(sig)
        return [(s, e2)]


CONST = {"p": ref.P, "r": ref.R}


class Divn(Contract):
    """c = floor(a / b), d = a mod b; a and b are scratch afterwards.
    Requires: b's top word is not zero; buffers of at least sa + 2 words, words beyond sa / sb and the results zero."""
    home = "C15"
    name = NS + "bn_divn_low(%s, %s, %s, int, %s, int)" % (U, U, U, U)
    sizes = [(8, "p"), (6, "p"), (8, "r"), (6, "r"), (4, "r")]      # the divisors the library divides by; any divisor: the C15 units below

    def apply(self, exr, st, args, I):
        c, d, a, sa, b, sb = args
        n, m = csize(sa, st), csize(sb, st)
        if m < 1 or m > n:
            raise Violation("division with sizes %d, %d" % (n, m), st)
        for p in (a, b, c, d):
            o = st.obj(p)
            if p.off != 0 or o.size is None or o.size < 8 * (n + 2):
                raise Violation("division buffers are too small", st)
        A, Bw = words(st, a, n + 2), words(st, b, n + 2)
        if any(x != 0 for x in A[n:] + Bw[m:] + words(st, c, n + 2) + words(st, d, n + 2)):
            raise Violation("division buffers are not zero beyond the operands", st)
        A, Bw = A[:n], Bw[:m]
        if isinstance(Bw[-1], int):
            if Bw[-1] == 0:
                raise Violation("leading word of the divisor is zero", st)
        elif smt.valid(t.not_(t.eq(Bw[-1], 0, 64)), st.pc)[0] is not True:
            raise Violation("leading word of the divisor may be zero", st)
        if all(isinstance(x, int) for x in A + Bw):
            q, r = divmod(vi(A), vi(Bw))
            put(st, c, [q >> (64 * i) & (B_ - 1) for i in range(n)])
            put(st, d, [r >> (64 * i) & (B_ - 1) for i in range(m)])
        else:
            put(st, c, [mk("dq", (i, n) + tuple(A) + tuple(Bw), 64) for i in range(n)])
            put(st, d, [mk("dr", (i, n) + tuple(A) + tuple(Bw), 64) for i in range(m)])
        for p in (a, b):
            o = st.wobj(p)
            o.cells.clear()
        o = st.wobj(d)
        for off in [x for x in o.cells if x >= 8 * m]:
            del o.cells[off]
        return [(st, None)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        lemma(rep, self.name)
        for n, m in self.sizes:
            for case in ((0, 1, 2) if isinstance(m, int) else (m,)):
                self.one(exr, rep, fn, n, m, case)

    def one(self, exr, rep, fn, n, m, case):
        from .c_code import frame, run as crun
        name = self.name
        mod = CONST.get(m)
        if mod:
            m = (mod.bit_length() + 63) // 64
        tag = "%d words by %s" % (n, case) if mod else "%d by %d words, %s" % (n, m, ("top bit clear twice", "normalised", "top bit set")[case])
        st = exr.base.copy()
        P = {x: st.new(8 * (n + 2), x, "arg") for x in "cdab"}
        A = [t.var("a%d" % i, 64) for i in range(n)]
        Bw = [mod >> (64 * i) & (B_ - 1) for i in range(m)] if mod else [t.var("b%d" % i, 64) for i in range(m)]
        put(st, P["a"], A + [0, 0])
        put(st, P["b"], Bw + [0] * (n + 2 - m))
        put(st, P["c"], [0] * (n + 2))
        put(st, P["d"], [0] * (n + 2))
        top = Bw[-1]
        if mod:
            pass
        elif case == 0:
            st.assume(t.not_(t.eq(top, 0, 64)), True)
            st.assume(t.ult(top, 1 << 62, 64), True)
        elif case == 1:
            st.assume(t.ult(top, 1 << 63, 64), True)
            st.assume(t.ult(top, 1 << 62, 64), False)
        else:
            st.assume(t.ult(top, 1 << 63, 64), False)
        f = exr.mod.funcs[fn]
        exr.mod.body(f) if hasattr(exr.mod, "body") else None
        cut = None
        A0, M0 = val(A, st), val(Bw, st)
        bvars = {v.id if isinstance(v, T) else v for v in t.variables(Bw)}
        cut = Digits(fn, None, P, n, A0, M0, rep, name, tag, bvars)
        cut.pc0 = (list(st.pc), dict(st.lits))

        def hook(f2, s, env, blk, isback):
            if f2.name == fn and cut.header is None:
                cut.header = digit_loop(f2)
            return cut.hook(f2, s, env, blk, isback)
        old = exr.smt
        exr.divmode, exr.smt, exr.loop_hook, MODE["real"] = True, decide, hook, bool(mod)
        t0 = time.time()
        try:
            res = crun(exr, rep, name, fn, st, [P["c"], P["d"], P["a"], n, P["b"], m])
        finally:
            exr.divmode, exr.smt, exr.loop_hook, MODE["real"] = False, old, None, False
        if not res:
            return
        ok, det = True, ""
        for s, _ in res:
            g = s.ghost.get("digits")
            cw = words(s, P["c"], n + 2)
            un = s.ghost.get("unshift")
            if un is None:
                ok, det = None, "remainder is not shifted back by a known amount"
                break
            E2, Av, out = un
            dw = words(s, P["d"], m)
            E = s.ghost.get("shift", pc(1))
            if E2 != E:
                ok, det = None, "remainder is shifted back by a different amount"
                break
            if dw != out[:m] or any(o != 0 and check(s, eq(iv(o, 64, s), {})) is not True for o in out[m:]):
                ok, det = None, "remainder words differ from the shifted ones"
                break
            if g is None:
                if any(x != 0 for x in cw):
                    ok, det = False, "quotient is not zero"
                elif check(s, eq(Av, pmul(E, A0))) is not True or check(s, lt(Av, pmul(E, M0))) is not True:
                    ok, det = None, "A < M not shown where the quotient is zero"
            else:
                if g["k"] != 0:
                    ok, det = False, "quotient digits %d..0 are not computed" % (g["k"] - 1)
                elif any((x is not g["hist"][i] if i in g["hist"] else x != 0) for i, x in enumerate(cw)):
                    ok, det = None, "quotient words are not the digits"
                elif Av != g["A"] and check(s, eq(Av, g["A"])) is not True:
                    ok, det = None, "remainder is not what the loop left"
            if ok is not True:
                break
        rep.add(name, "%s: quotient and remainder exact (%d paths, %d inductive steps)" % (tag, len(res), cut.done), verify.UNKNOWN if ok is None else ok, "z3 integers, loop invariant", time.time() - t0, det)
        frame(rep, name, st, res[0][0], {p.obj for p in P.values()}, tag)


def lemma(rep, name):
    """E*A = E*X + R, R = E*d + low, 0 <= low < E, R < E*M  =>  A = X + d, 0 <= d < M     (X = Q*M)"""
    t0 = time.time()
    E, A, X, d, low, M = z3.Ints("E A X d low M")
    s = z3.Solver()
    s.set("timeout", 20000)
    y = z3.Int("y")
    s.add(y == A - X - d, E >= 1, d >= 0, low >= 0, low < E, E * y == low, E * d + low < E * M)
    s.add(z3.Or(y != 0, d >= M))
    r = s.check()
    rep.add(name, "lemma: shifting back divides the remainder exactly", True if r == z3.unsat else verify.UNKNOWN, "z3", time.time() - t0)


reg(Divn())


def remainder(A, Bw):
    """the words of (A mod B) and (A / B) that the contracts of the divisions speak about"""
    n, m = len(A), len(Bw)
    if all(isinstance(x, int) for x in list(A) + list(Bw)):
        q, r = divmod(vi(A), vi(Bw))
        return [q >> (64 * i) & (B_ - 1) for i in range(n)], [r >> (64 * i) & (B_ - 1) for i in range(m)]
    return [mk("dq", (i, n) + tuple(A) + tuple(Bw), 64) for i in range(n)], [mk("dr", (i, n) + tuple(A) + tuple(Bw), 64) for i in range(m)]


class DivSafe(Contract):
    """c = floor(a / b), d = a mod b.  Requires b != 0."""
    home = "C15"

    def __init__(self, n, m):
        self.n, self.m = n, m
        u = "std::array<unsigned long, %dul>"
        self.name = "void " + NS + "bn_divn_safe<%dul, %dul>(%s&, %s&, %s const&, %s const&)" % (n, m, u % n, u % m, u % n, u % m)

    def apply(self, exr, st, args, I):
        c, d, a, b = args
        A, Bw = words(st, a, self.n), words(st, b, self.m)
        if not all(isinstance(x, int) for x in Bw):
            raise Unsupported("division by a divisor that is not a constant")
        if not any(Bw):
            raise Violation("division by zero", st)
        k = max(i + 1 for i, x in enumerate(Bw) if x)
        q, r = remainder(A, Bw[:k])
        put(st, c, q)
        put(st, d, r + [0] * (self.m - k))
        return [(st, None)]

    def verify(self, exr, rep):
        from .c_code import frame, run as crun
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        n, m = self.n, self.m
        for k in list(range(1, m + 1)) + ["p", "r"]:
            mod = CONST.get(k)
            if mod and (mod.bit_length() + 63) // 64 > m:
                continue
            tag = "divisor %s" % k if mod else "divisor of %d words" % k
            t0 = time.time()
            for alias in (False, True):
                st = exr.base.copy()
                P = {"c": st.new(8 * n, "c", "arg"), "d": st.new(8 * m, "d", "arg")}
                P["a"] = P["c"] if alias else st.new(8 * n, "a", "arg")
                P["b"] = P["d"] if alias else st.new(8 * m, "b", "arg")
                A = [t.var("a%d" % i, 64) for i in range(n)]
                Bw = [mod >> (64 * i) & (B_ - 1) for i in range(m)] if mod else [t.var("b%d" % i, 64) for i in range(k)] + [0] * (m - k)
                kk = max([i + 1 for i, x in enumerate(Bw) if isinstance(x, T) or x])
                put(st, P["a"], A)
                put(st, P["b"], Bw)
                if not mod:
                    st.assume(t.not_(t.eq(Bw[k - 1], 0, 64)), True)
                res = crun(exr, rep, self.name, fn, st, [P["c"], P["d"], P["a"], P["b"]])
                if res is None:
                    return
                q, r = remainder(A, Bw[:kk])
                ok = all(words(s, P["c"], n) == q and words(s, P["d"], m) == r + [0] * (m - kk) for s, _ in res)
                rep.add(self.name, "%s%s: quotient and remainder of the operands" % (tag, ", in place" if alias else ""), ok or verify.UNKNOWN, "symexec", time.time() - t0,
                        "" if ok else "words differ from the quotient and remainder")
                if not alias:
                    frame(rep, self.name, st, res[0][0], {P["c"].obj, P["d"].obj}, tag)


for _N in (4, 6, 8):
    for _M in (4, 6):
        if _M <= _N:
            reg(DivSafe(_N, _M))


class ModPrime(Contract):
    """the field element (in Montgomery form) that is the integer given by the words, modulo p"""
    home = "C02"

    def __init__(self, n):
        self.n = n
        self.name = NS + "fp " + NS + "fp::modPrime<%dul>(std::array<unsigned long, %dul> const&)" % (n, n)

    def value(self, A):
        Bw = [ref.P >> (64 * i) & (B_ - 1) for i in range(6)]
        r = remainder(A, Bw)[1]
        F = ex.limbs_to_fp(list(r))[0] if all(isinstance(x, int) for x in r) else mk("fraw", tuple(r), -1)
        return fl.fmul(F, fl.f1(ref.MR))

    def apply(self, exr, st, args, I):
        ex.write_fp(st, args[0], self.value(words(st, args[1], self.n)))
        return [(st, None)]

    def verify(self, exr, rep):
        from .c_code import frame, run as crun
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", verify.UNKNOWN, "extract", detail="not found")
            return
        st = exr.base.copy()
        out, p = st.new(48, "ret", "arg"), st.new(8 * self.n, "k", "arg")
        A = [t.var("a%d" % i, 64) for i in range(self.n)]
        put(st, p, A)
        for k, (s, rv) in enumerate(crun(exr, rep, self.name, fn, st, [out, p]) or []):
            F, b = ex.read_fp(s, out)
            t0 = time.time()
            ok, d = verify.prove_eq(s, F, self.value(A))
            rep.add(self.name, "path%d: result is the remainder modulo p, in Montgomery form" % k, verify.UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)
            rep.add(self.name, "path%d: result is canonical" % k, b == 1, "symexec")
            frame(rep, self.name, st, s, {out.obj}, "path%d" % k)


reg(ModPrime(8))
reg(ModPrime(6))


# any divisor: one unit per dividend size, divisor size and case of the top divisor bits
QUICK = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 4)]
THOROUGH = [(4, 2), (4, 3), (5, 4), (6, 1), (6, 4), (6, 6), (8, 6), (8, 8)]


def _units():
    for tier, sizes in (("quick", QUICK), ("thorough", THOROUGH)):
        for n, m in sizes:
            for case in (2, 1, 0):
                def go(exr, rep, n=n, m=m, case=case):
                    c = C[Divn.name]
                    fn = exr.find(c.name)
                    if fn is None:
                        rep.add(c.name, "function present", verify.UNKNOWN, "extract", detail="not found")
                    else:
                        c.one(exr, rep, fn, n, m, case)
                props.extra("C15", Divn.name, tier)(go)


_units()
