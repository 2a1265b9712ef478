"""Obligations, reports and the generic field-function contract."""
import itertools, time, traceback, random, os
from . import term as t, field as fl, ref, exec as ex
from .term import T, mk
from .ir import Unsupported, UNDEF
from .exec import Ptr, Violation, Infeasible, Poison
P = ref.P
S1, S2, S6, S12 = -1, -2, -6, -12

PROVED, FAILED, UNKNOWN, BOUNDED = "proved", "failed", "undecided", "bounded"


class Ob:
    __slots__ = ("fn", "name", "status", "backend", "time", "detail", "cex")

    def __init__(self, fn, name, status, backend, time_, detail="", cex=None):
        self.fn, self.name, self.status, self.backend, self.time, self.detail, self.cex = fn, name, status, backend, time_, detail, cex


class Report:
    def __init__(self):
        self.obs = []
        self.t0 = time.time()
        self.inlined = set()
        self.used = set()
        self.notes = []

    def add(self, fn, name, ok, backend, dt=0.0, detail="", cex=None):
        st = ok if isinstance(ok, str) else (PROVED if ok else FAILED)
        self.obs.append(Ob(fn, name, st, backend, dt, detail, cex))
        return st == PROVED

    def merge(self, o):
        self.obs += o.obs
        self.inlined |= o.inlined
        self.used |= o.used
        self.notes += o.notes

    def bad(self):
        return [o for o in self.obs if o.status in (FAILED, UNKNOWN)]


# ---- proving equalities of field terms under a path condition -------------------------

def path_relations(st):
    """rewrite rules from the known zero conditions of a path; list of polys known non-zero"""
    zeros, nonz = [], []
    for c, v in st.pc:
        if c.op == "issq" and v:            # sqrt(x)^2 = x
            x = c.args[0]
            zeros += [q for q in fl.vec(fl.fsub(fl.fsq(fl.fsqrt(x)), x)) if not q.iszero()]
            continue
        if c.op == "fzero":
            try:
                vs = fl.vec(c.args[0])
            except (NotImplementedError, OverflowError):
                continue
            if v:
                zeros += [x for x in vs if not x.iszero()]
            elif len(vs) == 1:
                nonz.append(vs[0])
    return zeros, nonz


class Ideal:
    """a small set of hypotheses: polynomials that are zero / non-zero, inverse atoms"""

    def __init__(self, zeros=(), nonzero=()):
        self.rules = []
        self.nonzero = [p for p in nonzero]
        for z in zeros:
            self.add_zero(z)

    def add_zero(self, z):
        for p in ((z,) if z.conj() == z else (z, z.conj())):
            p = self.red(p)
            if p.iszero():
                continue
            if p.isconst():
                self.rules = None
                raise Infeasible()
            # solve for the largest monomial with invertible coefficient; prefer a linear lone atom
            lead = None
            for m in sorted((m & ~fl.EM for m in p.d), reverse=True):
                if _is_atom(m) and not any((q & ~fl.EM) != m and fl.divides(m, q) for q in p.d):
                    lead = m
                    break
            self.rules.append(fl.relation(p, lead))

    def red(self, p):
        return fl.reduce(p, self.rules) if self.rules else p

    def known_nonzero(self, q):
        q = self.red(q)
        if q.isconst():
            return not q.iszero()
        mq = q.monic()
        for n in self.nonzero:
            r = self.red(n)
            if r.monic() == mq or r.conj().monic() == mq:
                return True
        if len(q.d) == 1:
            return all(self._atom_nonzero(k) for k in q.atoms())
        return False

    def _atom_nonzero(self, k):
        a = fl.apoly(k)
        for n in self.nonzero:
            r = self.red(n)
            if len(r.d) == 1 and k in r.atoms():
                return True
        # an inverse atom is non-zero when its argument is
        for i, q in fl.INVREL:
            if i == k:
                return self.known_nonzero(q)
        return False

    def with_inverses(self, p):
        """add the defining relations of the inverse atoms that occur (x*inv(x)=1, or inv(x)=0 when x=0)"""
        done = set()
        while True:
            at = p.atoms()
            for z, (l, r) in enumerate(self.rules):
                at |= r.atoms()
            todo = [(a, x) for a, x in fl.INVREL if a in at and a not in done]
            if not todo:
                return
            for a, x in todo:
                done.add(a)
                y = self.red(x)
                if y.iszero():
                    self.rules.append((1 << (fl.SHIFT * a), fl.ZERO))
                elif self.known_nonzero(x):
                    if y.isconst():
                        self.rules.append((1 << (fl.SHIFT * a), fl.cpoly(ref.f2inv(y.const()))))
                    else:
                        top = max(m & ~fl.EM for m in y.d)
                        self.rules.append(fl.relation(y * fl.apoly(a) - fl.ONE, top + (1 << (fl.SHIFT * a))))
                p = self.red(p)

    def is_zero(self, p):
        p = self.red(p)
        if p.iszero():
            return True
        self.with_inverses(p)
        p = self.red(p)
        if p.iszero():
            return True
        # clear denominators: multiply by the inverse atoms' arguments
        for _ in range(8):
            inv = [(a, x) for a, x in fl.INVREL if a in p.atoms() and self.known_nonzero(x)]
            if not inv:
                break
            a, x = inv[-1]
            sh = fl.SHIFT * a
            deg = max((m >> sh) & fl.EM for m in p.d)
            out = fl.ZERO
            pw = [fl.ONE]
            for _k in range(deg):
                pw.append(pw[-1] * x)
            for e in range(deg + 1):
                part = fl.Poly({m - (e << sh): c for m, c in p.d.items() if (m >> sh) & fl.EM == e})
                if part.d:
                    out = out + part * pw[deg - e]
            p = self.red(out)
            if p.iszero():
                return True
        return p.iszero()


def _is_atom(m):
    n = 0
    while m:
        n += m & fl.EM
        m >>= fl.SHIFT
    return n == 1


def fites(ts):
    """conditions of ite nodes in field terms"""
    seen, out, st = set(), [], list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fite" and x.args[0] not in out:
            out.append(x.args[0])
        for a in x.args:
            if isinstance(a, T) and a.w < 0:
                st.append(a)
    return out


def fsubst_ite(F, cond, val, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(F)
    if r is not None:
        return r
    if F.op == "fite" and F.args[0] is cond:
        r = fsubst_ite(F.args[1] if val else F.args[2], cond, val, memo)
    elif F.op in ("fvar", "fconst", "fraw", "fop"):
        r = F
    else:
        args = tuple(fsubst_ite(a, cond, val, memo) if isinstance(a, T) and a.w < 0 else a for a in F.args)
        r = F if args == F.args else rebuild(F, args)
    memo[F] = r
    return r


def rebuild(F, a):
    op = F.op
    if op == "fadd": return fl.fadd(*a)
    if op == "fsub": return fl.fsub(*a)
    if op == "fmul": return fl.fmul(*a)
    if op == "fneg": return fl.fneg(*a)
    if op == "finv": return fl.finv(*a)
    if op == "fconj": return fl.fconj(*a)
    if op == "comp": return fl.comp(*a)
    if op == "mk": return fl.mkn(a, F.w)
    if op == "fite": return fl.fite(*a)
    return mk(op, a, F.w)


def prove_eq(st, A, B, nonzero=(), zeros=(), depth=0):
    """A == B in the field on every state of the path; -> (True/False/None, detail)"""
    if A is B:
        return True, ""
    its = fites([A, B])
    if its:
        if depth > 8:
            return None, "too many case splits"
        c = its[0]
        for v in (True, False):
            s2 = st.copy()
            try:
                s2.assume(c, v)
            except Infeasible:
                continue
            r, d = prove_eq(s2, fsubst_ite(A, c, v), fsubst_ite(B, c, v), nonzero, zeros, depth + 1)
            if r is not True:
                return r, "case %r=%s: %s" % (c, v, d)
        return True, ""
    try:
        va, vb = fl.vec(A), fl.vec(B)
    except (NotImplementedError, OverflowError) as e:
        return None, "no polynomial normal form: %s" % e
    diff = [x - y for x, y in zip(va, vb)]
    if all(d.iszero() for d in diff):
        return True, ""
    z, nz = path_relations(st)
    try:
        I = Ideal(z + [x for q in zeros for x in fl.vec(q)], nz + [x for q in nonzero for x in fl.vec(q)])
    except Infeasible:
        return True, "infeasible"
    try:
        for i, d in enumerate(diff):
            if not I.is_zero(d):
                return False, "component %d differs: %s" % (i, repr(I.red(d))[:400])
    except OverflowError as e:
        return None, str(e)
    return True, ""


# ---- inputs ------------------------------------------------------------------------

def symbol(name, sort, gran=S1):
    n = {S1: 1, S2: 2, S6: 6, S12: 12}[sort] // {S1: 1, S2: 2, S6: 6, S12: 12}[gran]
    if n == 0:
        gran, n = sort, 1
    return fl.unflat([fl.fvar("%s%s" % (name, "" if n == 1 else i), gran) for i in range(n)], sort)


def partitions(n):
    """set partitions of range(n) as lists of class representatives"""
    def rec(i, cur, k):
        if i == n:
            yield tuple(cur)
            return
        for c in range(k + 1):
            yield from rec(i + 1, cur + [c], max(k, c + 1))
    yield from rec(0, [], 0)


class FieldFn(ex.Contract):
    """A function over field elements.

    params: list of ('in', sort) | ('io', sort) | ('out', sort) | ('u64r',) | ('u64',) in C++ order
    ret:    sort | 'bool' | None
    spec:   fn(inputs...) -> (list of values for outputs in order: ret first, then io/out params)
            values are field terms; for bool a Boolean term
    """

    def __init__(self, name, params, ret, spec, gran=None, pre=None, cases=None, goals=None, nonzero=None, ints=None,
                 apply_spec=None, lazy=False, merge=False, const_ret=False, alias=True):
        self.name, self.params, self.ret, self.spec = name, params, ret, spec
        self.gran = gran
        self.pre, self.cases, self.goals, self.nonzero, self.ints = pre, cases, goals, nonzero, ints
        self.apply_spec = apply_spec or spec
        self.lazy, self.merge, self.alias = lazy, merge, alias

    def _sig(self):
        return self.params

    # -- at a call site
    def apply(self, exr, st, args, I):
        args = list(args)
        out0 = args.pop(0) if isinstance(self.ret, int) else None
        ins, outs = [], []
        for (p, a) in zip(self.params, args):
            k = p[0]
            if k in ("in", "io"):
                ins.append(ex.read_el(st, a, p[1], "argument of " + self.name))
            elif k == "u64r":
                ins.append(st.load(a, 8))
            elif k == "u64":
                ins.append(a)
            if k in ("io", "out"):
                outs.append((a, p[1]))
        if self.pre:
            ok = self.pre(st, *ins)
            if ok is not True:
                raise Violation("precondition of %s not established: %s" % (self.name, ok), st)
        vals = self.apply_spec(*ins)
        if not isinstance(vals, (list, tuple)):
            vals = [vals]
        vals = list(vals)
        rv = None
        if isinstance(self.ret, int):
            ex.write_el(st, out0, vals.pop(0))
        elif self.ret == "bool":
            rv = vals.pop(0)
        for (a, s), v in zip(outs, vals):
            ex.write_el(st, a, v)
        return [(st, rv)]

    # -- against the body
    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
            return
        ptrs = [i for i, p in enumerate(self.params) if p[0] in ("in", "io", "out")]
        n = len(ptrs)
        for part in (partitions(n) if self.alias else [tuple(range(n))]):
            # only objects of the same sort may alias exactly
            cls = {}
            ok = True
            for k, c in zip(ptrs, part):
                s = self.params[k][1]
                if cls.setdefault(c, s) != s:
                    ok = False
            if not ok:
                continue
            for iv in (self.ints or [None]):
                self._verify1(exr, rep, fn, ptrs, part, iv)
        # read-only operands that are a component of an element updated in place
        big = [i for i in ptrs if self.params[i][0] == "io"]
        small = [j for j in ptrs if self.params[j][0] == "in" and big and abs(self.params[j][1]) < abs(self.params[big[0]][1])]
        if self.alias and len(big) == 1 and small:
            sz = {j: ex.SIZES[self.params[j][1]] for j in small}
            tot = ex.SIZES[self.params[big[0]][1]]
            for pat in itertools.product(*[[None] + list(range(0, tot, sz[j])) for j in small]):
                if any(x is not None for x in pat):
                    self._verify1(exr, rep, fn, ptrs, tuple(range(n)), None, {j: (big[0], o) for j, o in zip(small, pat) if o is not None})

    def _verify1(self, exr, rep, fn, ptrs, part, iv, sub={}):
        tag = "operands inside the target at " + ",".join("%d" % o for _, o in sub.values()) if sub else "alias" + "".join(map(str, part)) if len(set(part)) < len(part) else "distinct"
        if iv is not None:
            tag += "," + str(iv[0])
        t0 = time.time()
        try:
            fl.reset()
            st = exr.base.copy()
            objs, ins, args, before = {}, [], [], {}
            for i, p in sorted(enumerate(self.params), key=lambda q: q[0] in sub):
                if i in sub:
                    bi, off = sub[i]
                    ptr = objs[part[ptrs.index(bi)]][0]
                    ptr = Ptr(ptr.obj, off)
                    args.append(ptr)
                    ins.append(ex.read_el(st, ptr, p[1], "operand"))
                    continue
                if p[0] in ("in", "io", "out"):
                    c = part[ptrs.index(i)]
                    new = c not in objs
                    if new:
                        ptr = st.new(ex.SIZES[p[1]], "arg%d" % c, "arg")
                        E = symbol("x%d_" % c, p[1], self.gran or S1)
                        init = [q for j, q in enumerate(self.params) if j in ptrs and part[ptrs.index(j)] == c and q[0] in ("in", "io")]
                        if init:
                            ex.write_el(st, ptr, E)
                        objs[c] = (ptr, E)
                    ptr, E = objs[c]
                    args.append(ptr)
                    if p[0] in ("in", "io"):
                        ins.append(E)
                elif p[0] == "u64r":
                    ptr = st.new(8, "int", "arg")
                    v = iv[1] if iv else t.var("n%d" % i, 64)
                    st.store(ptr, 8, v)
                    args.append(ptr)
                    ins.append(v)
                elif p[0] == "u64":
                    v = iv[1] if iv else t.var("n%d" % i, 64)
                    args.append(v)
                    ins.append(v)
            snap = {oid: dict(o.cells) for oid, o in st.mem.items()}
            if isinstance(self.ret, int):
                rptr = st.new(ex.SIZES[self.ret], "ret", "arg")
                args = [rptr] + args
            exr.exclude = {self.name}
            exr.merge = self.merge
            exr.throws = []
            exr.used, exr.inlined = set(), set()
            res = exr.run(fn, st, args)
            rep.used |= exr.used
            rep.inlined |= exr.inlined
            if exr.throws:
                rep.add(self.name, tag + ": no exception", False, "symexec", time.time() - t0)
            if not res:
                rep.add(self.name, tag + ": returns", False, "symexec", time.time() - t0, "no path returns")
                return
        except Violation as e:
            rep.add(self.name, tag + ": safe execution", False, "symexec", time.time() - t0, str(e))
            return
        except (Unsupported, RecursionError, TypeError, KeyError) as e:
            rep.add(self.name, tag + ": execution", UNKNOWN, "symexec", time.time() - t0, "%s: %s" % (type(e).__name__, e))
            return
        finally:
            exr.exclude = set()
        for pi, (s, rv) in enumerate(res):
            self._post(exr, rep, s, rv, rptr if isinstance(self.ret, int) else None, args[1:] if isinstance(self.ret, int) else args, ins, snap, objs, "%s path%d" % (tag, pi) if len(res) > 1 else tag)

    def _post(self, exr, rep, st, rv, rptr, args, ins, snap, objs, tag):
        t0 = time.time()
        try:
            got, outptrs = [], set()
            if rptr is not None:
                got.append(ex.read_el(st, rptr, self.ret, "result"))
            elif self.ret == "bool":
                got.append(rv)
            for p, a in zip(self.params, args):
                if p[0] in ("io", "out"):
                    got.append(ex.read_el(st, a, p[1], "output"))
                    outptrs.add(a.obj)
        except Violation as e:
            rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
            return
        # frame
        for oid, cells in snap.items():
            if oid in outptrs or (rptr and oid == rptr.obj):
                continue
            o = st.mem.get(oid)
            if o is not None and o.cells != cells and not (oid.startswith("g:") and not cells):
                rep.add(self.name, tag + ": frame", False, "symexec", 0, "object %s is modified" % oid)
                return
        cases = self.cases(*ins) if self.cases else [((), ())]
        for ci, (assume, nonz) in enumerate(cases):
            s = st.copy()
            try:
                for c, v in assume:
                    s.assume(c, v)
            except Infeasible:
                continue
            if self.goals:
                gl = self.goals(s, ins, got)
            else:
                want = self.spec(*ins)
                want = list(want) if isinstance(want, (list, tuple)) else [want]
                gl = list(zip(got, want))
            for gi, (g, w) in enumerate(gl):
                t1 = time.time()
                if isinstance(g, T) and g.w < 0 or isinstance(w, T) and w.w < 0:
                    ok, d = prove_eq(s, g, w, nonz)
                else:
                    ok, d = prove_bool(s, g, w, nonz)
                rep.add(self.name, "%s: post%d.%d" % (tag, ci, gi), UNKNOWN if ok is None else ok, "poly", time.time() - t1, d)


def prove_bool(st, g, w, nonz=()):
    """two Boolean terms over field facts are equal on the path (case split over their atoms)"""
    if g is w or (isinstance(g, int) and isinstance(w, int) and g == w):
        return True, ""
    for x in (g, w):
        if not isinstance(x, (int, T)):
            return False, "result is %r" % (x,)
    g, w = ex.fold_limbs(g), ex.fold_limbs(w)
    at = []
    def atoms(x):
        if isinstance(x, int):
            return
        if x.op in ("and", "or", "not") or (x.op == "ite" and x.w == 1):
            for a in x.args:
                atoms(a)
        elif x not in at:
            at.append(x)
    atoms(g)
    atoms(w)
    if len(at) > 14:
        return None, "too many Boolean atoms"

    def ev(x, s):
        if isinstance(x, int):
            return x
        if x.op == "not":
            return 1 - ev(x.args[0], s)
        if x.op == "and":
            return ev(x.args[0], s) & ev(x.args[1], s)
        if x.op == "or":
            return ev(x.args[0], s) | ev(x.args[1], s)
        if x.op == "ite":
            return ev(x.args[1], s) if ev(x.args[0], s) else ev(x.args[2], s)
        return int(s.decide(x))

    def rec(s, i):
        if i == len(at):
            a, b = ev(g, s), ev(w, s)
            if a != b:
                return False, "differs when " + ", ".join("%s%s" % ("" if v else "not ", t.show(c, 3)) for c, v in s.pc)
            return True, ""
        if s.decide(at[i]) is not None:
            return rec(s, i + 1)
        for v in (True, False):
            s2 = s.copy()
            try:
                s2.assume(at[i], v)
                if not consistent(s2):
                    continue
            except Infeasible:
                continue
            r = rec(s2, i + 1)
            if r[0] is not True:
                return r
        return True, ""
    return rec(st, 0)


def consistent(st):
    """is the set of zero / non-zero facts consistent (cheap, sound: False only when contradictory)?"""
    for c, v in st.pc:
        if c.op in ("and", "or"):
            a, b = st.decide(c.args[0]), st.decide(c.args[1])
            if c.op == "and":
                r = False if a is False or b is False else True if a and b else None
            else:
                r = True if a or b else False if a is False and b is False else None
            if r is not None and r != v:
                return False
    try:
        z, nz = path_relations(st)
        I = Ideal(z, nz)
        for p in nz:
            if I.red(p).iszero():
                return False
    except Infeasible:
        return False
    except OverflowError:
        pass
    return True


def guarded(rep, fn, f):
    """run a verification step, turning engine limits into undecided obligations"""
    t0 = time.time()
    try:
        return f()
    except Violation as e:
        rep.add(fn, "safe execution", False, "symexec", time.time() - t0, str(e))
    except Infeasible:
        rep.add(fn, "execution", UNKNOWN, "symexec", time.time() - t0, "infeasible")
    except (Unsupported, RecursionError, TypeError, KeyError, AttributeError, IndexError, OverflowError, ValueError, AssertionError) as e:
        rep.add(fn, "execution", UNKNOWN, "symexec", time.time() - t0, "%s: %s" % (type(e).__name__, str(e)[:500]))
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
