"""Contracts on the curve groups g1 and g2 (C05, C07 predicates; scalar multiplication lives in c_scale)."""
import time
from . import term as t, field as fl, ref, exec as ex, verify, grp
from .term import T, mk
from .exec import Ptr, Violation, Contract, Infeasible
from .ir import Unsupported
from .verify import prove_eq, prove_bool, UNKNOWN, Ideal, path_relations
from .grp import *
from .c_code import run, frame
P = ref.P
B = "bls12_381::"
C = {}
CLS = {G1: "g1", G2: "g2"}
BETA = None


def reg(c):
    C[c.name] = c
    return c


def no_order_two():
    """no affine point of E(F_p) or E'(F_p^2) has y = 0: x^3 = -b has no root (b is a non-cube)"""
    a = pow(-4 % P, (P - 1) // 3, P) != 1
    b = ref.f2pow((-4 % P, -4 % P), (P * P - 1) // 3) != ref.F2O
    return a and b


assert no_order_two()


def factor_nonzero(I, q, factors):
    """q is a non-zero constant times a product of the given non-zero polynomials"""
    q = I.red(q)
    for _ in range(40):
        if q.iszero():
            return False
        if q.isconst():
            return True
        for f in factors:
            f = I.red(f)
            if f.isconst():
                continue
            r = exact_div(q, f)
            if r is not None:
                q = r
                break
        else:
            return False
    return False


def exact_div(q, f):
    """q / f when the division is exact"""
    lead = max(m & ~fl.EM for m in f.d)
    lc = fl.Poly({m & fl.EM: c for m, c in f.d.items() if (m & ~fl.EM) == lead}).const()
    ic = ref.f2inv(lc)
    out = fl.ZERO
    cur = q
    for _ in range(400):
        if cur.iszero():
            return out
        top = max(m & ~fl.EM for m in cur.d)
        if not fl.divides(lead, top):
            return None
        cc = fl.Poly({m & fl.EM: c for m, c in cur.d.items() if (m & ~fl.EM) == top}).const()
        k = ref.f2mul(cc, ic)
        term = fl.Poly({(top - lead): k[0], **({(top - lead) | 1: k[1]} if k[1] else {})}) if k[0] else fl.Poly({(top - lead) | 1: k[1]})
        out = out + term
        cur = cur - term * f
    return None


class Facts:
    """algebraic facts of a path: zero / non-zero field terms"""

    def __init__(self, st, zeros=(), nonzero=()):
        self.st, self.zeros, self.nz = st, list(zeros), list(nonzero)

    def eq(self, A, Bt):
        return prove_eq(self.st, A, Bt, self.nz, self.zeros)

    def nonzero(self, F):
        z, nz = path_relations(self.st)
        try:
            I = Ideal(z + [x for q in self.zeros for x in fl.vec(q)], [])
        except Infeasible:
            return True
        fs = nz + [x for q in self.nz for x in fl.vec(q)]
        fs = fs + [f.conj() for f in fs]
        return factor_nonzero(I, fl.vec(F)[0], fs)


def with_case(st, facts):
    s = st.copy()
    for c, v in facts:
        s.assume(c, v)
    if not verify.consistent(s):
        raise Infeasible()
    return s


def split(st, F):
    """both possibilities of F == 0"""
    for v in (True, False):
        try:
            yield v, with_case(st, [(fl.fzero_atom(F), v)])
        except Infeasible:
            continue


def affine_same(fc, g, c, x, y, z):
    """coordinates c represent the (affine) point with Jacobian coordinates (x, y, z), z != 0"""
    X, Y, Zc = c
    if not fc.nonzero(Zc):
        return False, "z is not shown to be non-zero"
    ok, d = fc.eq(fmul(X, fsq(z)), fmul(x, fsq(Zc)))
    if ok is not True:
        return ok, "x coordinate: " + d
    ok, d = fc.eq(fmul(Y, fmul(fsq(z), z)), fmul(y, fmul(fsq(Zc), Zc)))
    return ok, d and "y coordinate: " + d


def represents(st, g, c, nf):
    """do coordinates c represent the group element nf (a combination of canonical bases)?"""
    n = as_point(st, g, c)
    if n is not None and geq(st, n, nf):
        return True, ""
    its = verify.fites(list(c))
    if its:
        for v in (True, False):
            s2 = st.copy()
            try:
                s2.assume(its[0], v)
                if not verify.consistent(s2):
                    continue
            except Infeasible:
                continue
            r = represents(s2, g, tuple(verify.fsubst_ite(q, its[0], v) for q in c), nf)
            if r[0] is not True:
                return r
        return True, ""
    items = list(nf.d.items())
    bases = [(b, e) for (b, e), v in items]
    if any(b.op != "pbase" or e for b, e in bases) or len(bases) > 2 or any(not isinstance(v, int) for _, v in items):
        return None, "target %r has no chord-and-tangent form (result %r)" % (nf, n)
    # case analysis on which operands are the identity
    for b, e in bases:
        zc = pco(b, 2)
        if st.decide(fl.fzero_atom(zc)) is None:
            for v, s in split(st, zc):
                r = represents(s, g, c, gnorm(nf, [nfof(b)]) if v else nf)
                if r[0] is not True:
                    return r
            return True, ""
        if st.decide(fl.fzero_atom(zc)):
            return represents(st, g, c, gnorm(nf, [nfof(b)])) if gnorm(nf, [nfof(b)]) != nf else (None, "loop")
    if n is not None:
        return generic_pair(st, g, c, nf, n)
    return generic_pair(st, g, c, nf, None)


def signed(b, v, mult=1):
    x, y, z = (pco(b, i) for i in range(3))
    return x, (y if v > 0 else fneg(y)), z


def generic_pair(st, g, c, nf, n):
    items = sorted(nf.d.items(), key=lambda q: q[0][0].id)
    rel = [curve_poly(g, *(pco(b, i) for i in range(3))) for (b, e), _ in items]
    if not items:
        if n is not None:
            return geq(st, n, nf), "result is %r, expected the identity" % n
        return prove_eq(st, c[2], zero(c[2].w), zeros=rel)
    if len(items) == 1:
        (b, e), v = items[0]
        x, y, z = signed(b, v)
        ynz = [pco(b, 1), pco(b, 2)]           # no point of order two
        fc = Facts(st, rel, ynz)
        if abs(v) == 1:
            if n is not None:
                return geq(st, n, nf), "result is %r, expected %r" % (n, nf)
            return affine_same(fc, g, c, x, y, z)
        if abs(v) == 2:
            if n is not None:
                return geq(st, n, nf), "result is %r, expected %r" % (n, nf)
            x2, y2 = fsq(x), fsq(y)
            xy2 = fmul(x, y2)
            X3 = fsub(fscale(fsq(x2), 9), fscale(xy2, 8))
            Y3 = fsub(fmul(fscale(x2, 3), fsub(fscale(xy2, 4), X3)), fscale(fsq(y2), 8))
            return affine_same(fc, g, c, X3, Y3, fscale(fmul(y, z), 2))
        return None, "multiple %d" % v
    ((b1, _), v1), ((b2, _), v2) = items
    if abs(v1) != 1 or abs(v2) != 1:
        return None, "combination"
    x1, y1, z1 = signed(b1, v1)
    x2, y2, z2 = signed(b2, v2)
    zz1, zz2 = fsq(z1), fsq(z2)
    u1, u2 = fmul(x1, zz2), fmul(x2, zz1)
    s1, s2 = fmul(y1, fmul(zz2, z2)), fmul(y2, fmul(zz1, z1))
    H, Rr = fsub(u2, u1), fsub(s2, s1)
    Rp = fadd(s2, s1)
    for v, s in split(st, H):
        if not v:
            if n is not None:
                if not geq(s, n, nf):
                    return False, "result is %r, expected %r" % (n, nf)
                continue
            hh = fsq(H)
            h3 = fmul(hh, H)
            X3 = fsub(fsub(fsq(Rr), h3), fscale(fmul(u1, hh), 2))
            Y3 = fsub(fmul(Rr, fsub(fmul(u1, hh), X3)), fmul(s1, h3))
            Z3 = fmul(H, fmul(z1, z2))
            r = affine_same(Facts(s, (), [H, z1, z2]), g, c, X3, Y3, Z3)
            if r[0] is not True:
                return r[0], "sum of distinct x: " + r[1]
            continue
        # same x: either equal or opposite points
        for w, s_ in split(s, Rr):
            if w:      # P1 = P2
                nf2 = NF(g, {(b1, 0): 2 * v1})
                same_rel = nfof(b2).scale(v2) - nfof(b1).scale(v1)
                if n is not None:
                    if not gnorm(n - nf, [same_rel, same_rel.endo()]).iszero():
                        return False, "equal operands: result is %r, expected %r" % (n, nf)
                    continue
                r = generic_pair(s_, g, c, nf2, None)
                if r[0] is not True:
                    return r[0], "equal operands: " + r[1]
            else:      # opposite (their y coordinates differ and their squares agree)
                try:
                    s3 = with_case(s_, [(fl.fzero_atom(Rp), True)])
                except Infeasible:
                    continue
                opp = nfof(b2).scale(v2) + nfof(b1).scale(v1)
                if n is not None:
                    if not gnorm(n - nf, [opp, opp.endo()]).iszero():
                        return False, "opposite operands: result is %r" % n
                    continue
                ok, d = prove_eq(s3, c[2], zero(c[2].w), zeros=rel)
                if ok is not True:
                    return ok, "opposite operands: z: " + d
    return True, ""


from .field import fscale


class PointFn(Contract):
    """params: ('in'|'io'|'out', group); ret: group | 'bool' | None; spec on group elements."""

    def __init__(self, name, params, ret, spec, home="C05", free=False):
        self.name, self.params, self.ret, self.spec, self.home = name, params, ret, spec, home

    def apply(self, exr, st, args, I):
        args = list(args)
        out0 = args.pop(0) if isinstance(self.ret, int) else None
        ins, outs = [], []
        for p, a in zip(self.params, args):
            if p[0] in ("in", "io"):
                ins.append(read_point(st, p[1], a, self.name))
            if p[0] in ("io", "out"):
                outs.append((p[1], a))
        vals = self.spec(*ins)
        vals = list(vals) if isinstance(vals, (list, tuple)) else [vals]
        rv = None
        if isinstance(self.ret, int):
            write_nf(st, self.ret, out0, vals.pop(0))
        elif self.ret == "bool":
            rv = vals.pop(0)
        for (g, a), v in zip(outs, vals):
            write_nf(st, g, a, v)
        return [(st, rv)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
            return
        ptrs = list(range(len(self.params)))
        for part in verify.partitions(len(ptrs)):
            cls, ok = {}, True
            for k, c in zip(ptrs, part):
                ok &= cls.setdefault(c, self.params[k][1]) == self.params[k][1]
            if ok:
                self.one(exr, rep, fn, part)

    def one(self, exr, rep, fn, part):
        tag = "alias" + "".join(map(str, part)) if len(set(part)) < len(part) else "distinct"
        fl.reset()
        st = exr.base.copy()
        objs, ins, args = {}, [], []
        for i, (p, c) in enumerate(zip(self.params, part)):
            if c not in objs:
                ptr = st.new(PSIZE[p[1]], "arg%d" % c, "arg")
                b = base(p[1], "P%d" % c)
                if any(q[0] in ("in", "io") for q, d in zip(self.params, part) if d == c):
                    write_coords(st, p[1], ptr, tuple(pco(b, k) for k in range(3)))
                objs[c] = (ptr, b)
            args.append(objs[c][0])
            if p[0] in ("in", "io"):
                ins.append(nfof(objs[c][1]))
        before = st.copy()
        if isinstance(self.ret, int):
            args = [st.new(PSIZE[self.ret], "ret", "arg")] + args
        res = run(exr, rep, self.name, fn, st, args)
        for k, (s, rv) in enumerate(res or []):
            tg = tag if len(res) == 1 else "%s path%d" % (tag, k)
            if not verify.consistent(s):
                continue
            want = self.spec(*ins)
            want = list(want) if isinstance(want, (list, tuple)) else [want]
            outs, w2 = [], []
            if isinstance(self.ret, int):
                outs.append((self.ret, args[0]))
            elif self.ret == "bool":
                ok, d = prove_bool(s, rv, want.pop(0))
                rep.add(self.name, tg + ": result", UNKNOWN if ok is None else ok, "poly", 0, d)
            a2 = args[1:] if isinstance(self.ret, int) else args
            outs += [(p[1], a) for p, a in zip(self.params, a2) if p[0] in ("io", "out")]
            frame(rep, self.name, before, s, {a.obj for _, a in outs}, tg)
            for j, ((g, a), w) in enumerate(zip(outs, want)):
                t0 = time.time()
                try:
                    c = read_coords(s, g, a, "result")
                except Violation as e:
                    rep.add(self.name, tg + ": result is canonical", False, "symexec", 0, str(e))
                    continue
                ok, d = represents(s, g, c, w)
                rep.add(self.name, "%s: result represents the group-law value" % tg, UNKNOWN if ok is None else ok, "poly", time.time() - t0, d)


def pf(g, sig, params, ret, spec, **kw):
    return reg(PointFn(B + CLS[g] + "::" + sig, params, ret, spec, **kw))


for g in (G1, G2):
    r = "bls12_381::%s const&" % CLS[g]
    pf(g, "add(%s) const" % r, [("in", g), ("in", g)], g, lambda a, b: a + b)
    pf(g, "addAssign(%s)" % r, [("io", g), ("in", g)], None, lambda a, b: a + b)
    pf(g, "dbl() const", [("in", g)], g, lambda a: a + a)
    pf(g, "doubleAssign()", [("io", g)], None, lambda a: a + a)
    pf(g, "negate() const", [("in", g)], g, lambda a: a.scale(-1))
    pf(g, "subtract(%s) const" % r, [("in", g), ("in", g)], g, lambda a, b: a - b)
    pf(g, "subtractAssign(%s)" % r, [("io", g), ("in", g)], None, lambda a, b: a - b)


class CoordFn(Contract):
    """contracts stated on coordinates: any triple of field elements"""

    def __init__(self, name, g, nargs, ret, spec, home, onpoints=None):
        self.name, self.g, self.nargs, self.ret, self.spec, self.home = name, g, nargs, ret, spec, home
        self.onpoints = onpoints

    def apply(self, exr, st, args, I):
        args = list(args)
        out = args.pop(0) if isinstance(self.ret, int) else None
        cs = [read_coords(st, self.g, a) for a in args[:self.nargs]]
        if self.onpoints:
            ns = [as_point(st, self.g, c) for c in cs]
            if all(n is not None for n in ns):
                v = self.onpoints(*ns)
                if v is not None:
                    return [(st, v)]
        v = self.spec(*cs)
        if out is not None:
            write_coords(st, self.g, out, v)
            return [(st, None)]
        return [(st, v)]

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found in the current tree")
            return
        for part in verify.partitions(self.nargs):
            fl.reset()
            st = exr.base.copy()
            objs, args, cs = {}, [], []
            for c in part:
                if c not in objs:
                    ptr = st.new(PSIZE[self.g], "arg%d" % c, "arg")
                    co = tuple(fl.fvar("%s%d" % (nm, c), SORT[self.g]) for nm in "xyz")
                    write_coords(st, self.g, ptr, co)
                    objs[c] = (ptr, co)
                args.append(objs[c][0])
                cs.append(objs[c][1])
            before = st.copy()
            out = None
            if isinstance(self.ret, int):
                out = st.new(PSIZE[self.g], "ret", "arg")
                args = [out] + args
            tag = "distinct" if len(set(part)) == len(part) else "same object"
            for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, args) or []):
                if not verify.consistent(s):
                    continue
                frame(rep, self.name, before, s, {out.obj} if out else (), "%s path%d" % (tag, k))
                want = self.spec(*cs)
                if out is None:
                    ok, d = prove_bool(s, rv, want)
                    rep.add(self.name, "%s path%d: result" % (tag, k), UNKNOWN if ok is None else ok, "poly", 0, d)
                else:
                    try:
                        got = read_coords(s, self.g, out, "result")
                    except Violation as e:
                        rep.add(self.name, tag + ": result is canonical", False, "symexec", 0, str(e))
                        continue
                    for i in range(3):
                        ok, d = prove_eq(s, got[i], want[i])
                        rep.add(self.name, "%s path%d: coordinate %s" % (tag, k, "xyz"[i]), UNKNOWN if ok is None else ok, "poly", 0, d)


def isz(F):
    return fl.fzero_atom(F)


def oncurve_spec(g):
    def f(c):
        return t.or_(isz(c[2]), isz(curve_poly(g, *c)), 1)
    return f


def eq_spec(a, b):
    za, zb = isz(a[2]), isz(b[2])
    z1, z2 = fsq(a[2]), fsq(b[2])
    ex_ = isz(fsub(fmul(a[0], z2), fmul(b[0], z1)))
    ey = isz(fsub(fmul(a[1], fmul(z2, b[2])), fmul(b[1], fmul(z1, a[2]))))
    both = t.and_(za, zb, 1)
    none = t.and_(t.not_(za), t.not_(zb), 1)
    return t.or_(both, t.and_(none, t.and_(ex_, ey, 1), 1), 1)


for g in (G1, G2):
    n = B + CLS[g] + "::"
    r = "bls12_381::%s const&" % CLS[g]
    s = SORT[g]
    reg(CoordFn(n + "isZero() const", g, 1, "bool", lambda c: isz(c[2]), "C05", onpoints=lambda a: gzero(a)))
    reg(CoordFn(n + "isAffine() const", g, 1, "bool", (lambda s: lambda c: isz(fsub(c[2], one(s))))(s), "C05"))
    reg(CoordFn(n + "isOnCurve() const", g, 1, "bool", oncurve_spec(g), "C07", onpoints=lambda a: 1))
    reg(CoordFn(n + "equal(%s) const" % r, g, 2, "bool", eq_spec, "C05", onpoints=lambda a, b: gzero(a - b)))
    reg(CoordFn(n + "zero()", g, 0, g, (lambda s: lambda: (zero(s), one(s), zero(s)))(s), "C05"))


class Zero(CoordFn):
    """returns a representation of the identity (z = 0)"""


class Affine(Contract):
    """ensures: same point; z is 1, or the point is the identity (z = 0)"""
    home = "C05"

    def __init__(self, g):
        self.g, self.name = g, B + CLS[g] + "::affine() const"

    def apply(self, exr, st, args, I):
        g = self.g
        s = SORT[g]
        n = read_point(st, g, args[1], self.name)
        zc = gzero(n)
        out = []
        d = st.decide(zc)
        for v in (True, False):
            if d is not None and d != v:
                continue
            s2 = st.copy()
            try:
                s2.assume(zc, v)
            except Infeasible:
                continue
            if v:
                write_nf(s2, g, args[0], NF(g))
            elif len(n.d) == 1 and next(iter(n.d))[0].op == "pbase" and isinstance(next(iter(n.d))[0].args[0], tuple) and next(iter(n.d))[0].args[0][0] == "const" \
                    and next(iter(n.d))[1] == 0 and next(iter(n.d.values())) in (1, -1):
                pt = next(iter(n.d))[0].args[0][1]
                y = fl.fconst(pt[1], s)
                write_coords(s2, g, args[0], (fl.fconst(pt[0], s), y if next(iter(n.d.values())) == 1 else fneg(y), one(s)))
            else:
                write_coords(s2, g, args[0], (afc(n, 0), afc(n, 1), one(s)))
            out.append((s2, None))
        return out

    def verify(self, exr, rep):
        fn = exr.find(self.name)
        if fn is None:
            rep.add(self.name, "function present", UNKNOWN, "extract", detail="not found")
            return
        g = self.g
        fl.reset()
        st = exr.base.copy()
        p, out = st.new(PSIZE[g], "this", "arg"), st.new(PSIZE[g], "ret", "arg")
        b = base(g, "P0")
        write_coords(st, g, p, tuple(pco(b, k) for k in range(3)))
        before = st.copy()
        for k, (s, rv) in enumerate(run(exr, rep, self.name, fn, st, [out, p]) or []):
            if not verify.consistent(s):
                continue
            tg = "path%d" % k
            frame(rep, self.name, before, s, {out.obj}, tg)
            try:
                c = read_coords(s, g, out, "result")
            except Violation as e:
                rep.add(self.name, tg + ": result is canonical", False, "symexec", 0, str(e))
                continue
            ok, d = represents(s, g, c, nfof(b))
            rep.add(self.name, tg + ": same point", UNKNOWN if ok is None else ok, "poly", 0, d)
            ok, d = True, ""
            for v, s2 in split(s, pco(b, 2)):
                if ok is True:
                    ok, d = prove_eq(s2, c[2], zero(SORT[g]) if v else one(SORT[g]))
            rep.add(self.name, tg + ": z is 1 (0 for the identity)", UNKNOWN if ok is None else ok, "poly", 0, d)


for g in (G1, G2):
    reg(Affine(g))
