"""Contracts of the limb routines against the assembled code (and the portable C++ code)."""
import re, time, itertools
from math import floor
from fractions import Fraction as Fr
from . import ir, term, x86, wordint as wi, ref, verify, props, field, field as fl, exec as ex
from .wordint import Word, K, Ctx, W64, Poly, C as CC, TOP
from .x86 import Adr, S, SAVED
from .exec import Violation
from .ir import Unsupported
P = ref.P
FP, CFP = "bls12_381::fp*", "bls12_381::fp const*"

# (routine, arity, list of operand bounds: multiples of p (value <= k*p-1), 'raw' = any 384-bit value, or 'p' for value <= p)
ADDB = [(a, b) for a in range(1, 9) for b in range(1, 10 - a)]
MULB = [(a, b) for a in range(1, 10) for b in range(1, 10) if a * b <= 9] + [("raw", 1), (1, "raw")]
SPEC = {
    "_add": (2, ADDB), "_double": (1, [(k,) for k in (1, 2, 3, 4)]), "_subtract": (2, [(k, 1) for k in range(1, 10)]),
    "_ladd": (2, ADDB), "_ldouble": (1, [(k,) for k in (1, 2, 3, 4)]), "_lsubtract": (2, [("raw", "le")]),
    "__negate": (1, [("le p",)]), "__multiply": (2, MULB), "__mul_ex": (2, MULB),
}


def bound(b):
    return TOP - 1 if b == "raw" else P if b == "le p" else b * P - 1


def setup(ctx, name, b, other=None):
    words = [ctx.word(name="%s%d" % (name, i)) for i in range(6)]
    if b == "le":          # value <= other: other = value + w
        tot, _ = ctx.atom(0, TOP - 1, name)
        ctx.group(words, tot)
        return words, tot
    tot, _ = ctx.atom(0, bound(b), name.upper())
    hi5 = bound(b) >> 320
    a5 = next(iter(words[5].p.d))[0]
    ctx.rng[a5] = (0, min(W64 - 1, hi5))
    words[5] = Word(words[5].p, 0, min(W64 - 1, hi5))
    ctx.group(words, tot)
    return words, tot


def final_cases(ctx, flags):
    """case split on carries that the routine threw away although they can be set"""
    cases = [ctx]
    for f in flags:
        if f.isconst() or f.used:
            continue
        nxt = []
        for c in cases:
            for v in (0, 1):
                d = c.copy()
                if d.assume_zero(f.p - CC(v)):
                    nxt.append(d)
        cases = nxt
        if len(cases) > 64:
            raise Unsupported("too many discarded carries")
    return cases


def post(nm, bs, ctx, words, X, Y, rep, fn, tag, t0, plain=None):
    """obligations on the six result words"""
    V = ctx.norm(wi.value(words))
    full = lambda p: ctx.norm(grp(ctx, p))
    name = "%s: " % tag
    if nm in ("__multiply", "__mul_ex", "_multiply", "_square"):
        pc = plain or ctx
        d = pc.norm(wi.value(words)).scale(TOP) - X * Y
        ok1 = wi.divisible(expand(pc, d), P)
        ok2 = in_range(ctx, V, P - 1)
        rep.add(fn, name + "result * 2^384 = x*y (mod p)", ok1, "word polynomials", time.time() - t0)
        rep.add(fn, name + "result < p", ok2, "interval arithmetic", 0)
        return
    want = {"_add": lambda: X + Y, "_ladd": lambda: X + Y, "_double": lambda: X.scale(2), "_ldouble": lambda: X.scale(2),
            "_subtract": lambda: X - Y, "_lsubtract": lambda: X - Y, "__negate": lambda: CC(P) - X}[nm]()
    d = expand(plain or ctx, wi.value(words) - want)
    if nm in ("_ladd", "_ldouble", "_lsubtract", "__negate"):
        rep.add(fn, name + "result is the exact integer", not d.d, "word polynomials", time.time() - t0, repr(dict(list(d.d.items())[:4]))[:300])
        return
    rep.add(fn, name + "result = operand combination (mod p)", d.isconst() and wi.divisible(d, P), "word polynomials", time.time() - t0, repr(dict(list(d.d.items())[:4]))[:300])
    if nm in ("_add", "_double"):
        ks = bs[0] + (bs[1] if len(bs) > 1 else bs[0])
        lim = max(1, ks - 1) * P - 1
    else:
        lim = bs[0] * P - 1
    rep.add(fn, name + "result within its bound", in_range(ctx, V, lim), "interval arithmetic", 0)


def grp(ctx, p):
    for g in ctx.groups:
        p = ctx.subst(p, *g)
    return p


def expand(ctx, p):
    return grp(ctx, ctx.norm(grp(ctx, p)))


def in_range(ctx, V, hi):
    """V <= hi (V is a sum of words, so it is non-negative by construction)"""
    l, h = ctx.bounds(V)
    if h <= hi:
        return True
    # combine with one equation a = r of the path: V = (V - t r) + t a, a within its range
    V = grp(ctx, ctx.norm(V))
    for a, r in ctx.eqs:
        r = grp(ctx, ctx.norm(r))
        ts = {V.d[m] / r.d[m] for m in r.d if m in V.d and m}
        lo_, hi_ = ctx.rng[a]
        for t in ts:
            q = V - r.scale(t)
            cands = [ctx.norm(q)]
            for g in ctx.groups:
                cands += [ctx.subst(x, *g) for x in cands]
            # the bound of the combination is rational; only the bound of the integer V itself is rounded
            if floor(min(ctx._iv(x)[1] for x in cands) + (t * hi_ if t > 0 else t * lo_)) <= hi:
                return True
    return False


def verify_asm(nm):
    arity, bounds = SPEC[nm]
    fn = "bls12_381::%s(%s)" % (nm, ", ".join([FP] + [CFP] * arity))

    def go(e, rep):
        fns = x86.functions()
        code = fns.get(fn)
        if code is None:
            rep.add(fn, "function present", verify.UNKNOWN, "extract")
            return
        pats = [(0, 1), (0, 0)] if arity == 1 else [(0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0)]
        for pat in pats:
            bl = bounds if len(set(pat)) == len(pat) or nm not in ("__multiply", "__mul_ex") else [b for b in bounds if b in ((1, 1), (3, 3), (2, 4), (1, 9), (9, 1), (1, "raw"), ("raw", 1))]
            for bs in bl:
                if arity == 2 and pat[1] == pat[2] and bs[0] != bs[1]:
                    continue
                one(nm, fn, code, pat, bs, rep)
    return fn, go


def one(nm, fn, code, pat, bs, rep):
    t0 = time.time()
    tag = "%s, bounds %s" % ("distinct" if len(set(pat)) == len(pat) else "alias" + "".join(map(str, pat)), ",".join(map(str, bs)))
    s = S()
    vals = {}
    bnd = {}
    for q, b in zip(pat[1:], bs):
        if q not in bnd:
            bnd[q] = b
    objs = ["obj%d" % q for q in pat]
    try:
        ordr = list(bnd)
        if nm == "_lsubtract" and len(ordr) == 2:
            yw, Y = setup(s.ctx, "y", "le")
            vals[pat[2]] = (yw, Y)
            xw = [s.ctx.word(name="x%d" % i) for i in range(6)]
            dW, _ = s.ctx.atom(0, TOP - 1, "D")
            s.ctx.group(xw, Y + dW)
            vals[pat[1]] = (xw, Y + dW)
        else:
            for i, q in enumerate(ordr):
                vals[q] = setup(s.ctx, "xy"[i], bnd[q] if bnd[q] != "le" else "raw")
        for q, (w, tot) in vals.items():
            for i in range(6):
                s.mem[("obj%d" % q, 8 * i)] = w[i]
        init = {}
        for r in x86.R64:
            init[r] = s.ctx.word(name=r)
            s.r[r] = init[r]
        s.r["rsp"] = Adr("stack", 0)
        for r, o in zip(("rdi", "rsi", "rdx"), objs):
            s.r[r] = Adr(o, 0)
        outs = x86.run(code, s)
        if not outs:
            rep.add(fn, tag + ": returns", False, "symexec", time.time() - t0)
        X = vals[pat[1]][1]
        Y = vals[pat[2]][1] if len(pat) > 2 else None
        for k, o in enumerate(outs):
            for c in final_cases(o.ctx, o.flags):
                words = []
                for i in range(6):
                    v = o.mem.get((objs[0], 8 * i))
                    if not isinstance(v, Word) or (objs[0], 8 * i) not in o.writes and (pat[0] not in pat[1:]):
                        raise Violation("result word %d is not written" % i)
                    words.append(v)
                post(nm, bs, c, words, X, Y, rep, fn, tag + (" path%d" % k if len(outs) > 1 else ""), t0)
            badw = [w for w in o.writes if w[0] not in ("stack", objs[0])]
            badr = [r for r in SAVED if o.r.get(r) is not init[r]]
            sp = o.r["rsp"]
            rep.add(fn, tag + ": frame (only the result is written, callee-saved registers and stack pointer restored)",
                    not badw and not badr and isinstance(sp, Adr) and sp.obj == "stack" and sp.off == 0, "symexec", 0, "%s %s" % (badw, badr))
    except Violation as e:
        rep.add(fn, tag + ": safe execution", False, "symexec", time.time() - t0, str(e))


def verify_wrapper(nm, ks, want):
    """_square / _negate: C++ wrappers over the assembler routines, executed on the IR with those routines' contracts"""
    fn = "bls12_381::%s(%s, %s)" % (nm, FP, CFP)

    def go(e, rep):
        f = e.find(fn)
        if f is None:
            rep.add(fn, "function present", verify.UNKNOWN, "extract")
            return
        for alias in (0, 1):
            for k in ks:
                fl.reset()
                st = e.base.copy()
                x = verify.symbol("x", verify.S1, verify.S1)
                pz = st.new(48, "z", "arg")
                px = pz if alias else st.new(48, "x", "arg")
                ex.write_fp(st, px, x, k)
                e.exclude, e.merge, e.throws = {fn}, False, []
                e.used, e.inlined = set(), set()
                tag = "%s, operand < %d p" % ("z = x" if alias else "distinct", k)
                try:
                    res = e.run(f, st, [pz, px])
                except Violation as v:
                    rep.add(fn, tag + ": safe execution", False, "symexec", 0, str(v))
                    continue
                finally:
                    e.exclude = set()
                rep.used |= e.used
                if not res:
                    rep.add(fn, tag + ": returns", False, "symexec", 0)
                for s, _ in res:
                    try:
                        F, kk = ex.read_fp(s, pz)
                    except Violation as v:
                        rep.add(fn, tag + ": result is reduced", False, "symexec", 0, str(v))
                        continue
                    ok, d = verify.prove_eq(s, F, want(x))
                    rep.add(fn, tag + ": value", verify.UNKNOWN if ok is None else ok, "poly", 0, d)
                    rep.add(fn, tag + ": result < p", kk == 1, "symexec", 0)
                    if not alias:
                        G, _k = ex.read_fp(s, px)
                        rep.add(fn, tag + ": operand unchanged", G is x, "symexec", 0)
    return fn, go


for _nm, _ks, _w in (("_square", (1, 2, 3), lambda x: field.fsq(x)), ("_negate", (1,), lambda x: field.fneg(x))):
    _fn, _go = verify_wrapper(_nm, _ks, _w)
    props.extra("C01", _fn)(_go)


def verify_resolver(e, rep):
    """the multiplication is dispatched at load time: whatever the environment and the CPU say, the target is a
    verified routine, and the BMI2/ADX routine is chosen only when both CPU flags are set"""
    m = e.mod
    fn = "resolve_blsmul"
    if fn not in m.funcs:
        rep.add(fn, "function present", verify.UNKNOWN, "extract")
        return
    txt = "\n".join(m.funcs[fn].lines)
    tg = set()
    for x in re.findall(r"store ptr (@[\w.$]+), ptr %retval|ret ptr (@[\w.$]+)|\[ (@[\w.$]+), %", txt):
        y = [q for q in x if q][0]
        tg.add(ir.demangle([y[1:]])[y[1:]].split("(")[0])
    rep.add(fn, "only __multiply and __mul_ex are selected", (tg <= {"bls12_381::__multiply", "bls12_381::__mul_ex"} and "bls12_381::__multiply" in tg) or verify.UNKNOWN, "IR scan", 0, str(tg))
    al = m.aliases.get("_ZN9bls12_3819_multiplyEPNS_2fpEPKS0_S3_")
    rep.add(fn, "_multiply is bound by this resolver", al == ("ifunc", "resolve_blsmul") or verify.UNKNOWN, "IR scan", 0, str(al))
    cpu = [k for k in m.funcs if "cpu_has_bmi2_and_adx" in k]
    if not cpu:
        rep.add("cpu_has_bmi2_and_adx", "function present", verify.UNKNOWN, "extract")
        return
    log = []

    def cpuid(st, args, I):
        k = len(log)
        r = [term.var("cpuid%d_%s" % (k, q), 32) for q in "abcd"]
        log.append((args, r))
        return [(st, tuple(r))]
    e.intr["asm cpuid"] = cpuid
    e.used, e.inlined, e.merge = set(), set(), False
    try:
        res = e.run(cpu[0], e.base.copy(), [])
    except Violation as v:
        rep.add("cpu_has_bmi2_and_adx", "safe execution", False, "symexec", 0, str(v))
        return
    n = 0
    for st, rv in res:
        if rv == 0 or rv is False:
            continue
        leaf7 = [r for a, r in log if a[0] == 7 and a[1] == 0]
        ok = False
        if len(leaf7) == 1:
            b = leaf7[0][1]
            ok = all(st.decide(term.eq(term.and_(b, 1 << k, 32), 0, 32)) is False for k in (8, 19))
        rep.add("cpu_has_bmi2_and_adx", "true only when CPUID leaf 7 reports BMI2 and ADX (path%d)" % n, ok or verify.UNKNOWN, "symexec", 0)
        n += 1

C_ = {}
for _nm in SPEC:
    _fn, _go = verify_asm(_nm)
    props.extra("C01", _fn)(_go)
C = {}
props.extra("C01", "resolve_blsmul")(verify_resolver)
