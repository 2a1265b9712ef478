"""Bit-vector terms to z3.  Opaque terms become unconstrained constants, so `valid` is sound."""
import time
import z3
from .term import T
TIMEOUT = 20000


OPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "not", "eq", "ult", "ule", "slt", "ite",
       "trunc", "zext", "sext", "ctlz"}


class Enc:
    def __init__(self):
        self.c, self.vars = {}, {}

    def e(self, x, w):
        if isinstance(x, int):
            return z3.BitVecVal(x, w)
        st = [x]
        while st:
            y = st[-1]
            if y.id in self.c:
                st.pop()
                continue
            if y.op not in OPS:
                deps = []
            else:
                deps = [a for a in y.args if isinstance(a, T) and a.id not in self.c]
            if deps:
                st += deps
                continue
            self.c[y.id] = self.node(y)
            st.pop()
        return self.c[x.id]

    def node(self, t):
        op, w = t.op, t.w
        if w <= 0:
            raise NotImplementedError(op)
        ws = [a.w for a in t.args if isinstance(a, T)]
        aw = ws[0] if ws else w
        if op == "ite":
            aw = w
        if op not in OPS:
            v = z3.BitVec("o%d" % t.id, w)
            self.vars[t.id] = (t, v)
            return v

        def a(i, ww=None):
            x = t.args[i]
            if isinstance(x, int):
                return z3.BitVecVal(x, ww if ww is not None else aw)
            return self.c[x.id]
        if op == "ctlz":
            x = a(0, w)
            r = z3.BitVecVal(w, w)
            for k in range(w):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, w), r)
            return r
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            x, y = a(0, w), a(1, w)
            return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                    "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y),
                    "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
        b1 = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "not":
            return ~a(0, 1)
        if op == "eq":
            return b1(a(0) == a(1))
        if op == "ult":
            return b1(z3.ULT(a(0), a(1)))
        if op == "ule":
            return b1(z3.ULE(a(0), a(1)))
        if op == "slt":
            return b1(a(0) < a(1))
        if op == "ite":
            return z3.If(a(0, 1) == 1, a(1, w), a(2, w))
        if op == "trunc":
            return z3.Extract(w - 1, 0, a(0))
        if op == "zext":
            return z3.ZeroExt(w - aw, a(0))
        if op == "sext":
            return z3.SignExt(w - aw, a(0))
        raise NotImplementedError(op)


MODELS = []


def refuted(goal, pc):
    """one of the recent models satisfies the path condition and not the goal"""
    from . import term
    vs = term.variables([c for c, _ in pc] + [goal])
    for m in MODELS:
        if any(v not in m for v in vs):
            m = {**{v: 0 for v in vs}, **m}
        c = {}
        try:
            if not term.evaluate(goal, m, c) and all(bool(term.evaluate(x, m, c)) == bool(v) for x, v in reversed(pc)):
                return "counterexample: " + ", ".join("%s=%s" % (k.args[0], v) for k, v in list(m.items())[:24])
        except (KeyError, NotImplementedError):
            continue
    return None


def valid(goal, pc=(), timeout=TIMEOUT):
    """goal: width-1 term.  -> (True|False|None, detail)"""
    if isinstance(goal, int):
        return bool(goal), ""
    pc = list(pc)
    if len(pc) > 12:
        r, d = valid(goal, pc[:4] + pc[-5:], timeout)      # the first and the most recent conditions often suffice
        if r is True:
            return r, d
        r = refuted(goal, pc)
        if r:
            return False, r
    en = Enc()
    s = z3.Solver()
    s.set("timeout", timeout)
    try:
        for c, v in pc:
            s.add(en.e(c, 1) == (1 if v else 0))
        s.add(en.e(goal, 1) == 0)
    except NotImplementedError as x:
        return None, "not expressible: %s" % x
    r = s.check()
    if r == z3.unsat:
        return True, ""
    if r == z3.sat:
        m = s.model()
        opaque = any(t.op != "var" for t, _ in en.vars.values())
        if not opaque and len(pc) > 4:
            MODELS.insert(0, {t: m.eval(v, model_completion=True).as_long() for t, v in en.vars.values()})
            del MODELS[12:]
        d = ", ".join("%s=%s" % (t.args[0] if t.op == "var" else t.op, m.eval(v)) for t, v in list(en.vars.values())[:24])
        return (None if opaque else False), "counterexample: " + d
    return None, "z3: unknown"


def equal(a, b, w, pc=(), timeout=TIMEOUT):
    from . import term
    if a is b or isinstance(a, int) and isinstance(b, int) and a == b:
        return True, "", "term identity"
    if isinstance(a, int) and isinstance(b, int):
        return (False, "%x != %x" % (a, b), "term identity") if not pc else valid(0, pc, timeout) + ("z3",)
    r, d = valid(term.eq(a, b, w), pc, timeout)
    return r, d, "z3"
