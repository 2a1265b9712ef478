"""Symbolic execution of the real code's LLVM IR, function by function.

Calls to functions under contract are replaced by their contract; every other function
(helpers, constructors, standard-library templates) is executed through.
"""
import heapq
from . import term as t
from . import field as fl
from . import ref
from .term import T, mk
from .ir import GRef, UNDEF, Unsupported, PTR
P = ref.P


class Violation(Exception):
    """a definite failure of an obligation (e.g. access out of bounds)"""
    def __init__(self, what, st=None):
        Exception.__init__(self, what)
        self.st = st


class Infeasible(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and (self.off is o.off or (isinstance(self.off, int) and isinstance(o.off, int) and self.off == o.off))

    def __hash__(self):
        return hash((self.obj, self.off if isinstance(self.off, int) else self.off.id))

    def __repr__(self):
        return "<%s+%s>" % (self.obj, self.off)


class PtrInt:
    """byte k of a pointer or pointer value seen as integer is not modelled"""


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "poison(%s)" % self.why


class Obj:
    __slots__ = ("size", "cells", "ro", "kind", "owner", "alive", "seq")

    def __init__(self, size, kind="stack", ro=False):
        self.size, self.kind, self.ro = size, kind, ro
        self.cells = {}
        self.owner = None
        self.alive = True
        self.seq = None

    def clone(self, owner):
        o = Obj(self.size, self.kind, self.ro)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.seq = self.seq
        o.owner = owner
        return o


_objn = [0]


SYM = None         # buffers of arbitrary length (bytestr)


class State:
    __slots__ = ("mem", "pc", "lits", "tok", "ghost", "fk", "written")

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.lits = {}
        self.fk = {}
        self.tok = object()
        self.ghost = {}
        self.written = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.lits = dict(self.lits)
        s.fk = dict(self.fk)
        s.ghost = dict(self.ghost)
        self.tok = object()      # both copies must clone before writing
        return s

    def new(self, size, name="o", kind="stack", ro=False):
        _objn[0] += 1
        oid = "%s#%d" % (name, _objn[0])
        o = Obj(size, kind, ro)
        o.owner = self.tok
        self.mem[oid] = o
        return Ptr(oid, 0)

    def obj(self, p):
        o = self.mem.get(p.obj)
        if o is None:
            raise Violation("access to dead or unknown object %s" % p.obj, self)
        return o

    def wobj(self, p):
        o = self.mem.get(p.obj)
        if o is None:
            raise Violation("write to dead or unknown object %s" % p.obj, self)
        if o.owner is not self.tok:
            o = o.clone(self.tok)
            self.mem[p.obj] = o
        return o

    # ---- memory ------------------------------------------------------------
    def check(self, o, off, n, what, p):
        if not o.alive:
            raise Violation("%s of freed object %s" % (what, p.obj), self)
        if o.kind == "opaque":
            raise Unsupported("%s of %s, whose content and length are arbitrary" % (what, p.obj))
        if isinstance(o.size, T):
            return SYM.inside(self, o, off, n, what, p)
        if o.size is not None and (off < 0 or off + n > o.size):
            raise Violation("%s of %d bytes at offset %d of %s (size %s) is out of bounds" % (what, n, off, p.obj, o.size), self)

    def load(self, p, n):
        if not isinstance(p, Ptr):
            raise Violation("load through invalid pointer %r" % (p,), self)
        o = self.mem.get(p.obj)
        if o is None:
            raise Violation("load from dead or unknown object %s" % p.obj, self)
        if o.kind == "opaque":
            return SYM.load(self, p, n)
        off = p.off
        if not isinstance(off, int):
            return self.symload(o, p, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n and o.alive:
            return c[1]
        self.check(o, off, n, "load", p)
        if o.seq is not None:
            v = o.seq(self, o, off, n)
            if v is not None:
                return v
        bs = [self.byte(o, off + i, p) for i in range(n)]
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return UNDEF
            return Poison("partially uninitialised load")
        if any(isinstance(b, Poison) for b in bs):
            return bs[0] if isinstance(bs[0], Poison) else Poison("bytes")
        if any(isinstance(b, tuple) for b in bs):
            b0 = bs[0]
            if isinstance(b0, tuple) and n == 8 and all(isinstance(b, tuple) and b[0] == b0[0] and b[1] == i for i, b in enumerate(bs)):
                return b0[0]
            raise Unsupported("bytewise pointer access")
        return t.concat_bytes(bs)

    def symload(self, o, p, n):
        off = p.off
        lo, hi = t.rng(off)
        if o.size is None:
            raise Unsupported("symbolic offset in unbounded object")
        vals = offsets(off, o.size - n)
        if vals is None:
            if free_offset(off):
                raise Violation("load from %s at an offset computed from an unconstrained argument is out of bounds" % p.obj, self)
            raise Unsupported("symbolic offset with unbounded range in %s: %r" % (p.obj, off))
        r = None
        for c, v in vals:
            if v + n > o.size:
                raise Violation("load at symbolic offset of %s may be out of bounds" % p.obj, self)
            x = self.load(Ptr(p.obj, v), n)
            r = x if r is None else merge_val(c, x, r, n * 8)
        return r

    def byte(self, o, off, p):
        for back in range(0, 16):
            c = o.cells.get(off - back)
            if c is not None:
                if c[0] > back:
                    v = c[1]
                    if v is UNDEF or isinstance(v, Poison):
                        return v
                    if isinstance(v, Ptr):
                        return (v, back)
                    if isinstance(v, tuple) and c[0] == 1:
                        return v
                    if c[0] == 1:
                        return v
                    return t.extract_byte(v, back, c[0] * 8)
                break
        return UNDEF

    def carve(self, o, off, n):
        """remove cells overlapping [off, off+n), keeping the parts outside"""
        cells = o.cells
        if n == 8 and off in cells and cells[off][0] == 8:
            del cells[off]
            return
        if n <= 64:
            offs = [k for k in range(off - 15, off + n) if k in cells]
        else:
            offs = [k for k in cells if off - 15 <= k < off + n]
        for k in offs:
            sz = cells[k][0]
            if k + sz <= off:
                continue
            if k < off or k + sz > off + n:
                outs = {}
                for b in range(k, k + sz):
                    if b < off or b >= off + n:
                        outs[b] = self.byte(o, b, None)
                del cells[k]
                for b, v in outs.items():
                    if v is not UNDEF:
                        cells[b] = (1, v)
            else:
                del cells[k]

    def store(self, p, n, v):
        if not isinstance(p, Ptr):
            raise Violation("store through invalid pointer %r" % (p,), self)
        off = p.off
        if not isinstance(off, int):
            return self.symstore(p, n, v)
        o = self.wobj(p)
        self.check(o, off, n, "store", p)
        if p.obj in self.ghost.get("segs", ()):
            SYM.below(self, p, n)
        if o.ro:
            raise Violation("write to read-only object %s" % p.obj, self)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        self.carve(o, off, n)
        if v is not UNDEF:
            o.cells[off] = (n, v)

    def symstore(self, p, n, v):
        o = self.wobj(p)
        if isinstance(o.size, T):
            return SYM.store(self, p, n, v)
        if o.size is None:
            raise Unsupported("symbolic store offset")
        vals = offsets(p.off, o.size - n)
        if vals is None:
            if free_offset(p.off):
                raise Violation("store to %s at an offset computed from an unconstrained argument is out of bounds" % p.obj, self)
            raise Unsupported("symbolic store offset with unbounded range in %s: %r" % (p.obj, p.off))
        for c, k in vals:
            if k + n > o.size:
                raise Violation("store at symbolic offset of %s may be out of bounds" % p.obj, self)
            old = self.load(Ptr(p.obj, k), n)
            self.store(Ptr(p.obj, k), n, merge_val(t.eq(p.off, k, 64), v, old, n * 8))

    def memcpy(self, d, s, n):
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Violation("memcpy through invalid pointer", self)
        if SYM is not None and SYM.copy(self, d, s, n):
            return
        if not isinstance(n, int):
            raise Unsupported("memcpy with symbolic length")
        if not (isinstance(d.off, int) and isinstance(s.off, int)):
            raise Unsupported("memcpy with symbolic address")
        so = self.obj(s)
        self.check(so, s.off, n, "memcpy read", s)
        a, b = s.off, s.off + n
        if so.seq is not None:
            got = [(0 + i, 1, self.load(Ptr(s.obj, a + i), 1)) for i in range(n)]
        elif len(so.cells) > 4 * n + 64 or n <= 64:
            got = self._cells_small(so, a, b)
        else:
            got = self._cells_big(so, a, b)
        do = self.wobj(d)
        self.check(do, d.off, n, "memcpy write", d)
        if d.obj in self.ghost.get("segs", ()):
            SYM.below(self, d, n)
        if do.ro:
            raise Violation("write to read-only object %s" % d.obj, self)
        self.carve(do, d.off, n)
        for rel, sz, v in got:
            if v is not UNDEF:
                do.cells[d.off + rel] = (sz, v)

    def _cells_small(self, o, a, b):
        out, k = [], a
        cells = o.cells
        c = cells.get(a)
        while k < b:
            c = cells.get(k)
            if c is not None and k + c[0] <= b:
                out.append((k - a, c[0], c[1]))
                k += c[0]
                continue
            v = self.byte(o, k, None)
            if v is not UNDEF:
                out.append((k - a, 1, v))
            k += 1
        return out

    def _cells_big(self, o, a, b):
        out = []
        for k, c in o.cells.items():
            if a <= k and k + c[0] <= b:
                out.append((k - a, c[0], c[1]))
            elif k < b and k + c[0] > a:
                for i in range(max(k, a), min(k + c[0], b)):
                    out.append((i - a, 1, self.byte(o, i, None)))
        return out

    def memset(self, d, v, n):
        if n == 0:
            return
        if not isinstance(n, int):
            raise Unsupported("memset with symbolic length")
        o = self.wobj(d)
        self.check(o, d.off, n, "memset", d)
        self.carve(o, d.off, n)
        i = 0
        w = int.from_bytes(bytes([v]) * 8, "little") if isinstance(v, int) else None
        while i < n:
            if w is not None and n - i >= 8 and (d.off + i) % 8 == 0:
                o.cells[d.off + i] = (8, w)
                i += 8
            else:
                o.cells[d.off + i] = (1, v)
                i += 1

    # ---- path condition ------------------------------------------------------
    def assume(self, c, val=True):
        if isinstance(c, int):
            if bool(c) != val:
                raise Infeasible()
            return
        if c.op == "not":
            return self.assume(c.args[0], not val)
        if c.op == "and" and val or c.op == "or" and not val:
            self.assume(c.args[0], val)
            self.assume(c.args[1], val)
            return
        d = self.decide(c)
        if d is not None:
            if d != val:
                raise Infeasible()
            return
        if c.op in ("eq", "xor") and bool_pair(c):
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is not None:
                return self.assume(c.args[1], (a == val) == (c.op == "eq"))
            if b is not None:
                return self.assume(c.args[0], (b == val) == (c.op == "eq"))
        if c.op == "and":           # a negated conjunction: fold complete limb-wise comparisons
            g = fold_limbs(c)
            if g is not c:
                return self.assume(g, val)
        self.pc.append((c, val))
        self.lits[c] = val
        if c.op == "ult" and val and isinstance(c.args[0], int) and isinstance(c.args[1], T) and c.args[1].op == "add" and len(c.args[1].args) == 2:
            x, k = c.args[1].args
            if isinstance(x, T) and isinstance(k, int) and k >> (c.args[1].w - 1):
                k = (1 << c.args[1].w) - k               # a < x - k and k <= x: also a + k < x
                for b, v in reversed(self.pc[-6:]):
                    if v and b.op == "ult" and b.args[1] is x and isinstance(b.args[0], int) and b.args[0] + 1 >= k:
                        self.pc.append((t.ult(c.args[0] + k, x, c.args[1].w), True))
                        break
        if c.op == "fzero":
            self.note_zero(c.args[0], val)
        elif c.op == "eq":
            a, b = c.args
            if isinstance(a, T) and a.op == "limb" and a.args[1] == 1 or isinstance(b, T) and b.op == "limb" and b.args[1] == 1:
                self.note_limb(a, b, val)

    def note_zero(self, F, val):
        k = fkey(F)
        if k is not None:
            self.fk[k] = val
            if val and F.w == -2:
                for i in (0, 1):
                    k = fkey(fl.comp(F, i))
                    if k not in (None, "zero", "const"):
                        self.fk[k] = True

    def note_limb(self, a, b, val):
        if not (isinstance(a, T) and a.op == "limb"):
            a, b = b, a
        F, _, i = a.args
        if isinstance(b, T):
            if b.op != "limb" or b.args[1] != 1 or b.args[2] != i:
                return
            G = b.args[0]
            key = ("limbeq", F, G) if F.id < G.id else ("limbeq", G, F)
            if not val:
                self.set_zero(fl.fsub(key[1], key[2]), False)
                return
            got = self.fk.get(key, frozenset()) | {i}
            self.fk[key] = got
            if len(got) == 6:
                self.set_zero(fl.fsub(key[1], key[2]), True)
            return
        key = ("limbc", F)
        got = self.fk.get(key, ())
        got = got + ((i, b, val),)
        self.fk[key] = got
        if b == 0 and not val:
            self.set_zero(F, False)
        pos = {j: c for j, c, v in got if v}
        if len(pos) == 6:
            V = sum(c << (64 * j) for j, c in pos.items())
            if V >= P:
                raise Infeasible()
            self.set_zero(fl.fsub(F, fl.f1(V * ref.MRI)), True)

    def set_zero(self, F, val):
        self.assume(fl.fzero_atom(F), val)

    def limb_decide(self, F):
        """decide F == 0 from facts about single limbs"""
        if F.w != -1:
            return None
        for key, got in self.fk.items():
            if type(key) is tuple and len(key) == 2 and key[0] == "limbc":
                try:
                    a, b = fl.vec(F)[0], fl.vec(key[1])[0]
                except (NotImplementedError, OverflowError):
                    continue
                for sgn in (1, -1):
                    d = a - b if sgn == 1 else a + b
                    if d.isconst():
                        c = d.const()
                        if c[1]:
                            continue
                        # F = sgn*G + c ; F == 0 iff G == -sgn*c
                        V = (-sgn * c[0]) % P * ref.MR % P
                        for i, w, v in got:
                            if ((V >> (64 * i)) & t.mask(64) == w) != v:
                                return False
        return None

    def decide(self, c):
        """True / False / None"""
        if isinstance(c, int):
            return bool(c)
        v = self.lits.get(c)
        if v is not None:
            return v
        op = c.op
        if op == "not":
            v = self.decide(c.args[0])
            return None if v is None else not v
        if op == "and":
            a = self.decide(c.args[0])
            if a is False:
                return False
            b = self.decide(c.args[1])
            if b is False:
                return False
            if a and b:
                return True
            g = fold_limbs(c)
            return self.decide(g) if g is not c else None
        if op == "or":
            a = self.decide(c.args[0])
            if a is True:
                return True
            b = self.decide(c.args[1])
            if b is True:
                return True
            return False if a is False and b is False else None
        if op in ("eq", "xor") and c.w == 1 and bool_pair(c):
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            return None if a is None or b is None else (a == b) == (op == "eq")
        if op == "fzero" and self.fk is not None:
            k = fkey(c.args[0])
            if k is not None:
                if k == "zero":
                    return True
                if k == "const":
                    return False
                v = self.fk.get(k)
                if v is not None:
                    return v
            F = c.args[0]
            if F.w == -2:
                a, b = (self.decide(fl.fzero_atom(fl.comp(F, i))) for i in (0, 1))
                if a is False or b is False:
                    return False
                return True if a and b else None
            return self.limb_decide(F)
        if op == "eq" and isinstance(c.args[0], T) and c.args[0].op == "limb" and c.args[0].args[1] == 1:
            a, b = c.args
            if isinstance(b, int):
                if b == 0 and self.decide(fl.fzero_atom(a.args[0])):
                    return True
            elif b.op == "limb" and b.args[1] == 1 and a.args[2] == b.args[2] and self.decide(fl.fzero_atom(fl.fsub(a.args[0], b.args[0]))):
                return True
        if op == "eq" and isinstance(c.args[1], int):
            for (d, val) in self.pc:
                if val and d.op == "eq" and d.args[0] is c.args[0] and isinstance(d.args[1], int) and d.args[1] != c.args[1]:
                    return False
        return None


def bool_pair(c):
    """the two conditions compared by a Boolean equality / exclusive or"""
    if c.op in ("eq", "xor") and len(c.args) == 2 and all(isinstance(x, T) and x.w == 1 for x in c.args):
        return c.args
    return None


def boolean_leaf(st, c):
    while isinstance(c, T) and c.op == "not":
        c = c.args[0]
    if not isinstance(c, T) or bool_pair(c) is None:
        return None
    for x in c.args:
        while x.op == "not":
            x = x.args[0]
        if st.decide(x) is None:
            y = boolean_leaf(st, x)
            return x if y is None else y
    return None


_fold = {}


def conjuncts(c, out=None):
    if out is None:
        out = []
    st = [c]
    while st:
        x = st.pop()
        if isinstance(x, T) and x.op == "and" and x.w == 1:
            st += [x.args[0], x.args[1]]
        else:
            out.append(x)
    return out


def fold_limbs(c):
    """a conjunction in which all six words of a canonical element are compared becomes a field fact"""
    if not isinstance(c, T) or c.op not in ("and", "not", "or"):
        return c
    r = _fold.get(c)
    if r is not None:
        return r
    if c.op == "not":
        r = t.not_(fold_limbs(c.args[0]))
    elif c.op == "or":
        r = t.or_(fold_limbs(c.args[0]), fold_limbs(c.args[1]), 1)
    else:
        cs = conjuncts(c)
        grp, rest = {}, []
        for x in cs:
            k = None
            if isinstance(x, T) and x.op == "eq":
                a, b = x.args
                if not (isinstance(a, T) and a.op == "limb"):
                    a, b = b, a
                if isinstance(a, T) and a.op == "limb" and a.args[1] == 1:
                    if isinstance(b, int):
                        k = (a.args[0], None)
                        grp.setdefault(k, {})[a.args[2]] = (x, b)
                    elif isinstance(b, T) and b.op == "limb" and b.args[1] == 1 and a.args[2] == b.args[2]:
                        F, G = (a.args[0], b.args[0]) if a.args[0].id < b.args[0].id else (b.args[0], a.args[0])
                        k = (F, G)
                        grp.setdefault(k, {})[a.args[2]] = (x, None)
            if k is None:
                rest.append(x)
        hit = False
        r = 1
        for (F, G), d in grp.items():
            if len(d) == 6:
                hit = True
                if G is None:
                    V = sum(b << (64 * i) for i, (x, b) in d.items())
                    r = t.and_(r, 0 if V >= P else fl.fzero_atom(fl.fsub(F, fl.f1(V * ref.MRI))), 1)
                else:
                    r = t.and_(r, fl.fzero_atom(fl.fsub(F, G)), 1)
            else:
                for x, b in d.values():
                    r = t.and_(r, x, 1)
        for x in rest:
            r = t.and_(r, fold_limbs(x), 1)
        if not hit:
            r = c
    _fold[c] = r
    return r


class FKeyOff:
    on = True


def fkey(F):
    """canonical key of the condition F == 0, or None"""
    if not FKeyOff.on:
        return None
    try:
        v = fl.vec(F)
    except (NotImplementedError, OverflowError):
        return None
    if all(p.iszero() for p in v):
        return "zero"
    if len(v) == 1:
        if v[0].isconst():
            return "const"
        m = v[0].monic()
        mc = v[0].conj().monic()
        return min(m.key(), mc.key())
    if any(p.isconst() and not p.iszero() for p in v):
        return "const"
    return tuple(p.monic().key() for p in v)


def free_offset(off):
    """is the offset an injective function of an argument without any range restriction?"""
    while isinstance(off, T) and off.op in ("add", "mul", "shl") and isinstance(off.args[1], int):
        off = off.args[0]
    return isinstance(off, T) and off.op == "var" and off.id not in t.RANGE and str(off.args[0]).startswith("pow12_")


def offsets(off, maxoff):
    """enumerate the possible values of a symbolic offset: [(condition off==v, v)] or None"""
    lo, hi = t.rng(off)
    # find stride: off = base + scale*idx
    base, x, scale = 0, off, 1
    while isinstance(x, T):
        if x.op == "add" and isinstance(x.args[1], int):
            base += scale * t.sgn(x.args[1], x.w)
            x = x.args[0]
        elif x.op == "mul" and isinstance(x.args[1], int):
            scale *= x.args[1]
            x = x.args[0]
        elif x.op == "shl" and isinstance(x.args[1], int):
            scale <<= x.args[1]
            x = x.args[0]
        else:
            break
    if isinstance(x, T):
        l, h = t.rng(x)
        if h - l > 300:
            return None
        return [(t.eq(x, v, x.w), base + scale * v) for v in range(l, h + 1)]
    return None


def merge_val(c, a, b, w):
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b:
            return a
        if a.obj == b.obj:
            return Ptr(a.obj, t.ite(c, a.off, b.off, 64))
        return Poison("merge of different pointers")
    if isinstance(a, (Ptr, Poison)) or isinstance(b, (Ptr, Poison)) or a is UNDEF or b is UNDEF:
        return Poison("merge")
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(merge_val(c, x, y, None) for x, y in zip(a, b))
        return Poison("merge of aggregates")
    if w is None:
        w = a.w if isinstance(a, T) else b.w if isinstance(b, T) else 64
    if isinstance(a, T) and isinstance(b, T) and a.op == "limb" and b.op == "limb" and a.args[2] == b.args[2]:
        F = fl.fite(c, a.args[0], b.args[0])
        return mk("limb", (F, max(a.args[1], b.args[1]), a.args[2]), 64)
    return t.ite(c, a, b, w)


class Contract:
    """base: contracts know how to be applied at a call site"""
    name = None

    def apply(self, ex, st, args, call):
        raise NotImplementedError


class Exec:
    def __init__(self, mod, contracts=None):
        self.mod = mod
        self.contracts = contracts or {}
        self.base = State()
        self.globs = {}
        self.merge = False
        self.maxvisits = 20000
        self.smt = None
        self.throws = []
        self.stack = []
        self.exclude = set()
        self.intr = {}
        self.used = set()
        self.inlined = set()
        self.steps = 0
        self.maxsteps = 40_000_000
        self.onbranch = None
        self.throw_ok = True
        self.deadline = None
        self._intr()
        self.calltrace = None
        self.loop_hook = None
        self.zmode = False
        self.wordhook = None

    # ---- linking ---------------------------------------------------------------
    def gptr(self, st, g):
        name = g.name
        al = self.mod.aliases.get(name)
        if al and al[0] == "alias":
            name = al[1]
        if name in self.mod.funcs or name in self.mod.decls or (al and al[0] == "ifunc"):
            return Ptr("fn:" + name, g.off)
        if name in self.mod.globals:
            oid = "g:" + name
            if oid not in st.mem:
                ty, init, const = self.mod.globals[name]
                o = Obj(self.mod.size(ty), "global", False)
                st.mem[oid] = o
                if init is not None:
                    self._init(st, o, 0, ty, init)
                elif not const:
                    pass
                o.ro = const and init is not None
            return Ptr(oid, g.off)
        return Ptr("fn:" + name, g.off)

    def _init(self, st, o, off, ty, v):
        t0 = self.mod.resolve(ty)
        if v is UNDEF:
            return
        if t0.k == "i" or t0.k == "ptr":
            if isinstance(v, GRef):
                v = self.gptr(st, v)
            o.cells[off] = (self.mod.size(t0), v)
        elif t0.k in ("arr", "vec"):
            sz = self.mod.size(t0.el)
            for i, x in enumerate(v):
                self._init(st, o, off + i * sz, t0.el, x)
        elif t0.k == "struct":
            self.mod.size(t0)
            for e, oo, x in zip(t0.els, t0.offs, v):
                self._init(st, o, off + oo, e, x)

    def run_ctors(self):
        st = self.base
        for c in self.mod.ctors:
            if c in self.mod.funcs:
                r = self.run(c, st, [])
                if len(r) != 1:
                    raise Unsupported("static initialiser forks")
                st = r[0][0]
        self.base = st
        for oid in list(st.mem):
            if oid.startswith("g:"):
                nm = oid[2:]
                if self.mod.globals[nm][2] or "const" in "":
                    st.mem[oid].ro = True
        return st

    def find(self, dem):
        """mangled name of the function with this demangled name, or None"""
        n = self.mod.rdem.get(dem)
        return n if n in self.mod.funcs else None

    # ---- evaluation --------------------------------------------------------------
    def val(self, st, env, o):
        if type(o) is str:
            return env[o]
        if type(o) is GRef:
            return self.gptr(st, o)
        if type(o) is tuple:
            return tuple(self.val(st, env, x) for x in o)
        return o

    def run(self, fname, st, args):
        """execute a function body; returns [(state, return value)]"""
        f = self.mod.funcs[fname]
        f.parse()
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        self.stack.append(fname)
        try:
            env = {}
            for (nm, ty, at), v in zip(f.params, args):
                env[nm] = v
            rets = self._loop(f, [(st, env, f.entry, None)])
        finally:
            self.stack.pop()
        return rets

    def _loop(self, f, init):
        if self.merge:
            return self._loop_merge(f, init)
        rets = []
        work = list(init)
        visits = {}
        while work:
            st, env, blk, prev = work.pop()
            n = visits[blk] = visits.get(blk, 0) + 1
            if n > self.maxvisits:
                raise Unsupported("loop in %s not bounded by %d iterations" % (self.mod.dem.get(f.name, f.name), self.maxvisits))
            env = self._phis(f, st, env, blk, prev)
            if self.loop_hook is not None and blk in f.loops:
                items = self.loop_hook(f, st, env, blk, prev in f.loops[blk])
                if items is not None:
                    for s2, e2 in items:
                        self._block(f, s2, e2, blk, 0, work, rets)
                    continue
            self._block(f, st, env, blk, 0, work, rets)
        return rets

    def _loop_trial(self, f, st, env, blk):
        """run from a loop header (phis already evaluated) until control leaves or returns to it"""
        hook = self.loop_hook
        first = [True]

        def h(f2, s, e, b, back):
            if first[0] and f2 is f and b == blk:
                first[0] = False
                return None
            return hook(f2, s, e, b, back)
        self.loop_hook = h
        merge = self.merge
        self.merge = False
        try:
            work, rets, n = [], [], 0
            first[0] = False
            self._block(f, st, env, blk, 0, work, rets)
            while work:
                n += 1
                if n > 5000:
                    raise Unsupported("trial iteration too long")
                st, env, b, prev = work.pop()
                if b not in f.loops[blk]:
                    continue
                env = self._phis(f, st, env, b, prev)
                if b in f.loops:
                    it = hook(f, st, env, b, prev in f.loops[b])
                    if it is not None:
                        continue
                self._block(f, st, env, b, 0, work, rets)
        finally:
            self.loop_hook, self.merge = hook, merge

    def _loop_merge(self, f, init):
        rets = []
        heap, seq = [], [0]
        bag = {}
        visits = {}

        def push(item):
            st, env, blk, prev = item
            env = self._phis(f, st, env, blk, prev)
            key = (blk, self.loop_hook is not None and blk in f.loops and prev in f.loops[blk])
            lst = bag.get(key)
            if lst is None:
                bag[key] = [(st, env)]
                heapq.heappush(heap, (f.sched[blk], key))
            else:
                lst.append((st, env))
        for it in init:
            push(it)
        while heap:
            _, key = heapq.heappop(heap)
            items = bag.pop(key)
            blk, isback = key
            n = visits[blk] = visits.get(blk, 0) + 1
            if n > self.maxvisits:
                raise Unsupported("loop in %s not bounded" % f.name)
            todo = []
            for st, env in self.merge_items(items):
                it = None
                if self.loop_hook is not None and blk in f.loops:
                    it = self.loop_hook(f, st, env, blk, isback)
                todo += [(st, env)] if it is None else it
            for st, env in todo:
                work = []
                self._block(f, st, env, blk, 0, work, rets)
                for it in work:
                    push(it)
        if len(rets) > 1:
            items = [(s, {"ret": v}) for s, v in rets]
            rets = [(s, e["ret"]) for s, e in self.merge_items(items)]
        return rets

    def merge_items(self, items):
        out = []
        for st, env in items:
            for k, (s2, e2) in enumerate(out):
                m = self.try_merge(s2, e2, st, env)
                if m is not None:
                    out[k] = m
                    break
            else:
                out.append((st, env))
        return out

    def try_merge(self, s1, e1, s2, e2):
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] == s2.pc[n]:
            n += 1
        def conj(lits):
            r = 1
            for c, v in lits:
                r = t.and_(r, c if v else t.not_(c), 1)
            return r
        a, b = s1.pc[n:], s2.pc[n:]
        c1, c2 = conj(a), conj(b)
        if isinstance(c1, int) or isinstance(c2, int):
            if not a and not b:
                c = 1      # identical path conditions: cannot happen for disjoint paths
            return None
        # prefer the single distinguishing literal when the paths split on one condition
        if a[0][0] is b[0][0] and a[0][1] != b[0][1]:
            c = a[0][0] if a[0][1] else t.not_(a[0][0])
        else:
            c = c1
        st = State()
        st.ghost = dict(s1.ghost)
        if s1.ghost != s2.ghost:
            return None
        st.pc = list(s1.pc[:n])
        st.lits = {k: v for k, v in s1.lits.items() if s2.lits.get(k) == v}
        st.fk = {k: v for k, v in s1.fk.items() if s2.fk.get(k) == v}
        rest = self.disj(a, b)
        for q in rest:
            st.pc.append((q, True))
            st.lits[q] = True
        for oid, o1 in s1.mem.items():
            o2 = s2.mem.get(oid)
            if o2 is None or o1 is o2:
                st.mem[oid] = o1
                continue
            if o1.cells == o2.cells and o1.alive == o2.alive:
                st.mem[oid] = o1
                continue
            o = Obj(o1.size, o1.kind, o1.ro)
            o.alive = o1.alive and o2.alive
            o.seq = o1.seq
            o.owner = st.tok
            cells = {}
            x1, x2 = o1.cells, o2.cells
            for off, cv in x1.items():
                dv = x2.get(off)
                if dv is None:
                    if self._covered(x2, off, cv[0]):
                        continue
                    cells[off] = (cv[0], Poison("initialised on one path only"))
                elif dv[0] == cv[0]:
                    cells[off] = cv if cv[1] is dv[1] else (cv[0], merge_val(c, cv[1], dv[1], cv[0] * 8))
                else:
                    return None
            for off, dv in x2.items():
                if off not in x1:
                    if self._covered(x1, off, dv[0]):
                        return None
                    cells[off] = (dv[0], Poison("initialised on one path only"))
            o.cells = cells
            st.mem[oid] = o
        for oid, o2 in s2.mem.items():
            if oid not in s1.mem:
                st.mem[oid] = o2
        env = {}
        for k, v in e1.items():
            if k in e2:
                w = e2[k]
                env[k] = v if v is w else merge_val(c, v, w, None)
        return st, env

    def _covered(self, cells, off, n):
        for b in range(off - 15, off + n):
            c = cells.get(b)
            if c is not None and b + c[0] > off:
                return True
        return False

    def disj(self, a, b):
        """literals implied by (and a) or (and b), simplified"""
        # p&x | !p  etc: drop when complementary
        if len(a) == 1 and len(b) == 1 and a[0][0] is b[0][0]:
            return []
        def conj(lits):
            r = 1
            for c, v in lits:
                r = t.and_(r, c if v else t.not_(c), 1)
            return r
        if a[0][0] is b[0][0] and a[0][1] != b[0][1]:
            p = a[0][0] if a[0][1] else t.not_(a[0][0])
            ra, rb = conj(a[1:]), conj(b[1:])
            if ra == 1 and rb == 1:
                return []
            # (p -> ra) and (!p -> rb)
            out = []
            for x in (t.or_(t.not_(p), ra, 1), t.or_(p, rb, 1)):
                if not isinstance(x, int):
                    out.append(x)
            return out
        x = t.or_(conj(a), conj(b), 1)
        return [] if isinstance(x, int) else [x]

    def _phis(self, f, st, env, blk, prev):
        ins = f.blocks[blk]
        if ins and ins[0][0] == "phi":
            new = {}
            for i in ins:
                if i[0] != "phi":
                    break
                for b, v in i[3]:
                    if b == prev:
                        new[i[1]] = self.val(st, env, v)
                        break
                else:
                    raise Unsupported("phi without matching predecessor")
            env = dict(env)
            env.update(new)
        return env

    def branch(self, f, st, env, c, a, b, blk, work):
        """conditional branch"""
        if isinstance(c, Poison) or c is UNDEF:
            nm = self.mod.dem.get(f.name, f.name)
            if "std::vector<" in nm or "std::_Vector_base<" in nm or "__gnu_cxx::" in nm or "std::set<" in nm or "std::_Rb_tree" in nm or "std::function<" in nm:
                raise Unsupported("internals of a container: %s" % nm)      # the container itself is not modelled
            raise Violation("branch on an uninitialised or unmodelled value (%r) in %s" % (c, nm), st)
        d = st.decide(c)
        if d is None and self.smt:
            d = self.smt(st, c)
        if d is not None:
            work.append((st, env, a if d else b, blk))
            return
        x = boolean_leaf(st, c)
        if x is not None:           # (dis)agreement of two conditions: split on the conditions
            for v in (False, True):
                s2 = st.copy()
                try:
                    s2.assume(x, v)
                except Infeasible:
                    continue
                self.branch(f, s2, dict(env), c, a, b, blk, work)
            return
        s2 = st.copy()
        try:
            s2.assume(c, False)
            work.append((s2, dict(env), b, blk))
        except Infeasible:
            pass
        try:
            st.assume(c, True)
            work.append((st, env, a, blk))
        except Infeasible:
            pass

    def _block(self, f, st, env, blk, i0, work, rets):
        ins = f.blocks[blk]
        n = len(ins)
        i = i0
        val = self.val
        m = self.mod
        while i < n:
            I = ins[i]
            i += 1
            op = I[0]
            self.steps += 1
            if op == "load":
                ty = I[2]
                p = I[3]
                p = env[p] if type(p) is str else val(st, env, p)
                k = ty.k
                if k == "i":
                    v = st.load(p, (ty.n + 7) // 8)
                    if ty.n & 7:      # i1 loaded from a byte
                        v = t.trunc(v, (ty.n + 7) // 8 * 8, ty.n) if isinstance(v, (int, T)) else v
                    elif isinstance(v, Ptr) and ty.n != 64:
                        raise Unsupported("integer load of pointer")
                elif k == "ptr":
                    v = st.load(p, 8)
                else:
                    v = self.load_agg(st, p, ty)
                env[I[1]] = v
            elif op == "store":
                ty = I[1]
                v = I[2]
                v = env[v] if type(v) is str else val(st, env, v)
                p = I[3]
                p = env[p] if type(p) is str else val(st, env, p)
                if ty.k == "i":
                    nb = (ty.n + 7) // 8
                    if ty.n & 7 and isinstance(v, T):
                        v = t.zext(v, ty.n, nb * 8)
                    st.store(p, nb, v)
                elif ty.k == "ptr":
                    st.store(p, 8, v)
                else:
                    self.store_agg(st, p, ty, v)
            elif op == "gep":
                base = I[2]
                base = env[base] if type(base) is str else val(st, env, base)
                off = I[3]
                if isinstance(base, Ptr):
                    o = base.off
                    if isinstance(o, int):
                        o += off
                    elif off:
                        o = t.add(o, off & t.mask(64), 64)
                    for r, sc, w in I[4]:
                        x = env[r] if type(r) is str else val(st, env, r)
                        if isinstance(x, int):
                            x = t.sgn(x, w) * sc
                            o = o + x if isinstance(o, int) else t.add(o, x & t.mask(64), 64)
                        elif isinstance(x, T):
                            x = t.mul(t.sext(x, w, 64), sc, 64)
                            o = t.add(o & t.mask(64) if isinstance(o, int) else o, x, 64)
                        else:
                            raise Violation("address computed from %r" % (x,), st)
                    env[I[1]] = Ptr(base.obj, o)
                elif isinstance(base, int):
                    o = base + off
                    for r, sc, w in I[4]:
                        x = env[r] if type(r) is str else r
                        if not isinstance(x, int):
                            raise Unsupported("gep on null with symbolic index")
                        o += t.sgn(x, w) * sc
                    env[I[1]] = o & t.mask(64)
                else:
                    raise Violation("address computed from %r" % (base,), st)
            elif op == "alloca":
                cnt = I[3] if isinstance(I[3], int) else val(st, env, I[3])
                if not isinstance(cnt, int):
                    raise Unsupported("alloca of symbolic size")
                env[I[1]] = st.new(I[2] * cnt, f.name[-12:] + I[1])
            elif op == "bin":
                a, b = I[4], I[5]
                a = env[a] if type(a) is str else val(st, env, a)
                b = env[b] if type(b) is str else val(st, env, b)
                env[I[1]] = self.bin(st, I[2], a, b, I[3].n)
            elif op == "icmp":
                a, b = I[4], I[5]
                a = env[a] if type(a) is str else val(st, env, a)
                b = env[b] if type(b) is str else val(st, env, b)
                env[I[1]] = self.icmp(st, I[2], a, b, I[3].n if I[3].k == "i" else 64)
            elif op == "cast":
                v = I[4]
                v = env[v] if type(v) is str else val(st, env, v)
                k = I[2]
                if isinstance(v, (int, T)):
                    if k == "zext":
                        v = t.zext(v, I[3].n, I[5].n)
                    elif k == "sext":
                        v = t.sext(v, I[3].n, I[5].n)
                    elif k == "trunc":
                        v = t.trunc(v, I[3].n, I[5].n)
                elif isinstance(v, Ptr) and k in ("trunc",):
                    raise Unsupported("truncated pointer")
                env[I[1]] = v
            elif op == "br":
                work.append((st, env, I[1], blk))
                return
            elif op == "cbr":
                c = env[I[1]] if type(I[1]) is str else I[1]
                if type(c) is int:
                    work.append((st, env, I[2] if c else I[3], blk))
                    return
                self.branch(f, st, env, c, I[2], I[3], blk, work)
                return
            elif op == "call" or op == "invoke":
                callee = I[3]
                callee = env[callee] if type(callee) is str else callee
                args = [val(st, env, a[1]) for a in I[4]]
                # byval aggregates: copy
                for k, a in enumerate(I[4]):
                    for at in a[2]:
                        if type(at) is tuple and at[0] == "byval":
                            from .ir import P as _P
                            sz = m.size(_P(m, list(at[1])).type())
                            np_ = st.new(sz, "byval")
                            st.memcpy(np_, args[k], sz)
                            args[k] = np_
                outs = self.call(st, callee, args, I)
                if outs is None:
                    return           # does not return
                # continue with every outcome
                if not outs:
                    return
                for (s2, rv) in outs[1:]:
                    e2 = dict(env)
                    if I[1]:
                        e2[I[1]] = rv
                    if op == "invoke":
                        work.append((s2, e2, I[5], blk))
                    else:
                        self._cont(f, s2, e2, blk, i, work, rets)
                st, rv = outs[0]
                if I[1]:
                    env[I[1]] = rv
                if op == "invoke":
                    work.append((st, env, I[5], blk))
                    return
            elif op == "ret":
                v = I[2]
                if v is not None:
                    v = env[v] if type(v) is str else val(st, env, v)
                rets.append((st, v))
                return
            elif op == "phi":
                continue
            elif op == "select":
                c = val(st, env, I[3])
                a, b = val(st, env, I[4]), val(st, env, I[5])
                if not isinstance(c, int):
                    d = st.decide(c)
                    if d is not None:
                        c = int(d)
                if isinstance(c, int):
                    env[I[1]] = a if c else b
                else:
                    env[I[1]] = merge_val(c, a, b, I[2].n if I[2].k == "i" else 64)
            elif op == "switch":
                v = val(st, env, I[2])
                if isinstance(v, int):
                    for c, d in I[4]:
                        if c == v:
                            work.append((st, env, d, blk))
                            break
                    else:
                        work.append((st, env, I[3], blk))
                    return
                w = I[1].n
                for c, d in I[4]:
                    q = t.eq(v, c, w)
                    dd = st.decide(q)
                    if dd is None and self.smt:
                        dd = self.smt(st, q)
                    if dd is False:
                        continue
                    if dd is True:
                        work.append((st, env, d, blk))
                        return
                    s2 = st.copy()
                    s2.assume(q, True)
                    work.append((s2, dict(env), d, blk))
                    st.assume(q, False)
                work.append((st, env, I[3], blk))
                return
            elif op == "extractvalue":
                v = val(st, env, I[2])
                for k in I[3]:
                    if not isinstance(v, tuple):
                        raise Unsupported("extractvalue of %r" % (v,))
                    v = v[k]
                env[I[1]] = v
            elif op == "insertvalue":
                v = val(st, env, I[2])
                e = val(st, env, I[3])
                env[I[1]] = self._insert(v, e, I[4], I[5])
            elif op == "unreachable":
                raise Violation("control reaches an unreachable point in %s" % m.dem.get(f.name, f.name), st)
            elif op in ("landingpad", "resume"):
                return
            elif op == "nop":
                continue
            else:
                raise Unsupported("instruction " + op)
        raise Unsupported("block without terminator")

    def _cont(self, f, st, env, blk, i, work, rets):
        self._block(f, st, env, blk, i, work, rets)

    def _insert(self, v, e, idx, ty):
        ty = self.mod.resolve(ty)
        n = len(ty.els) if ty.k == "struct" else ty.n
        if not isinstance(v, tuple):
            v = (UNDEF,) * n
        k = idx[0]
        if len(idx) > 1:
            e = self._insert(v[k], e, idx[1:], ty.els[k] if ty.k == "struct" else ty.el)
        return v[:k] + (e,) + v[k + 1:]

    def load_agg(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "i":
            return st.load(p, (ty.n + 7) // 8)
        if ty.k == "ptr":
            return st.load(p, 8)
        if ty.k == "struct":
            self.mod.size(ty)
            return tuple(self.load_agg(st, Ptr(p.obj, p.off + o), e) for e, o in zip(ty.els, ty.offs))
        if ty.k == "arr":
            sz = self.mod.size(ty.el)
            return tuple(self.load_agg(st, Ptr(p.obj, p.off + i * sz), ty.el) for i in range(ty.n))
        raise Unsupported("load of type %r" % ty)

    def store_agg(self, st, p, ty, v):
        ty = self.mod.resolve(ty)
        if v is UNDEF:
            return
        if ty.k == "i":
            st.store(p, (ty.n + 7) // 8, v)
        elif ty.k == "ptr":
            st.store(p, 8, v)
        elif ty.k == "struct":
            self.mod.size(ty)
            for e, o, x in zip(ty.els, ty.offs, v):
                self.store_agg(st, Ptr(p.obj, p.off + o), e, x)
        elif ty.k == "arr":
            sz = self.mod.size(ty.el)
            for i, x in enumerate(v):
                self.store_agg(st, Ptr(p.obj, p.off + i * sz), ty.el, x)
        else:
            raise Unsupported("store of type %r" % ty)

    def bin(self, st, op, a, b, w):
        if type(a) is int and type(b) is int:
            if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
                raise Violation("division by zero", st)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if isinstance(a.off, int) and isinstance(b.off, int):
                        return (a.off - b.off) & t.mask(64)
                    return t.sub(a.off, b.off, 64)
                raise Unsupported("difference of unrelated pointers")
            if op == "sub" and isinstance(a, Ptr) and b == 0:
                return a
            if op == "add" and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off + t.sgn(b, 64))
            if op == "and":
                return Poison("pointer bits")
            raise Unsupported("pointer arithmetic " + op)
        for x in (a, b):
            if isinstance(x, Poison):
                return x
            if x is UNDEF:
                return UNDEF
        f = _BIN[op]
        return f(a, b, w)

    def icmp(self, st, pred, a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    x, y = a.off, b.off
                    if isinstance(x, int) and isinstance(y, int):
                        return {"eq": int(x == y), "ne": int(x != y), "ult": int(x < y), "ugt": int(x > y), "ule": int(x <= y), "uge": int(x >= y)}[pred]
                    return self.icmp(st, pred, x, y, 64)
                if pred in ("eq", "ne"):
                    return int(pred == "ne")
                # ordering of unrelated objects: std::less on pointers; unspecified but total
                return Poison("ordering of unrelated pointers")
            if pred == "eq" or pred == "ne":
                o = b if isinstance(a, Ptr) else a
                if isinstance(o, int) and o == 0:
                    return int(pred == "ne")
                if isinstance(o, Poison):
                    return o
            return Poison("pointer comparison")
        for x in (a, b):
            if isinstance(x, Poison):
                return x
            if x is UNDEF:
                return UNDEF
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported("icmp aggregate")
        if pred == "eq":
            return t.eq(a, b, w)
        if pred == "ne":
            return t.not_(t.eq(a, b, w))
        if pred == "ult":
            return t.ult(a, b, w)
        if pred == "ugt":
            return t.ult(b, a, w)
        if pred == "ule":
            return t.not_(t.ult(b, a, w))
        if pred == "uge":
            return t.not_(t.ult(a, b, w))
        if pred == "slt":
            return t.slt(a, b, w)
        if pred == "sgt":
            return t.slt(b, a, w)
        if pred == "sle":
            return t.not_(t.slt(b, a, w))
        if pred == "sge":
            return t.not_(t.slt(a, b, w))
        raise Unsupported("icmp " + pred)

    # ---- calls ---------------------------------------------------------------------
    def call(self, st, callee, args, I):
        if isinstance(callee, GRef):
            name = callee.name
        elif isinstance(callee, Ptr) and callee.obj.startswith("fn:"):
            name = callee.obj[3:]
        else:
            raise Unsupported("indirect call through %r" % (callee,))
        al = self.mod.aliases.get(name)
        if al and al[0] == "alias":
            name = al[1]
        dem = self.mod.dem.get(name)
        if dem is None:
            dem = self.mod.dem_cache.get(name)
            if dem is None:
                from .ir import demangle
                dem = demangle([name])[name]
                self.mod.dem_cache[name] = dem
        h = self.contracts.get(dem)
        if h is not None and dem not in self.exclude and not getattr(h, "inline", False):
            self.used.add(dem)
            return h.apply(self, st, args, I)
        h = self.intr.get(name) or self.intr.get(dem)
        if h is None and name.startswith("llvm."):
            for k, v in self.intr.items():
                if k.endswith("*") and name.startswith(k[:-1]):
                    h = v
                    break
        if h is not None:
            return h(st, args, I)
        if name in self.mod.funcs:
            self.inlined.add(dem)
            return self.run(name, st, args)
        raise Unsupported("call to unmodelled external function " + dem)

    def throw(self, st, what):
        self.throws.append((st, what))
        return []

    def _intr(self):
        R = self.intr

        def one(fn):
            return lambda st, a, I: [(st, fn(st, a, I))]

        def memcpy(st, a, I):
            st.memcpy(a[0], a[1], a[2])

        def memset(st, a, I):
            st.memset(a[0], a[1], a[2])
        R["llvm.memcpy*"] = one(memcpy)
        R["llvm.memmove*"] = one(memcpy)
        R["llvm.memset*"] = one(memset)
        R["memcpy"] = R["memmove"] = one(lambda st, a, I: (memcpy(st, a, I), a[0])[1])
        R["memset"] = one(lambda st, a, I: (st.memset(a[0], t.trunc(a[1], 32, 8), a[2]), a[0])[1])
        R["llvm.ctlz*"] = one(lambda st, a, I: t.ctlz(a[0], I[2].n))
        R["llvm.cttz*"] = one(lambda st, a, I: t.cttz(a[0], I[2].n))
        R["llvm.bswap*"] = one(lambda st, a, I: t.bswap(a[0], I[2].n))
        R["llvm.fshl*"] = one(lambda st, a, I: t.fshl(a[0], a[1], a[2], I[2].n))
        R["llvm.fshr*"] = one(lambda st, a, I: t.fshl(a[0], a[1], (-a[2]) % I[2].n, I[2].n) if a[2] % I[2].n else a[1])
        R["llvm.umin*"] = one(lambda st, a, I: t.ite(t.ult(a[0], a[1], I[2].n), a[0], a[1], I[2].n))
        R["llvm.umax*"] = one(lambda st, a, I: t.ite(t.ult(a[0], a[1], I[2].n), a[1], a[0], I[2].n))
        R["llvm.lifetime*"] = one(lambda st, a, I: None)
        R["llvm.assume*"] = one(lambda st, a, I: None)
        R["llvm.experimental.noalias*"] = one(lambda st, a, I: None)
        R["llvm.expect*"] = one(lambda st, a, I: a[0])
        R["llvm.stacksave*"] = one(lambda st, a, I: 0)
        R["llvm.stackrestore*"] = one(lambda st, a, I: None)
        R["llvm.is.constant*"] = one(lambda st, a, I: 0)

        def ovf(kind):
            def g(st, a, I):
                w = self.mod.resolve(I[2]).els[0].n
                x, y = a[0], a[1]
                if kind == "uadd":
                    s = t.add(x, y, w)
                    return (s, t.ult(s, x, w))
                if kind == "usub":
                    return (t.sub(x, y, w), t.ult(x, y, w))
                if kind == "umul":
                    p = t.mul(t.zext(x, w, 2 * w), t.zext(y, w, 2 * w), 2 * w)
                    return (t.trunc(p, 2 * w, w), t.not_(t.eq(t.lshr(p, w, 2 * w), 0, 2 * w)))
                raise Unsupported("overflow intrinsic")
            return one(g)
        R["llvm.uadd.with.overflow*"] = ovf("uadd")
        R["llvm.usub.with.overflow*"] = ovf("usub")
        R["llvm.umul.with.overflow*"] = ovf("umul")

        def new(st, a, I):
            if not isinstance(a[0], (int, T)):
                raise Unsupported("allocation of symbolic size")
            return st.new(a[0], "heap", "heap")
        for n in ("_Znwm", "malloc", "_Znam"):
            R[n] = one(new)

        def delete(st, a, I):
            p = a[0]
            if isinstance(p, int) and p == 0:
                return None
            if not isinstance(p, Ptr) or p.off != 0:
                raise Violation("free of invalid pointer %r" % (p,), st)
            o = st.obj(p)
            if o.kind != "heap":
                raise Violation("free of non-heap object %s" % p.obj, st)
            if not o.alive:
                raise Violation("double free of %s" % p.obj, st)
            st.wobj(p).alive = False
        for n in ("_ZdlPv", "_ZdlPvm", "free", "_ZdaPv"):
            R[n] = one(delete)

        def memcmp(st, a, I):
            n = a[2]
            if not isinstance(n, int):
                raise Unsupported("memcmp with symbolic length")
            if n == 0:
                return 0
            def words(p):
                """stored as words: (offset, size) of every cell over the range"""
                o = st.mem.get(p.obj)
                cs = [(off, c[0]) for off, c in o.cells.items() if off < p.off + n and off + c[0] > p.off] if o is not None else []
                return bool(cs) and all(isinstance(k, int) and k >= 8 for _, k in cs)
            E, i = 1, 0
            wide = n % 8 == 0 and all(isinstance(q.off, int) for q in a[:2]) and words(a[0]) and words(a[1])
            while i < n:
                k = 8 if wide else 1
                x, y = (st.load(Ptr(q.obj, q.off + i), k) for q in a[:2])
                for v in (x, y):
                    if v is UNDEF or isinstance(v, Poison):
                        raise Violation("memcmp of uninitialised data", st)
                E = t.and_(E, t.eq(x, y, 8 * k), 1)
                i += k
            if E == 1:
                return 0
            r = None
            for i in reversed(range(n)):
                x, y = (st.load(Ptr(q.obj, q.off + i), 1) for q in a[:2])
                d = t.ite(t.ult(x, y, 8), t.mask(32), 1, 32)
                r = d if r is None else t.ite(t.eq(x, y, 8), r, d, 32)
            # zero exactly when all bytes agree
            return t.ite(E, 0, r, 32)
        R["memcmp"] = R["bcmp"] = one(memcmp)

        def strlen(st, a, I):
            n = 0
            while True:
                c = st.load(Ptr(a[0].obj, a[0].off + n), 1)
                if not isinstance(c, int):
                    raise Unsupported("strlen of symbolic string")
                if c == 0:
                    return n
                n += 1
        R["strlen"] = one(strlen)
        for n in ("__cxa_atexit",):
            R[n] = one(lambda st, a, I: 0)
        R["__cxa_guard_acquire"] = one(lambda st, a, I: (st.store(a[0], 1, 1), 1)[1] if st.load(a[0], 1) in (0, UNDEF) else 0)
        R["__cxa_guard_release"] = one(lambda st, a, I: None)
        R["__cxa_allocate_exception"] = one(lambda st, a, I: st.new(a[0] if isinstance(a[0], int) else 64, "exc", "heap"))
        R["_ZNSt16invalid_argumentC1EPKc"] = one(lambda st, a, I: None)
        for n in ("_ZNSt13runtime_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt12domain_errorC1EPKc"):
            R[n] = one(lambda st, a, I: None)
        R["__cxa_throw"] = lambda st, a, I: self.throw(st, "throw")
        for n in ("_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt19__throw_logic_errorPKc",
                  "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt27__throw_bad_optional_accessv"):
            R[n] = (lambda nn: lambda st, a, I: self.throw(st, nn))(n)

        def trap(st, a, I):
            raise Violation("trap / abort reached", st)
        R["llvm.trap"] = trap
        R["abort"] = trap
        R["_ZSt9terminatev"] = trap


_BIN = {"add": t.add, "sub": t.sub, "mul": t.mul, "and": t.and_, "or": t.or_, "xor": t.xor, "shl": t.shl, "lshr": t.lshr,
        "ashr": t.ashr, "udiv": t.udiv, "urem": t.urem, "sdiv": t.sdiv, "srem": t.srem}


# ---- field elements in memory ---------------------------------------------------------

def limb(F, k, i):
    return mk("limb", (F, k, i), 64)


def int_limbs(V, n=6):
    return [(V >> (64 * i)) & t.mask(64) for i in range(n)]


def addoff(off, n):
    if isinstance(off, int):
        return off + n
    return t.add(off, n, 64)


def write_fp(st, p, F, k=1):
    if F.op == "fconst" and k == 1:
        V = F.args[0] * ref.MR % P
        for i, x in enumerate(int_limbs(V)):
            st.store(Ptr(p.obj, addoff(p.off, 8 * i)), 8, x)
        return
    if F.op == "fraw":          # give back the very words
        for i, x in enumerate(F.args):
            st.store(Ptr(p.obj, addoff(p.off, 8 * i)), 8, x)
        return
    for i in range(6):
        st.store(Ptr(p.obj, addoff(p.off, 8 * i)), 8, limb(F, k, i))


BINT = None         # how to read the words of an abstract integer as a field element


def limbs_to_fp(cs, st=None):
    """six 64-bit words -> (field term of the Montgomery value, bound k: integer value < k*p)"""
    c0 = cs[0]
    if isinstance(c0, T) and c0.op == "limb":
        F, k, _ = c0.args
        if all(isinstance(c, T) and c.op == "limb" and c.args[0] is F and c.args[1] == k and c.args[2] == i for i, c in enumerate(cs)):
            return F, k
    if isinstance(c0, T) and c0.op == "iw" and BINT is not None and all(isinstance(c, T) and c.op == "iw" and c.args[0] is c0.args[0] and c.args[1] == i for i, c in enumerate(cs)):
        return BINT(c0.args[0], st)
    if all(isinstance(c, int) for c in cs):
        V = sum(c << (64 * i) for i, c in enumerate(cs))
        return fl.f1(V * ref.MRI), V // P + 1
    # common ite condition
    conds = {c.args[0] for c in cs if isinstance(c, T) and c.op == "ite"}
    if len(conds) >= 1 and all(isinstance(c, int) or c.op in ("ite", "limb") for c in cs):
        # pick the outermost condition shared by all ite limbs
        for cond in conds:
            def side(c, k):
                if isinstance(c, T) and c.op == "ite" and c.args[0] is cond:
                    return c.args[k]
                return c
            a = [side(c, 1) for c in cs]
            b = [side(c, 2) for c in cs]
            try:
                Fa, ka = limbs_to_fp(a, st)
                Fb, kb = limbs_to_fp(b, st)
            except RecursionError:
                break
            if Fa.op != "fraw" and Fb.op != "fraw":
                return fl.fite(cond, Fa, Fb), max(ka, kb)
    for c in cs:
        if not isinstance(c, (int, T)):
            return None, None
    cn = [t.bitnorm(c) for c in cs]
    if any(a is not b for a, b in zip(cs, cn)):
        return limbs_to_fp(cn, st) if all(isinstance(c, int) or c.op == "limb" for c in cn) else (mk("fraw", tuple(cn), -1), 10)
    return mk("fraw", tuple(cs), -1), 10


def read_fp(st, p):
    if not isinstance(p, Ptr):
        raise Violation("field operand through invalid pointer %r" % (p,), st)
    cs = [st.load(Ptr(p.obj, addoff(p.off, 8 * i)), 8) for i in range(6)]
    F, k = limbs_to_fp(cs, st)
    if F is None:
        raise Violation("field operand is uninitialised or unmodelled memory (%r)" % (cs[:2],), st)
    if F.op == "fraw" and st.lits.get(mk("fcanon", (F,), 1)):
        k = 1
    return F, k


def read_el(st, p, sort, what="operand"):
    n = {-1: 1, -2: 2, -6: 6, -12: 12}[sort]
    parts = []
    for i in range(n):
        F, k = read_fp(st, Ptr(p.obj, addoff(p.off, 48 * i)))
        if k != 1:
            raise Violation("precondition: %s is not fully reduced (bound %d*p)" % (what, k), st)
        parts.append(F)
    return fl.unflat(parts, sort)


def write_el(st, p, E):
    for i, F in enumerate(fl.flat(E)):
        write_fp(st, Ptr(p.obj, addoff(p.off, 48 * i)), F)


SIZES = {-1: 48, -2: 96, -6: 288, -12: 576}
