"""Hash-consed terms.

A machine value is either a Python int (concrete, already reduced modulo 2^w; the
width comes from the instruction) or a T (symbolic bit-vector term of width T.w).
Booleans are width 1.  Field-sorted terms (see field.py) are T with w == 0.
"""
import sys
sys.setrecursionlimit(100000)
_tab = {}
_next = [1]


class T:
    __slots__ = ("op", "args", "w", "id", "_rng", "_hash")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a concrete boolean: %s" % show(self)[:200])


def mk(op, args, w):
    key = (op, args, w)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.w = op, args, w
        t.id = _next[0]
        _next[0] += 1
        t._rng = None
        _tab[key] = t
    return t


def reset():
    _bits.clear()
    _tab.clear()


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return mk("var", ("%s!%d" % (name, _fresh[0]),), w)


def var(name, w):
    return mk("var", (name,), w)


def show(t, depth=6):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) else str(t)
    if t.op == "var":
        return str(t.args[0])
    if depth == 0:
        return "..."
    return "(%s%s)" % (t.op, "".join(" " + (show(a, depth - 1) if isinstance(a, (T, int)) else str(a)) for a in t.args))


def is_const(x):
    return isinstance(x, int)


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# ---- ranges (unsigned upper/lower bounds), used to decide comparisons cheaply
RANGE = {}   # var id -> (lo, hi)


def rng(x, w=None):
    if isinstance(x, int):
        return x, x
    r = x._rng
    if r is None:
        r = _rng(x)
        x._rng = r
    return r


def _rng(t):
    m = mask(t.w)
    op = t.op
    if t.id in RANGE:
        return RANGE[t.id]
    a = t.args
    if op == "zext":
        return rng(a[0])
    if op == "limb" and a[2] == 5:          # top word of an integer below k p
        return 0, min(m, (a[1] * PRIME - 1) >> 320)
    if op == "and":
        h = min(rng(a[0])[1], rng(a[1])[1])
        return 0, h
    if op in ("or", "xor"):
        h = max(rng(a[0])[1], rng(a[1])[1])
        return 0, min(m, (1 << h.bit_length()) - 1)
    if op == "lshr" and isinstance(a[1], int):
        lo, hi = rng(a[0])
        return lo >> a[1], hi >> a[1]
    if op == "shl" and isinstance(a[1], int):
        lo, hi = rng(a[0])
        if (hi << a[1]) <= m:
            return lo << a[1], hi << a[1]
        return 0, m
    if op == "add":
        l0, h0 = rng(a[0])
        l1, h1 = rng(a[1])
        if h0 + h1 <= m:
            return l0 + l1, h0 + h1
        if isinstance(a[1], int):   # adding a negative constant
            c = (1 << t.w) - a[1]
            if l0 >= c:
                return l0 - c, h0 - c
        return 0, m
    if op == "sub":
        l0, h0 = rng(a[0])
        l1, h1 = rng(a[1])
        if l0 >= h1:
            return l0 - h1, h0 - l1
        return 0, m
    if op == "mul":
        l0, h0 = rng(a[0])
        l1, h1 = rng(a[1])
        if h0 * h1 <= m:
            return l0 * l1, h0 * h1
        return 0, m
    if op == "urem" and isinstance(a[1], int) and a[1] > 0:
        lo, hi = rng(a[0])
        if hi < a[1]:
            return lo, hi
        return 0, a[1] - 1
    if op == "udiv" and isinstance(a[1], int) and a[1] > 0:
        lo, hi = rng(a[0])
        return lo // a[1], hi // a[1]
    if op == "ite":
        l0, h0 = rng(a[1])
        l1, h1 = rng(a[2])
        return min(l0, l1), max(h0, h1)
    if op == "trunc":
        lo, hi = rng(a[0])
        if hi <= m:
            return lo, hi
        return 0, m
    return 0, m


PRIME = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab


# ---- bit slices ----
_bits = {}


def bits(x, w):
    """bit atoms, least significant first: 0, 1, or (source, index); None where the term is not made of slices"""
    if isinstance(x, int):
        return [x >> i & 1 for i in range(w)]
    r = _bits.get(x.id)
    if r is None:
        r = _bits[x.id] = _mkbits(x)
    return r


def _mkbits(x):
    a, w, op = x.args, x.w, x.op
    r = None
    if op in ("shl", "lshr") and isinstance(a[1], int):
        b, k = bits(a[0], w), min(a[1], w)
        r = [0] * k + b[:w - k] if op == "shl" else b[k:] + [0] * k
    elif op == "zext":
        r = bits(a[0], a[0].w)
        r = r + [0] * (w - len(r))
    elif op == "trunc":
        r = bits(a[0], a[0].w)[:w]
    elif op in ("and", "or", "add", "xor"):
        p, q = bits(a[0], w), bits(a[1], w)
        r = []
        for u, v in zip(p, q):
            if op == "and":
                z = 0 if u == 0 or v == 0 else u if v == 1 or u == v else v if u == 1 else None
            elif op == "or":
                z = 1 if u == 1 or v == 1 else u if v == 0 or u == v else v if u == 0 else None
            else:
                z = u if v == 0 else v if u == 0 else None
            if z is None:
                r = None
                break
            r.append(z)
    if r is None:
        h = rng(x)[1].bit_length()
        r = [(x, i) if i < h else 0 for i in range(w)]
    return r


def bitnorm(x):
    """the same word rebuilt from maximal slices of its sources"""
    if isinstance(x, int):
        return x
    w = x.w
    b = bits(x, w)
    out, i = 0, 0
    while i < w:
        if not isinstance(b[i], tuple):
            out = or_(out, b[i] << i, w)
            i += 1
            continue
        s, k = b[i]
        n = 1
        while i + n < w and b[i + n] == (s, k + n):
            n += 1
        if n == 1 and not isinstance(s, T):
            return x
        h = rng(s)[1].bit_length()
        v = lshr(s, k, s.w)
        if k + n < h:
            v = trunc(v, s.w, n) if n < s.w else v
            v = zext(v, n, w) if n < w else v
        else:
            v = zext(v, s.w, w) if s.w < w else trunc(v, s.w, w) if s.w > w else v
        out = or_(out, shl(v, i, w), w)
        i += n
    return out


# ---- constructors -----------------------------------------------------------

def add(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a + b) & mask(w)
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if a.op == "add" and isinstance(a.args[1], int):
            return add(a.args[0], (a.args[1] + b) & mask(w), w)
        return mk("add", (a, b), w)
    # (x - y) + y  -> x
    if a.op == "sub" and a.args[1] is b:
        return a.args[0]
    if b.op == "sub" and b.args[1] is a:
        return b.args[0]
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), w)


def sub(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return (a - b) & mask(w)
        return add(a, (-b) & mask(w), w)
    if a is b:
        return 0
    if not isinstance(a, int):
        if a.op == "add" and a.args[1] is b:
            return a.args[0]
        if a.op == "add" and a.args[0] is b:
            return a.args[1]
        # (x + c1) - (y + c2)
        if a.op == "add" and isinstance(a.args[1], int) and a.args[0] is b:
            return a.args[1]
        if a.op == "add" and b.op == "add" and isinstance(a.args[1], int) and isinstance(b.args[1], int) and a.args[0] is b.args[0]:
            return (a.args[1] - b.args[1]) & mask(w)
        if b.op == "add" and isinstance(b.args[1], int) and b.args[0] is a:
            return (-b.args[1]) & mask(w)
    return mk("sub", (a, b), w)


def mul(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a * b) & mask(w)
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        return mk("mul", (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), w)


def and_(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a & b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == "and" and isinstance(a.args[1], int):
            return and_(a.args[0], a.args[1] & b, w)
        if b & (b + 1) == 0 and rng(a)[1] <= b:
            return a
        if a.op == "zext" and isinstance(a.args[0], T):
            iw = a.args[0].w
            return zext(and_(a.args[0], b & mask(iw), iw), iw, w)
        if a.op == "ite" and isinstance(a.args[1], int) and isinstance(a.args[2], int):
            return ite(a.args[0], a.args[1] & b, a.args[2] & b, w)
        if a.id in RES and b & (b + 1) == 0 and RES[a.id][0] % (b + 1) == 0:
            return RES[a.id][1] % (b + 1)
        return mk("and", (a, b), w)
    if a is b:
        return a
    if w == 1:
        if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
            return 0
    if a.id > b.id:
        a, b = b, a
    return mk("and", (a, b), w)


def or_(a, b, w):
    r = _or(a, b, w)
    if w in (32, 64) and isinstance(r, T) and r.op == "or":
        x = _recombine(r, w)
        if x is not None:
            return x
    return r


def _piece(x, w):
    """a byte of a word moved to some byte position: (source, source bit, target bit)"""
    s = 0
    if x.op == "shl" and isinstance(x.args[1], int):
        s, x = x.args[1], x.args[0]
    if not isinstance(x, T):
        return None
    if x.op == "zext":
        x = x.args[0]
        if x.w != 8:
            return None
        if x.op == "trunc":
            y = x.args[0]
            if isinstance(y, T) and y.op == "lshr" and isinstance(y.args[1], int):
                return y.args[0], y.args[1], s
            return y, 0, s
    return None


def _recombine(r, w):
    ps, st = [], [r]
    while st:
        y = st.pop()
        if not isinstance(y, T):
            return None
        if y.op == "or":
            st += y.args
            if len(st) + len(ps) > w // 8:
                return None
            continue
        p = _piece(y, w)
        if p is None or not isinstance(p[0], T) or p[0].w != w or p[1] != p[2]:
            return None
        ps.append(p)
    if len(ps) == w // 8 and len({p[0].id for p in ps}) == 1 and len({p[1] for p in ps}) == w // 8:
        return ps[0][0]
    return None


def _or(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a | b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return b
        return mk("or", (a, b), w)
    if a is b:
        return a
    if w == 1:
        if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
            return 1
    if a.id > b.id:
        a, b = b, a
    return mk("or", (a, b), w)


def xor(a, b, w):
    za = a.args[0].w if isinstance(a, T) and a.op == "zext" and isinstance(a.args[0], T) else None
    zb = b.args[0].w if isinstance(b, T) and b.op == "zext" and isinstance(b.args[0], T) else None
    k = za or zb
    if k and k > 1 and (za == k or isinstance(a, int) and a >> k == 0) and (zb == k or isinstance(b, int) and b >> k == 0):
        return zext(xor(a.args[0] if za else a, b.args[0] if zb else b, k), k, w)
    if isinstance(a, int):
        if isinstance(b, int):
            return a ^ b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if b == mask(w):
            if a.op == "xor" and a.args[1] == b:
                return a.args[0]
        return mk("xor", (a, b), w)
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk("xor", (a, b), w)


def not_(a):
    """boolean negation"""
    if isinstance(a, int):
        return a ^ 1
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), 1)


def shl(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & mask(w)
    elif isinstance(a, int) and a == 0:
        return 0
    return mk("shl", (a, b), w)


def lshr(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        if a.op == "lshr" and isinstance(a.args[1], int):
            return lshr(a.args[0], a.args[1] + b, w)
        if a.op == "shl" and isinstance(a.args[1], int):
            s = a.args[1]
            x = a.args[0]
            if isinstance(x, T) and rng(x)[1] << s <= mask(w):   # no bits lost
                return lshr(x, b - s, w) if b >= s else shl(x, s - b, w)
        if rng(a)[1] >> b == 0:
            return 0
        if a.op == "or":
            return or_(lshr(a.args[0], b, w), lshr(a.args[1], b, w), w)
    elif isinstance(a, int) and a == 0:
        return 0
    return mk("lshr", (a, b), w)


def ashr(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (sgn(a, w) >> min(b, w - 1)) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, T) and rng(a)[1] < (1 << (w - 1)):
        return lshr(a, b, w)
    return mk("ashr", (a, b), w)


def udiv(a, b, w):
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and isinstance(b, int) and b:
        return a // b
    if isinstance(b, int) and b and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    return mk("udiv", (a, b), w)


RES = {}     # var id -> (modulus, residue): what is known about a symbolic integer


def urem(a, b, w):
    if isinstance(a, T) and isinstance(b, int) and b and a.id in RES and RES[a.id][0] % b == 0:
        return RES[a.id][1] % b
    if isinstance(a, int) and isinstance(b, int) and b:
        return a % b
    if isinstance(b, int) and b and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    if isinstance(b, int) and b and isinstance(a, T) and rng(a)[1] < b:
        return a
    return mk("urem", (a, b), w)


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isinstance(b, int) and 0 < b < 1 << (w - 1) and rng(a)[1] < 1 << (w - 1):
        return udiv(a, b, w)
    return mk("sdiv", (a, b), w)


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if isinstance(b, int) and 0 < b < 1 << (w - 1) and rng(a)[1] < 1 << (w - 1):
        return urem(a, b, w)
    return mk("srem", (a, b), w)


def trunc(a, fw, tw):
    if isinstance(a, T) and a.op == "ashr" and isinstance(a.args[1], int) and a.args[1] + tw <= fw:
        a = lshr(a.args[0], a.args[1], fw)
    if isinstance(a, int):
        return a & mask(tw)
    if a.op in ("zext", "sext"):
        iw = a.args[0].w
        if iw == tw:
            return a.args[0]
        if iw > tw:
            return trunc(a.args[0], iw, tw)
        return zext(a.args[0], iw, tw) if a.op == "zext" else sext(a.args[0], iw, tw)
    if a.op == "trunc":
        return trunc(a.args[0], a.args[0].w, tw)
    if a.op == "and":
        return and_(trunc(a.args[0], fw, tw), trunc(a.args[1], fw, tw), tw)
    if a.op == "or":
        return or_(trunc(a.args[0], fw, tw), trunc(a.args[1], fw, tw), tw)
    if a.op == "xor" and isinstance(a.args[1], int):
        return xor(trunc(a.args[0], fw, tw), a.args[1] & mask(tw), tw)
    if a.op == "shl" and isinstance(a.args[1], int):
        if a.args[1] >= tw:
            return 0
        return shl(trunc(a.args[0], fw, tw), a.args[1], tw)
    if a.op == "ite":
        if isinstance(a.args[1], int) or isinstance(a.args[2], int):
            return ite(a.args[0], trunc(a.args[1], fw, tw), trunc(a.args[2], fw, tw), tw)
    if a.op == "lshr" and isinstance(a.args[1], int) and isinstance(a.args[0], T) and a.args[0].op == "zext":
        iw = a.args[0].args[0].w
        if tw <= iw:
            return trunc(lshr(a.args[0].args[0], a.args[1], iw), iw, tw) if a.args[1] < iw else 0
    return mk("trunc", (a,), tw)


def zext(a, fw, tw):
    if isinstance(a, int):
        return a
    if fw == tw:
        return a
    if a.op == "zext":
        return zext(a.args[0], a.args[0].w, tw)
    return mk("zext", (a,), tw)


def sext(a, fw, tw):
    if isinstance(a, int):
        return sgn(a, fw) & mask(tw)
    if fw == tw:
        return a
    if rng(a)[1] < 1 << (fw - 1):
        return zext(a, fw, tw)
    return mk("sext", (a,), tw)


_leaves = {}


def leaves(a):
    """the values of a tree of choices between constants; None when it is something else"""
    if isinstance(a, int):
        return {a}
    if a.op != "ite":
        return None
    if a.id not in _leaves:
        x, y = leaves(a.args[1]), leaves(a.args[2])
        _leaves[a.id] = x | y if x is not None and y is not None and len(x | y) <= 4 else None
    return _leaves[a.id]


def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    if a is b:
        return 1
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        lo, hi = rng(a)
        if b < lo or b > hi:
            return 0
        if a.w == 1:
            return a if b == 1 else not_(a)
        if a.op == "zext":
            return eq(a.args[0], b, a.args[0].w)
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if isinstance(x, int) and isinstance(y, int):
                if x == b and y == b:
                    return 1
                if x == b:
                    return a.args[0]
                if y == b:
                    return not_(a.args[0])
                return 0
            if isinstance(x, int) or isinstance(y, int):
                # one arm constant: the other may be impossible
                k, z, c = (x, y, a.args[0]) if isinstance(x, int) else (y, x, not_(a.args[0]))
                e = eq(z, b, w)
                if isinstance(e, int):
                    return (1 if e else c) if k == b else (not_(c) if e else 0)
            elif a.w <= 32 and leaves(a) is not None and b not in leaves(a):
                return 0
        if a.op == "add" and isinstance(a.args[1], int):
            return eq(a.args[0], (b - a.args[1]) & mask(w), w)
        if b == 0 and a.op == "or":
            return and_(eq(a.args[0], 0, w), eq(a.args[1], 0, w), 1)
        if b == 0 and a.op in ("xor", "sub"):
            return eq(a.args[0], a.args[1], w)
        if a.op == "xor" and isinstance(a.args[1], int):
            return eq(a.args[0], a.args[1] ^ b, w)
        if a.op == "and" and a.args[1] == 1:
            x = trunc(a.args[0], w, 1)
            return x if b == 1 else not_(x)
        return mk("eq", (a, b), 1)
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0], a.args[0].w)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), 1)


def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a < b)
    if a is b:
        return 0
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    return mk("ult", (a, b), 1)


def ule(a, b, w):
    return not_(ult(b, a, w))


def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(sgn(a, w) < sgn(b, w))
    if a is b:
        return 0
    h = 1 << (w - 1)
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < h and hb < h:
        return ult(a, b, w)
    if isinstance(b, int) and ha < h and b >= h:   # a >= 0 > b
        return 0
    if isinstance(a, int) and hb < h and a >= h:
        return 1
    return mk("slt", (a, b), 1)


def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a, w)
    if w == 1:
        if isinstance(a, int) and isinstance(b, int):
            return c if a else not_(c)
        if isinstance(a, int):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if isinstance(b, int):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return mk("ite", (c, a, b), w)


def ctlz(a, w):
    if isinstance(a, int):
        return w - a.bit_length()
    return mk("ctlz", (a,), w)


def cttz(a, w):
    if isinstance(a, int):
        return w if a == 0 else (a & -a).bit_length() - 1
    return mk("cttz", (a,), w)


def bswap(a, w):
    if isinstance(a, int):
        return int.from_bytes(a.to_bytes(w // 8, "little"), "big")
    r = 0
    n = w // 8
    for i in range(n):
        by = and_(lshr(a, 8 * i, w), 0xff, w)
        r = or_(r, shl(by, 8 * (n - 1 - i), w), w)
    return r


def fshl(a, b, c, w):
    """llvm.fshl with concrete amount"""
    if isinstance(c, int):
        c %= w
        if c == 0:
            return a
        return or_(shl(a, c, w), lshr(b, w - c, w), w)
    return mk("fshl", (a, b, c), w)


def extract_byte(a, i, w):
    return trunc(lshr(a, 8 * i, w), w, 8)


def concat_bytes(bs):
    """little-endian bytes -> value"""
    w = 8 * len(bs)
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "little")
    # recognise a split 64/32-bit word
    def split(b):
        if b.op == "trunc" and isinstance(b.args[0], T):
            x = b.args[0]
            if x.op == "lshr" and isinstance(x.args[1], int):
                return x.args[0], x.args[1]
            return x, 0
        return b, 0
    if isinstance(bs[0], T):
        x, s = split(bs[0])
        if isinstance(x, T) and s == 0 and x.w == w:
            if all(isinstance(bs[i], T) and split(bs[i]) == (x, 8 * i) for i in range(1, len(bs))):
                return x
    r = 0
    for i, b in enumerate(bs):
        r = or_(r, shl(zext(b, 8, w), 8 * i, w), w)
    return r


def variables(ts):
    seen, out, st = set(), [], [t for t in ts if isinstance(t, T)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "var":
            out.append(t)
        for a in t.args:
            if isinstance(a, T):
                st.append(a)
    return out


def evaluate(t, env, cache=None):
    """concrete evaluation of a BV term under env: var-term -> int"""
    if isinstance(t, int):
        return t
    if cache is None:
        cache = {}
    order, st = [], [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in cache:
            continue
        if done:
            cache[x.id] = _ev(x, env, cache)
        else:
            st.append((x, True))
            for a in x.args:
                if isinstance(a, T) and a.id not in cache:
                    st.append((a, False))
    return cache[t.id]


def _ev(t, env, c):
    op = t.op
    if t in env:
        return env[t]
    if op == "var" or op == "limb":
        raise KeyError(t)
    v = [c[a.id] if isinstance(a, T) else a for a in t.args]
    w = t.w
    aw = t.args[0].w if isinstance(t.args[0], T) else (t.args[1].w if len(t.args) > 1 and isinstance(t.args[1], T) else w)
    f = dict(add=add, sub=sub, mul=mul, shl=shl, lshr=lshr, ashr=ashr, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem,
             xor=xor, ctlz=None).get(op)
    if f:
        return f(v[0], v[1], w)
    if op == "and":
        return v[0] & v[1]
    if op == "or":
        return v[0] | v[1]
    if op == "not":
        return v[0] ^ 1
    if op == "eq":
        return int(v[0] == v[1])
    if op == "ult":
        return int(v[0] < v[1])
    if op == "slt":
        return int(sgn(v[0], aw) < sgn(v[1], aw))
    if op == "ite":
        return v[1] if v[0] else v[2]
    if op == "trunc":
        return v[0] & mask(w)
    if op == "zext":
        return v[0]
    if op == "sext":
        return sgn(v[0], aw) & mask(w)
    if op == "ctlz":
        return w - v[0].bit_length()
    raise NotImplementedError(op)
