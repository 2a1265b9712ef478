"""Byte strings as values: a rope is a tuple of single bytes (8-bit terms) and slices of buffers whose content and
length are arbitrary.  A hash function applied to a rope is a tuple of 8-bit variables, one rope - one tuple."""
from . import term as t, smt
from .term import T
from . import exec as exec_
from .exec import Ptr, Contract, Infeasible, Violation, UNDEF, addoff
from .ir import Unsupported

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
LIMIT = 1 << 60
_apps, _owner, _eqs = {}, {}, {}


def reset():
    _apps.clear()
    _owner.clear()
    _eqs.clear()


def g(st, k):
    return st.ghost.get(k, {})


def put(st, k, key, v):
    st.ghost = dict(st.ghost)
    d = dict(st.ghost.get(k, {}))
    d[key] = v
    st.ghost[k] = d


def opaque(st, name, n):
    """a read-only buffer with arbitrary content of n bytes"""
    p = st.new(None, name, "opaque", ro=True)
    put(st, "opaque", p.obj, (name, n))
    if not isinstance(n, int):
        st.assume(t.ult(n, LIMIT, 64))
    return p


def string(st, name, n):
    """a std::string object with arbitrary content of n bytes"""
    p = st.new(32, name, "arg")
    put(st, "strings", p.obj, (opaque(st, name + "_data", n), n))
    return p


def rope(st, p, n, w=64):
    """the n bytes at p"""
    if n == 0:
        return ()
    if w < 64 and not isinstance(n, int):
        n = t.zext(n, w, 64)
    if not isinstance(p, Ptr):
        if same(st, n, 0):
            return ()
        raise Violation("%s bytes at an invalid pointer" % ("some" if isinstance(n, T) else n), st)
    oq = g(st, "opaque").get(p.obj)
    if oq is not None:
        size = oq[1]
        if p.off == 0 and same(st, n, size):
            return (("s", oq[0], 0, size),)
        if isinstance(n, int) and isinstance(p.off, int):
            return tuple(("b", byteat(st, p, i)) for i in range(n))
        within(st, p.off, n, size, "read", oq[0])
        return (("s", oq[0], p.off, n),)
    segs = g(st, "segs").get(p.obj)
    if segs:
        end = t.add(p.off, n, 64)
        out, pos = [], p.off
        if not isinstance(pos, int) or not isinstance(segs[0][0], int) or pos > segs[0][0]:
            raise Unsupported("part of a buffer of arbitrary length")
        st.check(st.obj(p), p.off, n, "read", p)
        out += [("b", byteat(st, p, i)) for i in range(segs[0][0] - pos)]
        if isinstance(end, int) and end <= segs[0][0]:
            return tuple(out[:n])
        pos = segs[0][0]
        for off, ln, items in segs:
            if same(st, pos, end):
                break
            out += items
            pos = t.add(off, ln, 64)
        if not same(st, pos, end):
            raise Unsupported("part of a buffer of arbitrary length")
        if any(x[0] == "b" and (x[1] is UNDEF or not isinstance(x[1], (int, T))) for x in out):
            raise Unsupported("uninitialised bytes")
        return tuple(out)
    if not isinstance(n, int):
        raise Unsupported("symbolic number of bytes")
    r = tuple(("b", byteat(st, p, i)) for i in range(n))
    if any(not isinstance(x[1], (int, T)) for x in r):
        raise Unsupported("uninitialised bytes")
    return r


def within(st, off, n, size, what, name):
    end = t.add(off, n, 64)
    ok, d = smt.valid(t.not_(t.ult(size, end, 64)), st.pc)
    if ok is True:
        return
    if ok is False:
        raise Violation("%s of %s may be out of bounds (%s)" % (what, name, d), st)
    raise Unsupported("%s of %s may be out of bounds" % (what, name))


class Sym:
    """memory operations on buffers of arbitrary length"""

    def inside(self, st, o, off, n, what, p):
        within(st, off, n, o.size, what, p.obj)

    def load(self, st, p, n):
        name, size = g(st, "opaque")[p.obj]
        if n != 1:
            return t.concat_bytes([self.load(st, Ptr(p.obj, t.add(p.off, i, 64)), 1) for i in range(n)])
        within(st, p.off, 1, size, "read", name)
        return t.var("%s[%s]" % (name, p.off if isinstance(p.off, int) else "t%d" % p.off.id), 8)

    def below(self, st, p, n):
        o0 = g(st, "segs")[p.obj][0][0]
        if not isinstance(p.off, int) or not isinstance(o0, int) or p.off + n > o0:
            raise Unsupported("write into a part of arbitrary length")

    def add(self, st, p, n, items):
        segs = g(st, "segs").get(p.obj, ())
        for k, (off, ln, _) in enumerate(segs):
            if same(st, off, p.off) and same(st, ln, n):
                put(st, "segs", p.obj, segs[:k] + ((off, ln, items),) + segs[k + 1:])
                return
        if segs:
            off, ln, _ = segs[-1]
            if not same(st, t.add(off, ln, 64), p.off):
                raise Unsupported("write into a part of arbitrary length")
        elif not isinstance(p.off, int) or any(c + w[0] > p.off for c, w in st.obj(p).cells.items()):
            raise Unsupported("write at an arbitrary offset")
        put(st, "segs", p.obj, segs + ((p.off, n, items),))

    def store(self, st, p, n, v):
        if n != 1:
            raise Unsupported("write at an arbitrary offset")
        st.check(st.wobj(p), p.off, n, "store", p)
        if p.obj not in g(st, "segs") and not isinstance(p.off, int):
            raise Unsupported("write at an arbitrary offset")
        self.add(st, p, 1, (("b", v),))

    def copy(self, st, d, s, n):
        """-> handled"""
        src = g(st, "opaque").get(s.obj)
        if src is None and isinstance(n, int) and s.obj not in g(st, "segs"):
            return False
        if isinstance(n, int):
            for i in range(n):
                st.store(Ptr(d.obj, addoff(d.off, i)), 1, byteat(st, s, i))
            return True
        do = st.wobj(d)
        if not isinstance(do.size, T):
            if src is not None:
                raise Unsupported("copy of arbitrary length into %s" % d.obj)
            return self.tail(st, d, s, n)
        st.check(do, d.off, n, "memcpy write", d)
        if src is None and s.obj not in g(st, "segs"):
            return self.tail(st, d, s, n)
        self.add(st, d, n, rope(st, s, n))
        return True

    def tail(self, st, d, s, n):
        """the last, shorter piece of an output"""
        so = st.obj(s)
        if not isinstance(so.size, int) or not isinstance(s.off, int) or not isinstance(d.off, int):
            raise Unsupported("copy of arbitrary length")
        within(st, s.off, n, so.size, "memcpy read", s.obj)
        st.check(st.wobj(d), d.off, n, "memcpy write", d)
        if d.obj in g(st, "tail") or any(c + w[0] > d.off for c, w in st.obj(d).cells.items()):
            raise Unsupported("copy of arbitrary length")
        bs = []
        for i in range(so.size - s.off):
            bs.append(byteat(st, s, i))
        put(st, "tail", d.obj, (d.off, n, tuple(bs)))
        return True


exec_.SYM = Sym()


def byteat(st, p, i):
    return st.load(Ptr(p.obj, addoff(p.off, i)), 1)


def same(st, a, b, w=64):
    if a is b or (isinstance(a, int) and isinstance(b, int)):
        return a == b
    return smt.valid(t.eq(a, b, w), st.pc)[0] is True


def key(r):
    k = []
    for s in r:
        k.append(tuple(x.id if isinstance(x, T) else x for x in s) if s[0] == "s" else ("b", s[1].id if isinstance(s[1], T) else s[1]))
    return tuple(k)


def num(n, k):
    return tuple(("b", n >> (8 * (k - 1 - i)) & 255 if isinstance(n, int) else t.trunc(t.lshr(n, 8 * (k - 1 - i), 64), 64, 8)) for i in range(k))


def bs(b):
    return tuple(("b", x) for x in b)


def app(fn, args, n):
    """fn(args): n bytes; args is a tuple of ropes, terms and integers"""
    k = (fn,) + tuple(key(a) if isinstance(a, tuple) else ("t", a.id) if isinstance(a, T) else a for a in args)
    if k not in _apps:
        j = len(_apps)
        _apps[k] = (tuple(t.var("%s%d_%d" % (fn, j, i), 8) for i in range(n)), args)
        _owner["%s%d" % (fn, j)] = (fn, args)
    return _apps[k][0]


def byte0(h):
    return t.var(h + "_0", 8)


def origin(x):
    """(function, arguments, index) of a byte of some application"""
    if not isinstance(x, T) or x.op != "var" or "_" not in str(x.args[0]):
        return None
    h, i = x.args[0].rsplit("_", 1)
    o = _owner.get(h)
    return o and o + (int(i), h)


def equal(st, a, b):
    """True / False / None: byte terms equal under the path condition (congruence of applications)"""
    if a is b or (isinstance(a, int) and isinstance(b, int)):
        return a == b
    oa, ob = origin(a), origin(b)
    if oa and ob:
        if oa[0] != ob[0] or oa[2] != ob[2] or len(oa[1]) != len(ob[1]):
            return None
        if differ(st, a, b):
            return False
        k = (oa[3], ob[3], st.tok if hasattr(st, "tok") else id(st), len(st.pc))
        if k not in _eqs:
            _eqs[k] = all((equalrope(st, x, y) if isinstance(x, tuple) and isinstance(y, tuple) else same(st, x, y)) is True for x, y in zip(oa[1], ob[1]))
        return True if _eqs[k] else None
    ok, d = smt.valid(t.eq(a, b, 8), st.pc)
    if ok is False and (oa or ob):
        return None                                # values of the hash are not arbitrary
    if ok is False and any(origin(v) for v in vars_of(a, b)):
        return None
    return ok


def vars_of(*ts):
    return [v for v in t.variables([x for x in ts if isinstance(x, T)]) if isinstance(v, T)]


def equalrope(st, a, b):
    if len(a) != len(b):
        return None
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return None
        if x[0] == "s":
            if x[1] != y[1] or not same(st, x[2], y[2]) or not same(st, x[3], y[3]):
                return None
        elif equal(st, x[1], y[1]) is not True:
            return None
    return True


INJECTIVE = ("F", "sha", "xmd")


def notequal(st, x, y, w):
    """is there an input for which the two values differ (values of the hash are not arbitrary)"""
    if isinstance(x, int) and isinstance(y, int):
        return x != y
    if any(origin(v) for v in vars_of(x, y)):
        return False
    return smt.valid(t.eq(x, y, w), st.pc)[0] is False


def differ(st, a, b, depth=0):
    """some input makes the arguments of the same (collision-free) function differ"""
    if a is b or depth > 40:
        return False
    oa, ob = origin(a), origin(b)
    if not oa or not ob:
        return not oa and not ob and notequal(st, a, b, 8)
    if oa[0] != ob[0] or oa[0] not in INJECTIVE or oa[2] != ob[2] or len(oa[1]) != len(ob[1]):
        return False
    k = ("d", oa[3], ob[3], st.tok if hasattr(st, "tok") else id(st), len(st.pc))
    if k not in _eqs:
        _eqs[k] = any((differrope(st, x, y, depth) if isinstance(x, tuple) and isinstance(y, tuple) else
                       not isinstance(x, tuple) and not isinstance(y, tuple) and notequal(st, x, y, 32)) for x, y in zip(oa[1], ob[1]))
    return _eqs[k]


def differrope(st, a, b, depth):
    if len(a) != len(b) or any(x[0] != y[0] or x[0] == "s" and (x[1] != y[1] or not same(st, x[2], y[2])) for x, y in zip(a, b)):
        return False
    if any(x[0] == "s" and notequal(st, x[3], y[3], 64) for x, y in zip(a, b)):
        return sum(x[0] == "s" for x in a) == 1            # one piece of another length: another string
    if any(x[0] == "s" and not same(st, x[3], y[3]) for x, y in zip(a, b)):
        return False
    return any(x[0] == "b" and differ(st, x[1], y[1], depth + 1) for x, y in zip(a, b))


class Fn(Contract):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def apply(self, exr, st, args, I):
        r = self.f(st, args)
        return r if isinstance(r, list) else [(st, r)]


def strof(st, p):
    v = g(st, "strings").get(p.obj) if isinstance(p, Ptr) and p.off == 0 else None
    if v is None:
        raise Unsupported("text of an unknown string")
    return v


def strings():
    """std::string seen through its contract (trusted)"""
    out = []
    for m, f in (("length", 1), ("size", 1), ("c_str", 0), ("data", 0)):
        out.append(Fn("%s::%s() const" % (STR, m), lambda s, a, f=f: strof(s, a[0])[f]))
    return {c.name: c for c in out}
