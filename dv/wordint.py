"""Exact integer reasoning about straight-line word arithmetic.

A machine word is a rational polynomial over atoms (input words, low product words, sums whose carry is not known),
a linear form modulo 2^64, and an interval.  A carry or high word is defined through the words around it
(c = (a+b+cin-s)/2^64), so carries telescope when words are put together again, and a carry is dropped only when
interval reasoning shows that it is zero.
"""
from fractions import Fraction as Fr
from math import floor, ceil
W64 = 1 << 64
TOP = 1 << 384


class Poly:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    def __add__(self, o):
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()}) if k else Poly()

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * e
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    def const(self):
        return self.d.get((), 0)

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def atoms(self):
        return {a for m in self.d for a in m}


def C(k):
    return Poly({(): Fr(k)} if k else {})


class Word:
    __slots__ = ("p", "mod", "lo", "hi", "id", "used")
    n = 0

    def __init__(self, p, lo, hi, mod=None):
        Word.n += 1
        self.id = Word.n
        self.p, self.lo, self.hi = p, lo, hi
        self.mod = mod if mod is not None else {self.id: 1}
        self.used = False

    def isconst(self):
        return self.lo == self.hi


def K(v):
    return Word(C(v), v, v, {0: v % W64} if v % W64 else {})


def mod_lin(ws):
    r = {}
    for k, m in ws:
        for i, c in m.items():
            r[i] = (r.get(i, 0) + k * c) % W64
    return {i: c for i, c in r.items() if c}


class Ctx:
    """atom ranges, groups (multi-word inputs with a bound) and equations"""

    def __init__(self):
        self.rng = {}
        self.groups = []       # (top atom, replacement poly for it)
        self.eqs = []          # (atom, replacement poly)
        self.n = 0
        self.names = {}

    def copy(self):
        c = Ctx()
        c.rng = dict(self.rng)
        c.groups = list(self.groups)
        c.eqs = list(self.eqs)
        c.n = self.n
        c.names = self.names
        return c

    def atom(self, lo=0, hi=W64 - 1, name=None):
        self.n += 1
        self.rng[self.n] = (lo, hi)
        if name:
            self.names[self.n] = name
        return Poly({(self.n,): Fr(1)}), self.n

    def word(self, lo=0, hi=W64 - 1, name=None):
        p, a = self.atom(lo, hi, name)
        return Word(p, lo, hi)

    def group(self, words, total):
        """sum words[i] 2^64i = total (a polynomial): the top word is expressed by the total"""
        top = next(iter(words[-1].p.d))[0]
        r = total
        for i, w in enumerate(words[:-1]):
            r = r - w.p.scale(1 << (64 * i))
        self.groups.append((top, r.scale(Fr(1, 1 << (64 * (len(words) - 1))))))

    def subst(self, p, a, r):
        if not any(a in m for m in p.d):
            return p
        out = Poly()
        for m, c in p.d.items():
            k = m.count(a)
            t = Poly({tuple(x for x in m if x != a): c})
            for _ in range(k):
                t = t * r
            out = out + t
        return out

    def norm(self, p):
        for a, r in self.eqs:
            p = self.subst(p, a, r)
        return p

    def _iv(self, p):
        lo = hi = Fr(0)
        for m, c in p.d.items():
            l = h = 1
            for a in m:
                x, y = self.rng[a]
                l, h = l * x, h * y           # all ranges are non-negative
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def bounds(self, p):
        """integer interval of an integer-valued polynomial"""
        p = self.norm(p)
        cands = [p]
        for g in self.groups:
            cands += [self.subst(q, *g) for q in cands]
        los, his = [], []
        for q in cands:
            l, h = self._iv(q)
            los.append(ceil(l))
            his.append(floor(h))
        return max(los), min(his)

    def assume_zero(self, p):
        """add p = 0; False when impossible"""
        p = self.norm(p)
        l, h = self.bounds(p.scale(W64 ** 16))
        if l > 0 or h < 0:
            return False
        if p.isconst():
            return p.const() == 0
        # solve for the newest atom occurring linearly
        for a in sorted(p.atoms(), reverse=True):
            ms = [m for m in p.d if a in m]
            if ms == [(a,)]:
                c = p.d[(a,)]
                r = Poly({m: v for m, v in p.d.items() if m != (a,)}).scale(-1 / c)
                self.eqs = [(b, self.subst(q, a, r)) for b, q in self.eqs] + [(a, r)]
                self.groups = [(b, self.subst(q, a, r)) for b, q in self.groups if b != a]
                return True
        return True

    # ---- word operations: each returns fresh Words ---------------------------------------
    def addc(self, a, b, cin=None):
        """-> (sum word, carry word)"""
        p = a.p + b.p
        lo, hi = a.lo + b.lo, a.hi + b.hi
        mod = [(1, a.mod), (1, b.mod)]
        if cin is not None:
            cin.used = True
            p = p + cin.p
            lo, hi = lo + cin.lo, hi + cin.hi
            mod.append((1, cin.mod))
        m = mod_lin(mod)
        if lo == hi:
            return K(lo % W64), K(lo // W64)
        if hi >= W64 or lo < 0:
            l2, h2 = self.bounds(p)
            lo, hi = max(lo, l2), min(hi, h2)
        if hi < W64:
            return Word(p, lo, hi, m), K(0)
        if lo >= W64:
            return Word(p - C(W64), lo - W64, hi - W64, m), K(1)
        if not m:
            s = K(0)
            c = Word(p.scale(Fr(1, W64)), 0, hi // W64)
            return s, c
        q, _ = self.atom()
        s = Word(q, 0, W64 - 1, m)
        c = Word((p - q).scale(Fr(1, W64)), 0, 1)
        return s, c

    def subb(self, a, b, bin_=None):
        """a - b - bin -> (difference, borrow)"""
        p = a.p - b.p
        lo, hi = a.lo - b.hi, a.hi - b.lo
        mod = [(1, a.mod), (-1, b.mod)]
        if bin_ is not None:
            bin_.used = True
            p = p - bin_.p
            lo, hi = lo - bin_.hi, hi - bin_.lo
            mod.append((-1, bin_.mod))
        m = mod_lin(mod)
        if lo == hi:
            return K(lo % W64), K(0 if lo >= 0 else 1)
        if lo < 0:
            l2, h2 = self.bounds(p)
            lo, hi = max(lo, l2), min(hi, h2)
        if lo >= 0:
            return Word(p, lo, hi, m), K(0)
        if hi < 0:
            return Word(p + C(W64), lo + W64, hi + W64, m), K(1)
        q, _ = self.atom()
        d = Word(q, 0, W64 - 1, m)
        return d, Word((q - p).scale(Fr(1, W64)), 0, 1)

    def mul(self, a, b):
        """-> (hi, lo)"""
        if a.isconst() and b.isconst():
            v = a.lo * b.lo
            return K(v >> 64), K(v & (W64 - 1))
        for x, y in ((a, b), (b, a)):
            if x.isconst() and x.lo == 0:
                return K(0), K(0)
        mod = None
        if a.isconst():
            mod = mod_lin([(a.lo, b.mod)])
        elif b.isconst():
            mod = mod_lin([(b.lo, a.mod)])
        p = a.p * b.p
        hi = a.hi * b.hi
        if hi < W64:
            return K(0), Word(p, a.lo * b.lo, hi, mod)
        q, _ = self.atom()
        return Word((p - q).scale(Fr(1, W64)), 0, hi >> 64), Word(q, 0, W64 - 1, mod)


def value(words):
    r = Poly()
    for i, w in enumerate(words):
        r = r + w.p.scale(1 << (64 * i))
    return r


def divisible(p, n):
    """every coefficient of the polynomial is an integer multiple of n"""
    for m, c in p.d.items():
        if c.denominator != 1 or c.numerator % n:
            return False
    return True
