"""Loops over a list of any length: what one iteration does to an arbitrary element, and what holds after all of them.

A loop is a list loop when its own body (not a nested loop) calls one of the element accessors.  Linear counters are found
by one trial iteration; then an iteration for an arbitrary index J < n is executed; the client says what the iteration
added to each accumulator and what the accumulators are after n iterations.  Everything else an iteration changes is scratch:
arbitrary before and after."""
from . import term as t, smt, exec as ex
from .term import T
from .exec import Ptr, Violation
from .ir import Unsupported


def zero_like(x):
    return x == 0 if isinstance(x, int) else False


class ListLoops:
    """client: .header(st, J): state before an arbitrary iteration, .step(s0, s2, J, name) -> hashable delta,
    .after(st, s_back, delta, n, J): state after the loop; .accumulator(st, oid) -> True when the client describes oid"""

    def __init__(self, exr, fn, touch, lists, client):
        self.exr, self.fn, self.touch, self.lists, self.client = exr, fn, touch, lists, client
        self.trial, self.count, self.inside = None, 0, []

    # ---- elements
    def index(self, st, obj, off):
        n, stride = self.lists[obj]
        if isinstance(off, int):
            if off % stride:
                raise Unsupported("pointer into an element")
            return off // stride
        for j in self.inside:
            if off is t.mul(j, stride, 64):
                return j
        if off.op == "mul" and off.args[1] == stride:
            return off.args[0]
        raise Unsupported("element of the list at an unknown index")

    def inrange(self, st, obj, i):
        n, _ = self.lists[obj]
        if smt.valid(t.ult(i, n, 64), st.pc)[0] is not True:
            if smt.valid(t.ult(i, n, 64), st.pc)[0] is False:
                raise Violation("list index may be out of range", st)
            raise Unsupported("list index")

    def name(self, i):
        return "#%s" % (i if isinstance(i, int) else i.args[0] if i.op == "var" else i.id)

    # ---- the hook
    def touches(self, f, blk):
        body = set(f.loops[blk])
        for h, b2 in f.loops.items():
            if h != blk and h in body:
                body -= set(b2)
        dem = self.exr.mod.dem
        for b in body:
            for I in f.blocks[b]:
                if I[0] in ("call", "invoke"):
                    nm = next((getattr(x, "name", None) for x in I[1:] if getattr(x, "name", None)), None)
                    if nm and dem.get(nm, "") in self.touch:
                        return True
        return False

    def scan(self, st, f, env, blk):
        key = (f.name, blk, len(self.exr.stack))
        backs = []
        nthrow = len(self.exr.throws)
        self.trial = (key, backs)
        try:
            self.exr._loop_trial(f, st, dict(env), blk)
        finally:
            self.trial = None
            del self.exr.throws[nthrow:]
        return backs

    def diffs(self, a, b):
        out = {}
        for oid, o in a.mem.items():
            o2 = b.mem.get(oid)
            if o2 is not None and o2 is not o:
                d = {k for k in set(o.cells) | set(o2.cells) if o.cells.get(k) != o2.cells.get(k)}
                if d:
                    out[oid] = d
        return out

    def linear(self, x, y):
        """stride of a counter that starts at x"""
        x, y = x[1] if x else None, y[1] if y else None
        if x == 0 and y == 1 and isinstance(x, int) and isinstance(y, int):
            return ("int",)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.obj in self.lists and x.off == 0 and y.off == self.lists[x.obj][1]:
            return ("ptr", x.obj)
        return None

    def hook(self, f, st, env, blk, isback):
        key = (f.name, blk, len(self.exr.stack))
        if self.trial is not None:
            if self.trial[0] == key and isback:
                self.trial[1].append((st, env))
                return []
            return None
        if f.name != self.fn and f.name not in getattr(self, "alsofn", ()):
            return None
        if isback:
            return [] if st.ghost.get("inloop") == key else None
        if blk not in f.loops or not self.touches(f, blk):
            return None
        if st.ghost.get("inloop"):
            raise Unsupported("nested loops over lists")
        # counters
        s = st.copy()
        for n, _ in self.lists.values():
            try:
                s.assume(t.eq(n, 0, 64), False)
            except Exception:
                pass
        counters, nb = None, 0
        for s2, e2 in self.scan(s.copy(), f, env, blk):
            nb += 1
            lin = {}
            for oid, ks in self.diffs(st, s2).items():
                for k in ks:
                    l = self.linear(st.mem[oid].cells.get(k), s2.mem[oid].cells.get(k))
                    if l:
                        lin[oid, k] = l
            counters = lin if counters is None else {k: v for k, v in counters.items() if lin.get(k) == v}
        if nb == 0:
            # no iteration completes: the loop is left during the first one (or is not entered)
            return None
        if not counters:
            raise Unsupported("the counter of a loop over a list is not recognised")
        self.count += 1
        J = t.var("J%d" % self.count, 64)
        self.inside.append(J)
        jn = self.name(J)
        ns = {self.lists[v[1]][0] for v in counters.values() if v[0] == "ptr"}
        n = ns.pop() if len(ns) == 1 else None

        def setc(s, j):
            for (oid, k), l in counters.items():
                o = s.wobj(Ptr(oid, 0))
                w = o.cells[k][0]
                s.store(Ptr(oid, k), w, t.trunc(j, 64, 8 * w) if l[0] == "int" and w < 8 else j if l[0] == "int" else Ptr(l[1], t.mul(j, self.lists[l[1]][1], 64)))
        acc = self.client.accumulators(st)

        def arbitrary(scratch):
            s = st.copy()
            s.ghost = dict(s.ghost)
            s.ghost["inloop"] = key
            self.client.header(s, J, jn)
            self.blur(s, scratch, "%d" % self.count)
            setc(s, J)
            return s
        # bound of the index: the loop's own test decides; find a list length n with J < n
        for n_ in ([n] if n is not None else self.lengths()):
            n = n_
            scratch = {}
            for _ in range(3):
                s = arbitrary(scratch)
                s.assume(t.ult(J, n, 64), True)
                backs = self.scan(s.copy(), f, env, blk)
                more = {}
                for s2, _e in backs:
                    for oid, ks in self.diffs(s, s2).items():
                        ks = {k for k in ks if (oid, k) not in counters}
                        if ks and oid not in acc:
                            more.setdefault(oid, set()).update(ks)
                new = {o: ks | scratch.get(o, set()) for o, ks in more.items()}
                new.update({o: ks for o, ks in scratch.items() if o not in new})
                if new == scratch:
                    break
                scratch = new
            # the loop must end at n
            e = arbitrary(scratch)
            e.ghost.pop("inloop", None)
            setc(e, n)
            if not self.scan(e.copy(), f, env, blk):
                break
        else:
            raise Unsupported("the loop is not shown to end with the list")
        if not backs:
            raise Unsupported("no iteration completes")
        for s2, e2 in backs:
            for (oid, k), l in counters.items():
                v = s2.mem[oid].cells[k]
                want = t.add(J, 1, 64)
                got = v[1]
                if l[0] == "ptr":
                    st_ = self.lists[l[1]][1]
                    if not isinstance(got, Ptr) or got.obj != l[1] or smt.valid(t.eq(got.off, t.mul(want, st_, 64), 64), s2.pc)[0] is not True:
                        raise Unsupported("the iterator does not advance by one")
                elif v[0] < 8:
                    raise Unsupported("narrow counter")
                elif smt.valid(t.eq(got, want, 64), s2.pc)[0] is not True:
                    raise Unsupported("the counter does not advance by one")
            for k, v in e2.items():
                pass
        for oid in scratch:
            if s.mem[oid].kind == "arg":
                raise Unsupported("the loop over the list writes %s" % oid)
        deltas = {self.client.step(s, s2, J, jn) for s2, _e in backs}
        e = st.copy()
        self.blur(e, scratch, "%d'" % self.count)
        setc(e, n)
        self.client.after(e, deltas, n, J, jn)
        e.ghost = dict(e.ghost)
        e.ghost.pop("inloop", None)
        return [(s, dict(env)), (e, dict(env))]

    def lengths(self):
        out = []
        for n, _ in self.lists.values():
            if n not in out:
                out.append(n)
        return out

    def blur(self, s, scratch, tag):
        for oid, cs in scratch.items():
            o = s.wobj(Ptr(oid, 0))
            for k in cs:
                w = o.cells[k][0] if k in o.cells else 8
                o.cells[k] = (w, t.var("scratch%s.%s.%d" % (tag, oid, k), 8 * w if w <= 8 else 64))
