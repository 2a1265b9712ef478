"""Loop invariants: cut a loop of the executed function at its header.

A Cut subclass says what holds at the header; the engine (1) infers what one iteration changes, (2) checks the
invariant on entry, (3) continues from an arbitrary state satisfying it, (4) checks it again on every back edge
and that nothing outside the declared state changed.
"""
from . import term as t
from .term import T, mk
from .exec import Ptr, Poison, Violation, Infeasible
from .ir import Unsupported


class Cut:
    """one cut per loop activation"""

    def __init__(self, exr):
        self.exr = exr
        self.active = None
        self.trial = None
        self.fails = []

    # to override -----------------------------------------------------------------
    def match(self, f, st, env, blk):
        """is this the loop to cut (called on entry)?"""
        return False

    def enter(self, f, st, env, blk, changed):
        """-> states to continue from at the header; `changed`: {object: set of offsets} changed by one trial iteration"""
        raise NotImplementedError

    def back(self, f, st, env, blk):
        """check the invariant at a back edge"""
        raise NotImplementedError

    # engine -------------------------------------------------------------------------
    def hook(self, f, st, env, blk, isback):
        if self.trial is not None:
            if self.trial[0] == (f.name, blk, len(self.exr.stack)):
                if isback:
                    self.trial[1].append((st, env))
                    return []
            return None
        key = (f.name, blk, len(self.exr.stack))
        if isback:
            if self.active and key == self.active[0]:
                self.back(f, st, env, blk)
                return []
            return None
        if self.active is not None or not self.match(f, st, env, blk):
            return None
        # trial iteration: what does the loop body write?
        self.trial = (key, [])
        try:
            s2 = st.copy()
            self.exr._loop_trial(f, s2, dict(env), blk)
        finally:
            backs = self.trial[1]
            self.trial = None
        changed, envch = {}, set()
        for s3, e3 in backs:
            for oid, o in st.mem.items():
                o3 = s3.mem.get(oid)
                if o3 is None or o3 is o:
                    continue
                for off in set(o.cells) | set(o3.cells):
                    if o.cells.get(off) != o3.cells.get(off):
                        changed.setdefault(oid, set()).add(off)
            for k, v in e3.items():
                if k in env and env[k] is not v and env[k] != v:
                    envch.add(k)
        if not backs:
            return None
        self.active = (key, {oid: dict(o.cells) for oid, o in st.mem.items()}, set(st.mem))
        self.envch = envch
        self.trial_states = backs
        return self.enter(f, st, env, blk, changed)

    def frame_ok(self, st, allowed):
        """nothing else changed: objects whose header contents were empty are scratch"""
        _, cells, _ = self.active
        for oid, c in cells.items():
            if oid in allowed:
                continue
            o = st.mem.get(oid)
            if o is not None and o.cells != c and c:
                return "the loop changes %s, which the invariant does not describe" % oid
        return None
