"""Symbolic execution of the assembled limb routines (objdump of the object made from src/arithmetic.s)."""
import subprocess, os, re
from . import build, wordint as wi, ref
from .wordint import Word, K, Ctx, W64, Poly, C
from .ir import Unsupported
from .exec import Violation
P = ref.P
INP = -pow(P, -1, W64) % W64
R64 = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp"] + ["r%d" % i for i in range(8, 16)]
R32 = {"eax": "rax", "ebx": "rbx", "ecx": "rcx", "edx": "rdx", "esi": "rsi", "edi": "rdi", "ebp": "rbp"}
R32.update({"r%dd" % i: "r%d" % i for i in range(8, 16)})
SAVED = ["rbx", "rbp", "r12", "r13", "r14", "r15"]


class Adr:
    """an address: object + byte offset"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off


def functions():
    o = os.path.join(build.workdir(), "arith.o")
    r = subprocess.run(["clang++", "-c", build.REPO + "/src/arithmetic.s", "-o", o], capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("assembler: " + r.stderr[-300:])
    txt = subprocess.run(["objdump", "-dr", "-C", "--no-show-raw-insn", o], capture_output=True, text=True).stdout
    fns, cur = {}, None
    for line in txt.splitlines():
        m = re.match(r"^[0-9a-f]+ <(.*)>:$", line)
        if m:
            cur = fns.setdefault(m.group(1), [])
            continue
        m = re.match(r"^\s*([0-9a-f]+):\s+(.*)$", line)
        if m and cur is not None:
            cur.append((int(m.group(1), 16), m.group(2).split("#")[0].strip()))
    return fns


class S:
    def __init__(self):
        self.r, self.mem, self.cf, self.of, self.zf = {}, {}, None, None, None
        self.ctx = Ctx()
        self.dec = {}          # decided carry words
        self.flags = []        # carry words made, in order
        self.writes = set()

    def copy(self):
        s = S()
        s.r, s.mem = dict(self.r), dict(self.mem)
        s.cf, s.of, s.zf = self.cf, self.of, self.zf
        s.ctx = self.ctx.copy()
        s.dec = dict(self.dec)
        s.flags = list(self.flags)
        s.writes = set(self.writes)
        return s


def split_ops(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            d += 1
        if ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def run(code, st):
    """execute to ret; yields final states"""
    work = [(st, 0)]
    idx = {a: i for i, (a, _) in enumerate(code)}
    outs = []
    while work:
        s, pc = work.pop()
        while True:
            if pc >= len(code):
                raise Violation("control runs past the end of the routine")
            adr, ins = code[pc]
            f = ins.split(None, 1)
            op = f[0]
            a = split_ops(f[1]) if len(f) > 1 else []
            pc += 1
            if op in ("ret", "retq", "repz"):
                outs.append(s)
                break
            if op in ("nop", "endbr64", "nopw", "nopl", "cs", "data16", "xchg") and (op != "xchg" or a == ["%ax", "%ax"]):
                continue
            m = re.match(r"^(cmov|j|set)(ae|b|c|nc|nae|nb|e|z|ne|nz|o|no|mp|a|be)$", op)
            if m and m.group(1) in ("cmov", "j") and op != "jmp":
                cc = m.group(2)
                fl = s.cf if cc in ("ae", "b", "c", "nc", "nae", "nb") else s.of if cc in ("o", "no") else None
                if fl is None:
                    raise Unsupported("condition %s" % op)
                neg = cc in ("ae", "nc", "nb", "no")
                for v, s2 in decide(s, fl):
                    taken = (v == 0) if neg else (v == 1)
                    npc = pc
                    if m.group(1) == "cmov":
                        if taken:
                            put(s2, a[1], get(s2, a[0]))
                    elif taken:
                        npc = idx[int(a[0].split()[0], 16)]
                    work.append((s2, npc))
                break
            if op == "jmp":
                pc = idx[int(a[0].split()[0], 16)]
                continue
            step(s, op.rstrip("q") if op not in ("setq",) else op, a)
        if len(outs) > 64:
            raise Unsupported("too many paths")
    return outs


def decide(s, fl):
    if fl.isconst():
        return [(fl.lo, s)]
    if fl.id in s.dec:
        return [(s.dec[fl.id], s)]
    out = []
    fl.used = True
    for v in (0, 1):
        s2 = s.copy()
        if s2.ctx.assume_zero(fl.p - C(v)):
            s2.dec[fl.id] = v
            out.append((v, s2))
    return out


def addr(s, o):
    m = re.match(r"^(-?(?:0x[0-9a-f]+)?)\((%\w+)?(?:,(%\w+))?(?:,(\d))?\)$", o)
    if not m:
        raise Unsupported("operand " + o)
    if m.group(3):
        raise Unsupported("indexed operand " + o)
    base = s.r.get(m.group(2)[1:])
    if not isinstance(base, Adr):
        raise Violation("memory access through a value that is not an address: " + o)
    d = int(m.group(1), 16) if m.group(1) not in ("", "-") else 0
    return Adr(base.obj, base.off + d)


def load(s, a):
    if a.obj == "stack":
        if (a.obj, a.off) not in s.mem:
            raise Violation("read of uninitialised stack slot at %d" % a.off)
    elif a.off % 8 or not 0 <= a.off <= 40:
        raise Violation("read at offset %d of operand %s" % (a.off, a.obj))
    v = s.mem.get((a.obj, a.off))
    if v is None:
        raise Violation("read of uninitialised word %d of %s" % (a.off, a.obj))
    return v


def store(s, a, v):
    if a.obj == "stack":
        if a.off > -8:
            raise Violation("write above the stack frame")
        if a.off < s.r["rsp"].off - 128:
            raise Violation("write below the red zone")
    elif a.off % 8 or not 0 <= a.off <= 40:
        raise Violation("write at offset %d of %s" % (a.off, a.obj))
    s.mem[(a.obj, a.off)] = v
    s.writes.add((a.obj, a.off))


def get(s, o):
    if o.startswith("$"):
        return K(int(o[1:], 16 if "x" in o else 10) % W64)
    if o.startswith("%"):
        n = o[1:]
        if n in R64:
            v = s.r.get(n)
            if v is None:
                raise Violation("use of uninitialised register " + n)
            return v
        if n in R32:
            v = s.r.get(R32[n])
            if isinstance(v, Word) and v.isconst():
                return K(v.lo & 0xffffffff)
            raise Unsupported("32-bit register " + n)
        raise Unsupported("register " + n)
    return load(s, addr(s, o))


def put(s, o, v):
    if o.startswith("%"):
        n = o[1:]
        if n in R32:
            s.r[R32[n]] = v
        elif n in R64:
            s.r[n] = v
        else:
            raise Unsupported("register " + n)
    else:
        store(s, addr(s, o), v)


def word(v):
    if not isinstance(v, Word):
        raise Unsupported("arithmetic on an address")
    return v


def flag(s, f, what):
    if f is None:
        raise Violation("use of an undefined %s flag" % what)
    if f.id in s.dec:
        return K(s.dec[f.id])
    return f


def step(s, op, a):
    c = s.ctx
    if op in ("mov", "movabs"):
        put(s, a[1], get(s, a[0]))
    elif op == "push":
        sp = s.r["rsp"]
        v = get(s, a[0])
        s.r["rsp"] = Adr("stack", sp.off - 8)
        store(s, s.r["rsp"], v)
    elif op == "pop":
        sp = s.r["rsp"]
        v = load(s, sp)
        s.r["rsp"] = Adr("stack", sp.off + 8)
        put(s, a[0], v)
    elif op in ("add", "adc", "sub", "sbb", "cmp"):
        x, y = get(s, a[1]), get(s, a[0])
        if isinstance(x, Adr) and isinstance(y, Word) and y.isconst() and op in ("add", "sub"):
            k = y.lo if y.lo < W64 // 2 else y.lo - W64
            put(s, a[1], Adr(x.obj, x.off + (k if op == "add" else -k)))
            s.cf = s.of = None
            return
        if op in ("sub", "sbb") and a[0] == a[1] and a[0].startswith("%") and op == "sub":
            put(s, a[1], K(0))
            s.cf, s.of = K(0), K(0)
            return
        x, y = word(x), word(y)
        cin = flag(s, s.cf, "carry") if op in ("adc", "sbb") else None
        r, cf = (c.addc if op in ("add", "adc") else c.subb)(x, y, cin)
        if op != "cmp":
            put(s, a[1], r)
        s.cf, s.of = cf, None
        s.flags.append(cf)
    elif op in ("adcx", "adox"):
        x, y = word(get(s, a[1])), word(get(s, a[0]))
        r, cf = c.addc(x, y, flag(s, s.cf if op == "adcx" else s.of, "carry" if op == "adcx" else "overflow"))
        put(s, a[1], r)
        if op == "adcx":
            s.cf = cf
        else:
            s.of = cf
        s.flags.append(cf)
    elif op == "mul":
        h, l = c.mul(word(get(s, "%rax")), word(get(s, a[0])))
        s.r["rax"], s.r["rdx"] = l, h
        s.cf = s.of = None
    elif op == "imul" and len(a) == 2:
        h, l = c.mul(word(get(s, a[1])), word(get(s, a[0])))
        put(s, a[1], l)
        s.cf = s.of = None
    elif op == "mulx":
        h, l = c.mul(word(get(s, "%rdx")), word(get(s, a[0])))
        put(s, a[1], l)
        put(s, a[2], h)
    elif op == "xor" and a[0] == a[1]:
        put(s, a[1], K(0))
        s.cf, s.of = K(0), K(0)
    elif op in ("inc", "dec"):
        x = get(s, a[0])
        r, _ = (c.addc if op == "inc" else c.subb)(word(x), K(1))
        put(s, a[0], r)
        s.of = None
    elif op == "lea":
        ad = addr(s, a[0])
        put(s, a[1], ad)
    elif op == "test" and a[0] == a[1]:
        s.cf, s.of = K(0), K(0)
    elif op == "clc":
        s.cf = K(0)
    elif op == "stc":
        s.cf = K(1)
    else:
        raise Unsupported("instruction %s %s" % (op, ",".join(a)))
