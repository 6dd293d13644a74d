"""x86 and x86_64 (Intel syntax)."""

import re

from ..asmcore import Arch, split_ops
from ..bits import const, rotl, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import FULL, Bad, Ev

GP = ["ax", "bx", "cx", "dx", "si", "di", "bp", "sp"]
VIEWS = {}
for _b in GP:
    VIEWS["r" + _b] = (_b, 0, 64)
    VIEWS["e" + _b] = (_b, 0, 32)
    VIEWS[_b] = (_b, 0, 16)
for _b in "abcd":
    VIEWS[_b + "l"] = (_b + "x", 0, 8)
    VIEWS[_b + "h"] = (_b + "x", 8, 8)
for _b in ("si", "di", "bp", "sp"):
    VIEWS[_b + "l"] = (_b, 0, 8)
for _i in range(8, 16):
    VIEWS["r%d" % _i] = ("r%d" % _i, 0, 64)
    VIEWS["r%dd" % _i] = ("r%d" % _i, 0, 32)
    VIEWS["r%dw" % _i] = ("r%d" % _i, 0, 16)
    VIEWS["r%db" % _i] = ("r%d" % _i, 0, 8)
for _i in range(16):
    VIEWS["xmm%d" % _i] = ("xmm%d" % _i, 0, 128)
    VIEWS["ymm%d" % _i] = ("xmm%d" % _i, 0, 128)
for _i in range(8):
    VIEWS["st%d" % _i] = ("st%d" % _i, 0, 80)
    VIEWS["st(%d)" % _i] = ("st%d" % _i, 0, 80)
    VIEWS["mm%d" % _i] = ("st%d" % _i, 0, 64)
VIEWS["st"] = ("st0", 0, 80)
FL = ("zf", "cf", "sf", "of", "pf")
for _f in FL + ("df",):
    VIEWS[_f] = (_f, 0, 1)

SIZES = {"byte": 1, "word": 2, "dword": 4, "qword": 8, "xmmword": 16, "oword": 16, "tbyte": 10}
CC = {}
for _names, _k in ((("e", "z"), "z"), (("ne", "nz"), "nz"), (("b", "c", "nae"), "c"), (("ae", "nb", "nc"), "nc"),
                   (("be", "na"), "be"), (("a", "nbe"), "a"), (("s",), "s"), (("ns",), "ns"), (("o",), "o"),
                   (("no",), "no"), (("l", "nge"), "l"), (("ge", "nl"), "ge"), (("le", "ng"), "le"),
                   (("g", "nle"), "g"), (("p", "pe"), "p"), (("np", "po"), "np")):
    for _n in _names:
        CC[_n] = _k

P8 = frozenset(("x86",))


class X86(Arch):
    COMMENT = re.compile(r"//.*|#.*|/\*.*?\*/")
    FLAGCLOB = {"flags": FL, "dirflag": ("df",), "fpsr": ("fpsw",), "fpcr": ()}
    FLAGREGS = FL
    LOADATTR = frozenset(("acq", "tso"))
    STOREATTR = frozenset(("rel", "tso"))
    RMWATTR = frozenset(("acq", "rel", "full", "tso"))

    def __init__(self, cfg):
        self.x64 = cfg.arch == "x86_64"

    def directive(self, line):
        if re.match(r"\.(p2align|align|intel_syntax|att_syntax)\b", line):
            return line.startswith((".p2align", ".align"))
        raise Undecided("assembler directive `%s`" % line)

    def view(self, name):
        v = VIEWS.get(name)
        if v is None:
            raise Undecided("register `%s`" % name)
        return v

    def width(self, ph):
        if ph.startswith("xmm"):
            return 128
        if ph.startswith("st"):
            return 80
        if ph == "fpsw":
            return 16
        if ph in FL or ph == "df":
            return 1
        return 64 if self.x64 else 32

    def zero_upper(self, name):
        return self.x64 and VIEWS[name][2] == 32

    def explicit(self, c, ty):
        n = ty[1] if ty[0] == "i" else 64
        if c.startswith(("xmm", "st", "mm", "ymm")):
            return c
        ph = self.view(c)[0]
        if n == 8 and self.view(c)[2] == 8:
            return c
        if not self.x64 and VIEWS[c][2] == 64:
            raise Undecided("register `%s`" % c)
        return c

    def put(self, run, st, reg, bits, c):
        Arch.put(self, run, st, reg, bits, c)

    def get(self, run, st, reg, ty, n):
        ph, lo, k = self.view(reg)
        b = run.init(st, ph)[lo:]
        if len(b) < n:
            if ph.startswith("xmm"):
                raise Undecided("vector result")
            raise Undecided("result wider than its register")
        return b[:n]

    def pool(self, cons, ty):
        if cons in ("r", "q", "Q", "l", "R"):
            base = ["si", "di", "bp"] if cons in ("r", "l", "R") else []
            regs = base + ["ax", "cx", "dx", "bx"]
            if self.x64:
                regs = ["r%d" % i for i in range(8, 16)] + ["si", "di", "bp", "ax", "cx", "dx", "bx"] \
                    if cons != "Q" else ["ax", "cx", "dx", "bx"]
            return regs if not cons == "q" or self.x64 else ["ax", "cx", "dx", "bx"]
        if cons in ("x", "v", "Yz"):
            return ["xmm%d" % i for i in range(8)]
        raise Undecided("constraint `%s`" % cons)

    def klass(self, o):
        return None if o.explicit else ("x" if o.cons in ("x", "v") else "r")

    def pool_names(self, o):
        return () if o.explicit else {r for r in self.pool(o.cons, o.ty)} | {"al", "bl", "cl", "dl"}

    def fmt(self, reg, mod, ty):
        if reg.startswith("xmm"):
            if mod in ("t", "g"):
                raise Undecided("vector operand modifier")
            return reg
        n = {"q": 64, "r": 64, "k": 32, "e": 32, "w": 16, "x": 16, "b": 8, "l": 8, "h": -8}.get(mod)
        if n is None:
            n = ty[1] if ty[0] == "i" else (64 if self.x64 else 32)
            if ty[0] == "float":
                n = 32
        ph = self.view(reg)[0]
        if ph.startswith("r"):
            return ph + {64: "", 32: "d", 16: "w", 8: "b"}[n]
        if n == 64:
            return ("r" if self.x64 else "e") + ph if self.x64 else "e" + ph
        if n == 32:
            return "e" + ph
        if n == 16:
            return ph
        if n == -8:
            return ph[0] + "h"
        return ph[0] + "l" if ph[1] == "x" else ph + "l"

    def split(self, line):
        p = line.split(None, 1)
        mn = p[0].lower()
        pre = ""
        while mn in ("lock", "rep", "repz", "repne", "notrack", "xacquire", "xrelease", "data16"):
            if mn != "lock":
                raise Undecided("prefix `%s`" % mn)
            pre = "lock "
            p = p[1].split(None, 1)
            mn = p[0].lower()
        return [(pre + mn, split_ops(p[1]) if len(p) > 1 else [])]

    # operands -----------------------------------------------------------------------
    def operand(self, run, s):
        """('r', name) | ('i', value) | ('m', size or None, parts)"""
        t = s.strip().lower()
        if t in VIEWS and t not in FL:
            return ("r", t)
        m = re.fullmatch(r"(?:(byte|word|dword|qword|xmmword|oword|tbyte)\s+(?:ptr\s*)?)?(?:offset\s+)?\[(.*)\]", t)
        if m:
            return ("m", SIZES.get(m[1]), m[2])
        m = re.fullmatch(r"-?(0x[0-9a-f]+|\d+)", t)
        if m:
            return ("i", int(t, 0))
        raise Undecided("operand `%s`" % s)

    def addr(self, run, st, expr):
        c = run.e.ctx
        total = None
        n = None
        disp = 0
        for sign, term in re.findall(r"([+-]?)\s*([^+\-]+)", expr):
            term = term.strip()
            f = [x.strip() for x in term.split("*")]
            if len(f) == 2 or f[0] in VIEWS:
                reg = f[0] if f[0] in VIEWS else f[1]
                k = int(f[1] if f[0] in VIEWS else f[0], 0) if len(f) == 2 else 1
                if sign == "-":
                    raise Undecided("address `%s`" % expr)
                b = run.r(st, reg)
                n = len(b)
                if k != 1:
                    b = shl(b, k.bit_length() - 1)
                total = b if total is None else c.add(total, b)[0]
            else:
                disp += int(term, 0) * (-1 if sign == "-" else 1)
        if total is None:
            raise Undecided("absolute address `%s`" % expr)
        total = st.facts.vnorm(total)
        if disp:
            total = c.add(total, vconst(disp, n))[0]
        return total

    def stackptr(self, expr):
        return re.search(r"\b[re]?sp\b", expr) is not None

    def load(self, run, st, op, n, attr=None):
        run.mem = True
        a = self.addr(run, st, op[2])
        bs = st.load_bytes(a, n, self.LOADATTR if attr is None else attr)
        return tuple(x for b in bs for x in b)

    def store(self, run, st, op, bits, attr=None):
        run.mem = True
        a = self.addr(run, st, op[2])
        n = len(bits) // 8
        st.store_bytes(a, [bits[8 * i:8 * i + 8] for i in range(n)], self.STOREATTR if attr is None else attr)

    def read(self, run, st, op, n):
        """n: bits"""
        if op[0] == "r":
            return run.r(st, op[1])
        if op[0] == "i":
            return vconst(op[1], n)
        return self.load(run, st, op, n // 8)

    def size(self, run, ops):
        """Operation width in bits."""
        for o in ops:
            if o[0] == "r":
                return self.view(o[1])[2]
        for o in ops:
            if o[0] == "m" and o[1]:
                return 8 * o[1]
        raise Undecided("operation of unknown width")

    def msize(self, op, n):
        if op[0] == "m" and op[1] and 8 * op[1] != n:
            raise Undecided("memory operand of another width")

    # flags -----------------------------------------------------------------------------
    def setf(self, run, st, **k):
        c = run.e.ctx
        for f in FL:
            if f in k:
                run.w(st, f, (k[f],))
            else:
                run.w(st, f, c.fresh(1, "flag"))

    def logicf(self, run, st, r):
        self.setf(run, st, zf=run.e.ctx.nonzero(r) ^ 1, cf=0, of=0, sf=r[-1])

    def cmpf(self, run, st, a, b):
        c = run.e.ctx
        r, carry = c.sub(a, b)
        of = c.and_(c.xor(a[-1], b[-1]), c.xor(a[-1], r[-1]))
        self.setf(run, st, zf=c.neq(a, b) ^ 1, cf=carry ^ 1, sf=r[-1], of=of)
        return r

    def cond(self, run, st, cc):
        c = run.e.ctx
        f = lambda n: run.r(st, n)[0]
        k = CC.get(cc)
        if k is None:
            raise Undecided("condition `%s`" % cc)
        if k == "z":
            return f("zf")
        if k == "nz":
            return f("zf") ^ 1
        if k == "c":
            return f("cf")
        if k == "nc":
            return f("cf") ^ 1
        if k == "be":
            return c.or_(f("cf"), f("zf"))
        if k == "a":
            return c.or_(f("cf"), f("zf")) ^ 1
        if k in ("s", "ns"):
            return f("sf") ^ (k == "ns")
        if k in ("o", "no"):
            return f("of") ^ (k == "no")
        if k in ("p", "np"):
            return f("pf") ^ (k == "np")
        l = c.xor(f("sf"), f("of"))
        if k == "l":
            return l
        if k == "ge":
            return l ^ 1
        if k == "le":
            return c.or_(l, f("zf"))
        return c.or_(l, f("zf")) ^ 1

    # execution ----------------------------------------------------------------------------
    def step(self, run, st, ins, pc):
        mn = ins.mn
        lock = mn.startswith("lock ")
        if lock:
            mn = mn[5:]
        c = run.e.ctx
        w = run.w
        if mn[0] == "j":
            t = ins.ops[0]
            if mn == "jmp":
                return [(st, run.label(pc, t))]
            if mn in ("jecxz", "jrcxz"):
                return run.branch(st, c.nonzero(run.r(st, mn[1:4])) ^ 1, t, pc)
            return run.branch(st, self.cond(run, st, mn[1:]), t, pc)
        ops = [self.operand(run, o) for o in ins.ops]
        if lock and not (ops and ops[0][0] == "m"):
            raise Undecided("`lock` on `%s`" % ins.text)
        if mn in ("nop", "pause", "endbr64", "endbr32"):
            return None
        if mn in ("mfence",):
            st.fence(info="mfence")
            return None
        if mn == "lfence":
            st.fence(("RR", "RW"), "lfence")
            return None
        if mn == "sfence":
            st.fence(("WW",), "sfence")
            return None
        if mn in ("mov", "movabs"):
            n = self.size(run, ops)
            self.msize(ops[0], n)
            self.msize(ops[1], n)
            v = self.read(run, st, ops[1], n)
            if len(v) != n:
                raise Undecided("`%s`" % ins.text)
            if ops[0][0] == "m":
                self.store(run, st, ops[0], v)
            else:
                w(st, ops[0][1], v)
            return None
        if mn in ("movzx", "movsx", "movsxd"):
            n = self.view(ops[0][1])[2]
            k = self.size(run, ops[1:])
            v = self.read(run, st, ops[1], k)
            w(st, ops[0][1], zext(v, n) if mn == "movzx" else sext(v, n))
            return None
        if mn == "lea":
            n = self.view(ops[0][1])[2]
            a = self.addr(run, st, ops[1][2])
            w(st, ops[0][1], zext(a, n))
            return None
        if mn == "xchg":
            if ops[0][0] == "r" and ops[1][0] == "r":
                a, b = run.r(st, ops[0][1]), run.r(st, ops[1][1])
                if len(a) != len(b):
                    raise Undecided(ins.text)
                w(st, ops[0][1], b)
                w(st, ops[1][1], a)
                return None
            m, r = (ops[0], ops[1]) if ops[0][0] == "m" else (ops[1], ops[0])
            v = run.r(st, r[1])
            self.msize(m, len(v))
            w(st, r[1], self.rmw(run, st, m, len(v), lambda o: v))
            return None
        if mn in ("xadd",):
            v = run.r(st, ops[1][1])
            n = len(v)
            if ops[0][0] == "m":
                old = self.rmw(run, st, ops[0], n, lambda o: c.add(o, v)[0], lock)
            else:
                old = run.r(st, ops[0][1])
                w(st, ops[0][1], c.add(old, v)[0])
            w(st, ops[1][1], old)
            self.setf(run, st)
            return None
        if mn in ("cmpxchg", "cmpxchg8b", "cmpxchg16b"):
            return self.cmpxchg(run, st, mn, ops, lock, pc, ins)
        if mn.startswith("set"):
            v = zext((self.cond(run, st, mn[3:]),), 8)
            if ops[0][0] == "m":
                self.store(run, st, ops[0], v)
            else:
                w(st, ops[0][1], v)
            return None
        if mn.startswith("cmov"):
            n = self.size(run, ops)
            v = self.read(run, st, ops[1], n)
            l = st.facts.norm(self.cond(run, st, mn[4:]))
            w(st, ops[0][1], c.vmux(l, v, run.r(st, ops[0][1])))
            return None
        if mn in ("and", "or", "xor", "add", "sub", "cmp", "test", "adc", "sbb"):
            n = self.size(run, ops)
            self.msize(ops[0], n)
            self.msize(ops[1], n)
            b = self.read(run, st, ops[1], n)
            if mn in ("xor", "sub") and ops[0] == ops[1]:
                w(st, ops[0][1], vconst(0, n))
                self.setf(run, st, zf=1, cf=0, sf=0, of=0)
                return None
            cin = run.r(st, "cf")[0] if mn in ("adc", "sbb") else 0

            def f(a):
                if mn in ("and", "test"):
                    return c.vand(a, b)
                if mn == "or":
                    return c.vor(a, b)
                if mn == "xor":
                    return c.vxor(a, b)
                if mn in ("add", "adc"):
                    return c.add(a, b, cin)[0]
                if mn == "sbb":
                    return c.add(a, vnot(b), cin ^ 1)[0]
                return c.sub(a, b)[0]
            if ops[0][0] == "m":
                if mn in ("cmp", "test"):
                    a = self.load(run, st, ops[0], n // 8)
                elif self.stackptr(ops[0][2]):
                    # the usual full fence: a locked no-op on the stack
                    z = const(b)
                    if not lock or not ((mn in ("or", "add", "xor", "sub") and z == 0) or
                                        (mn == "and" and z == (1 << n) - 1)):
                        raise Bad("contract", "the stack is modified")
                    if const(b) is None:
                        raise Undecided(ins.text)
                    st.fence(info="locked instruction")
                    self.setf(run, st)
                    return None
                else:
                    a = self.rmw(run, st, ops[0], n, f, lock)
            else:
                a = run.r(st, ops[0][1])
                if mn not in ("cmp", "test"):
                    w(st, ops[0][1], f(a))
            if mn in ("cmp", "sub"):
                self.cmpf(run, st, a, b)
            elif mn in ("add", "adc", "sbb"):
                r = f(a)
                if mn == "add":
                    self.setf(run, st, zf=c.nonzero(r) ^ 1, sf=r[-1], cf=c.add(a, b)[1])
                else:
                    self.setf(run, st, zf=c.nonzero(r) ^ 1, sf=r[-1])
            else:
                self.logicf(run, st, f(a))
            return None
        if mn in ("not", "neg", "inc", "dec"):
            n = self.size(run, ops)

            def g(a):
                if mn == "not":
                    return vnot(a)
                if mn == "neg":
                    return c.sub(vconst(0, n), a)[0]
                return c.add(a, vconst(1 if mn == "inc" else -1, n))[0]
            if ops[0][0] == "m":
                a = self.rmw(run, st, ops[0], n, g, lock)
            else:
                a = run.r(st, ops[0][1])
                w(st, ops[0][1], g(a))
            if mn != "not":
                r = g(a)
                self.setf(run, st, zf=c.nonzero(r) ^ 1, sf=r[-1])
            return None
        if mn in ("shl", "sal", "shr", "sar", "rol", "ror"):
            a = run.r(st, ops[0][1])
            k = const(st.facts.vnorm(self.read(run, st, ops[1], 8))) if len(ops) > 1 else 1
            if k is None:
                raise Undecided("variable shift")
            k &= 63 if len(a) == 64 else 31
            r = {"shl": shl, "sal": shl, "shr": shr, "sar": sar, "rol": rotl,
                 "ror": lambda x, y: rotl(x, -y)}[mn](a, k)
            w(st, ops[0][1], r)
            if k:
                self.setf(run, st, zf=c.nonzero(r) ^ 1, sf=r[-1])
            return None
        if mn in ("shld", "shrd"):
            a, b = run.r(st, ops[0][1]), run.r(st, ops[1][1])
            k, n = ops[2][1], len(a)
            r = (b + a)[n - k:2 * n - k] if mn == "shld" else (a + b)[k:k + n]
            w(st, ops[0][1], r)
            self.setf(run, st)
            return None
        if mn == "bswap":
            from ..bits import bswap
            w(st, ops[0][1], bswap(run.r(st, ops[0][1])))
            return None
        if mn in ("cld", "std"):
            w(st, "df", (int(mn == "std"),))
            return None
        if mn in ("push", "pop"):
            return self.pushpop(run, st, mn, ops)
        if mn in ("clc", "stc", "cmc"):
            w(st, "cf", ({"clc": 0, "stc": 1}.get(mn, run.r(st, "cf")[0] ^ 1),))
            return None
        return self.vector(run, st, mn, ops, ins)

    def pushpop(self, run, st, mn, ops):
        if "alignstack" not in run.flags:
            raise Bad("contract", "the stack is used although the assembly is declared not to")
        stk = list(st.x.get("stk", ()))
        n = 64 if self.x64 else 32
        if mn == "push":
            v = self.read(run, st, ops[0], n)
            stk.append(v)
        else:
            if not stk:
                raise Bad("contract", "the stack pointer is not restored")
            run.w(st, ops[0][1], stk.pop())
        st.x["stk"] = tuple(stk)
        return None

    def at_end(self, run, st):
        if st.x.pop("stk", None):
            raise Bad("contract", "the stack pointer is not restored")
        if st.x.pop("fpu", None):
            raise Bad("contract", "the x87 stack is not left empty")
        if "df" in st.regs and "df" not in run.declared:
            if st.regs["df"] != run.e.ctx.atoms(run.entry("df"), 1):
                raise Bad("contract", "the direction flag is changed")
        elif "df" in st.regs and st.facts.eval(st.regs["df"][0]) == 1:
            raise Bad("contract", "the direction flag is left set")

    def rmw(self, run, st, op, n, f, locked=True):
        """Read-modify-write of a memory operand; not atomic unless locked."""
        run.mem = True
        a = self.addr(run, st, op[2])
        tob = lambda v: [v[8 * i:8 * i + 8] for i in range(n // 8)]
        un = lambda bs: tuple(x for b in bs for x in b)
        if locked:
            return un(st.rmw(a, n // 8, lambda old: tob(f(un(old))), self.RMWATTR))
        old = un(st.load_bytes(a, n // 8, self.LOADATTR))
        st.store_bytes(a, tob(f(old)), self.STOREATTR)
        return old

    def cmpxchg(self, run, st, mn, ops, lock, pc, ins):
        c = run.e.ctx
        if mn == "cmpxchg":
            n = self.view(ops[1][1])[2]
            self.msize(ops[0], n)
            acc = [{8: "al", 16: "ax", 32: "eax", 64: "rax"}[n]]
            new = run.r(st, ops[1][1])
            half = n
        else:
            half = 32 if mn == "cmpxchg8b" else 64
            n = 2 * half
            p = "e" if half == 32 else "r"
            acc = [p + "ax", p + "dx"]
            new = run.r(st, p + "bx") + run.r(st, p + "cx")
            self.msize(ops[0], n)
        exp = ()
        for a in acc:
            exp += run.r(st, a)
        tob = lambda v: [v[8 * i:8 * i + 8] for i in range(n // 8)]
        if ops[0][0] != "m":
            raise Undecided("cmpxchg on a register")
        run.mem = True
        a = self.addr(run, st, ops[0][2])
        if mn == "cmpxchg16b":
            # the operand must be 16-byte aligned, which the atomic's alignment guarantees
            pass
        if not lock:
            r, off = st.resolve(a)
            if r.kind == "shared":
                old = st.load_bytes(a, n // 8, self.LOADATTR)
                bits = tuple(x for b in old for x in b)
                outs = []
                for v, s in st.split(c.neq(bits, exp)):
                    if v == 0:
                        s.store_bytes(a, tob(new), self.STOREATTR)
                    outs.append((s, v ^ 1, old))
            else:
                outs = st.cmpxchg(a, n // 8, tob(exp), tob(new), self.RMWATTR)
        else:
            silent = st.facts.equal(new, exp)
            outs = st.cmpxchg(a, n // 8, tob(exp), tob(new),
                              self.RMWATTR | (frozenset(("silent",)) if silent else frozenset()), self.RMWATTR | {"locked"})
        res = []
        for s, ok, old in outs:
            bits = tuple(x for b in old for x in b)
            if mn == "cmpxchg":
                # the accumulator is written on failure; on success it equals the old value anyway
                run.w(s, acc[0], bits)
            else:
                run.w(s, acc[0], bits[:half])
                run.w(s, acc[1], bits[half:])
            if mn == "cmpxchg":
                self.setf(run, s, zf=ok)
            else:
                run.w(s, "zf", (ok,))
            res.append((s, pc + 1))
        return res

    def vector(self, run, st, mn, ops, ins):
        c = run.e.ctx
        v = mn[1:] if mn.startswith("v") and mn not in ("verr",) else mn
        vex = v != mn
        w = run.w

        def put(reg, bits):
            w(st, reg, zext(bits, 128))
        if v in ("movq", "movd", "movss", "movsd", "movlps", "movlpd", "movhps", "movhpd"):
            n = 32 if v in ("movd", "movss") else 64
            d, s = ops[0], ops[1]
            if len(ops) == 3:
                if s[0] == "r" and v in ("movss", "movsd", "movlps", "movlpd", "movhps", "movhpd"):
                    base = run.r(st, s[1])
                    x = self.load(run, st, ops[2], 8) if ops[2][0] == "m" else run.r(st, ops[2][1])[:n]
                    put(d[1], x + base[n:] if "h" not in v[3:4] else base[:64] + x)
                    return None
                raise Undecided(ins.text)
            hi = v in ("movhps", "movhpd")
            if d[0] == "m":
                self.msize(d, n)
                x = run.r(st, s[1])
                self.store(run, st, d, x[64:] if hi else x[:n])
                return None
            if s[0] == "m":
                self.msize(s, n)
                x = self.load(run, st, s, n // 8)
                if v in ("movlps", "movlpd"):
                    put(d[1], x + run.r(st, d[1])[64:])
                elif hi:
                    put(d[1], run.r(st, d[1])[:64] + x)
                else:
                    put(d[1], x)
                return None
            x = run.r(st, s[1])
            if d[1].startswith("xmm"):
                if v in ("movss", "movsd", "movlps"):
                    put(d[1], x[:n] + run.r(st, d[1])[n:])
                else:
                    put(d[1], x[:n])
            else:
                w(st, d[1], x[:n])
            return None
        if v in ("movdqa", "movdqu", "movaps", "movups", "movapd", "movupd", "lddqu", "movntdqa"):
            # 16-byte vector accesses are single-copy atomic only on CPUs with AVX, where the
            # VEX encodings exist
            attr = frozenset(("tso",)) if vex and v in ("movdqa", "movaps", "movapd") else frozenset(("tso", "tear8"))
            if ops[0][0] == "m":
                self.store(run, st, ops[0], run.r(st, ops[1][1]), self.STOREATTR | attr)
            elif ops[1][0] == "m":
                put(ops[0][1], self.load(run, st, ops[1], 16, self.LOADATTR | attr))
            else:
                put(ops[0][1], run.r(st, ops[1][1]))
            return None
        if v in ("xorps", "pxor", "xorpd", "orps", "por", "orpd", "andps", "pand", "andpd"):
            if ops[-1][0] == "m":
                raise Undecided(ins.text)
            if v in ("xorps", "pxor", "xorpd") and ops[-1] == ops[-2]:
                put(ops[0][1], vconst(0, 128))
                return None
            a, b = run.r(st, ops[-2][1] if len(ops) == 3 else ops[0][1]), run.r(st, ops[-1][1])
            f = c.vxor if "xor" in v else c.vor if "or" in v else c.vand
            put(ops[0][1], f(a, b))
            return None
        if v in ("pshufd",):
            x = run.r(st, ops[1][1])
            k = ops[2][1]
            put(ops[0][1], sum((x[32 * (k >> 2 * i & 3):32 * (k >> 2 * i & 3) + 32] for i in range(4)), ()))
            return None
        if v in ("shufps",):
            a, b = (run.r(st, ops[0][1]), run.r(st, ops[1][1])) if len(ops) == 3 else \
                (run.r(st, ops[1][1]), run.r(st, ops[2][1]))
            k = ops[-1][1]
            g = lambda x, i: x[32 * (k >> 2 * i & 3):32 * (k >> 2 * i & 3) + 32]
            put(ops[0][1], g(a, 0) + g(a, 1) + g(b, 2) + g(b, 3))
            return None
        if v in ("unpcklps", "punpckldq", "punpcklqdq", "unpcklpd", "movlhps", "movhlps", "punpckhqdq", "unpckhpd"):
            if any(o[0] != "r" for o in ops):
                raise Undecided(ins.text)
            a, b = run.r(st, ops[-2][1] if len(ops) == 3 else ops[0][1]), run.r(st, ops[-1][1])
            if v in ("unpcklps", "punpckldq"):
                r = a[:32] + b[:32] + a[32:64] + b[32:64]
            elif v == "movhlps":
                r = b[64:] + a[64:]
            elif v in ("punpckhqdq", "unpckhpd"):
                r = a[64:] + b[64:]
            else:
                r = a[:64] + b[:64]
            put(ops[0][1], r)
            return None
        if v in ("psrlq", "psllq", "psrldq", "pslldq") and ops[-1][0] == "i":
            x = run.r(st, ops[-2][1] if len(ops) == 3 else ops[0][1])
            k = ops[-1][1]
            if v == "psrldq":
                r = shr(x, 8 * k)
            elif v == "pslldq":
                r = shl(x, 8 * k)
            else:
                f = shr if v == "psrlq" else shl
                r = f(x[:64], k) + f(x[64:], k)
            put(ops[0][1], r)
            return None
        if v in ("pinsrd", "pinsrq"):
            n = 32 if v[-1] == "d" else 64
            x = run.r(st, ops[0][1])
            k = ops[2][1]
            y = self.read(run, st, ops[1], n)
            put(ops[0][1], x[:k * n] + y[:n] + x[k * n + n:])
            return None
        if v in ("pextrd", "pextrq"):
            n = 32 if v[-1] == "d" else 64
            k = ops[2][1]
            y = run.r(st, ops[1][1])[k * n:k * n + n]
            if ops[0][0] == "m":
                self.store(run, st, ops[0], y)
            else:
                w(st, ops[0][1], y)
            return None
        # x87: a 64-bit integer survives fild/fistp exactly
        if mn in ("fild", "fistp", "fistp", "fld", "fstp"):
            if ops[0][0] != "m" or ops[0][1] != 8:
                raise Undecided(ins.text)
            stk = list(st.x.get("fpu", ()))
            st.regs["fpsw"] = c.fresh(16, "fpsw")
            if mn in ("fild", "fld"):
                if len(stk) + sum(1 for i in range(8) if "st%d" % i not in run.declared) >= 8:
                    raise Bad("contract", "the x87 stack may be full: not all of its registers are declared clobbered")
                if mn == "fld":
                    raise Bad("value", "loading as floating point can change a signalling NaN")
                stk.append(self.load(run, st, ops[0], 8))
                run.touched.add("st0")
            else:
                if not stk:
                    raise Undecided("x87 stack underflow")
                x = stk.pop()
                if mn == "fstp":
                    raise Bad("value", "storing as floating point changes the contents")
                self.store(run, st, ops[0], x)
            st.x["fpu"] = tuple(stk)
            return None
        raise Undecided("instruction `%s`" % ins.text)
