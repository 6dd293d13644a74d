"""PowerPC and PowerPC64."""

import re

from ..bits import const, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import Bad, Ev
from .base import Mixin, S
from .risc import NONE, Risc

POOL = ["r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r30", "r29", "r28", "r27", "r26", "r25", "r24",
        "r23", "r22", "r21", "r20"]
SIZE = {"b": 1, "h": 2, "w": 4, "d": 8, "q": 16}


class PowerPC(Mixin, Risc):
    COMMENT = re.compile(r"#.*|//.*|/\*.*?\*/")
    # what the last comparison looked at: a branch on it depends on those reads
    SCRATCH = frozenset(("cr0.dep",))
    # lq/stq are single-copy atomic only since Power ISA 2.07, which also has partword-atomics
    FLAGCLOB = {"cr0": ("cr0",)}

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = cfg.ptr
        # sync; ld; cmp; bc; isync -- sync; st -- sync; larx/stcx.; isync
        self.model = {"mca": False, "std": (S(True, False, (), ("full",)), S(False, True, (), ("full",)),
                                           S(True, True, (), ("full",)))}

    def sem_key(self):
        return ()

    def view(self, name):
        name = name.lstrip("%")
        if name == "cr0":
            return ("cr0", 0, 4)
        if not re.fullmatch(r"r([12]?\d|3[01])", name):
            raise Undecided("register `%s`" % name)
        return (name, 0, self.W)

    def width(self, ph):
        return 4 if ph == "cr0" else self.W

    def clobber(self, c):
        return "cr0" if c == "cr0" else super().clobber(c)

    def pool(self, cons, ty):
        if cons in ("r", "b"):
            return POOL
        raise Undecided("constraint `%s`" % cons)

    def may_share(self, out, inp):
        if out.explicit and inp.explicit:
            return False
        if not out.explicit and not inp.explicit:
            return True         # `b` registers are a subset of `r` registers
        return True

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def base(self, run, st, s, text):
        """A base register field: register 0 means the value 0."""
        ph = self.phys(s)
        o = run.inputs.get(ph)
        if ph == "r0":
            return vconst(0, self.W)
        for x in run.ops:
            if x.reg == s and not x.explicit and "r" in (x.cons if x.tied is None else run.ops[x.tied].cons) and \
                    (o is x or o is None):
                raise Bad("contract", "`%s` uses a register that may be r0 as a base address: r0 reads as zero there" % text)
        return run.r(st, s)

    def ea(self, run, st, s, text):
        m = re.fullmatch(r"(-?\w*)\s*\(\s*(%?r\d+|0)\s*\)", s)
        if not m:
            raise Undecided("address `%s`" % s)
        b = vconst(0, self.W) if m[2] == "0" else self.base(run, st, m[2], text)
        return self.offset(run, st, b, int(m[1] or "0", 0))

    def ex(self, run, st, a, b, text):
        y = run.r(st, b)
        if a == "0":
            return y
        x = self.base(run, st, a, text)
        return st.facts.vnorm(run.e.ctx.add(st.facts.vnorm(x), st.facts.vnorm(y))[0])

    def pair(self, s, text):
        ph = self.phys(s)
        n = int(ph[1:])
        if n % 2:
            raise Bad("contract", "`%s` needs an even register" % text)
        return s, re.sub(r"\d+$", str(n + 1), s)

    def put_mem(self, run, st, s, n, text):
        """Bits of the register operand of an n-byte store."""
        if n == 16:
            hi, lo = self.pair(s, text)
            return run.r(st, lo) + run.r(st, hi)
        return run.r(st, s)[:8 * n]

    def get_mem(self, run, st, s, bits, text):
        if len(bits) == 128:
            hi, lo = self.pair(s, text)
            run.w(st, lo, bits[:64])
            run.w(st, hi, bits[64:])
        else:
            run.w(st, s, zext(bits, self.W))

    def setcr(self, run, st, eq, dep, lt=None, gt=None):
        """cr0 = SO, EQ, GT, LT (least significant first)."""
        c = run.e.ctx
        j = c.fresh(3, "junk")
        run.w(st, "cr0", (j[0], eq, j[1] if gt is None else gt, j[2] if lt is None else lt))
        st.regs["cr0.dep"] = tuple(dep)

    def cmp(self, run, st, a, b):
        self.setcr(run, st, run.e.ctx.neq(a, b) ^ 1, [x for x in a + b if x > 1])

    def branch(self, run, st, lit, target, pc):
        c = run.e.ctx
        s = frozenset().union(*[c.supp(x) for x in st.regs.get("cr0.dep", ())], c.supp(lit))
        if s:
            st.ev.append(Ev("B", supp=s))
        t = run.label(pc, target)
        return [(x, t if v else pc + 1) for v, x in st.split(lit)]

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        W = self.W
        if mn == "nop":
            return None
        if mn == "b":
            return [(st, run.label(pc, ops[0]))]
        m = re.fullmatch(r"b(ne|eq)[-+]?", mn)
        if m:
            if len(ops) == 2 and self.view(ops[0])[0] != "cr0":
                raise Undecided("instruction `%s`" % ins.text)
            eq = r(st, "cr0")[1]
            return self.branch(run, st, eq ^ (m[1] == "ne"), ops[-1], pc)
        if mn == "isync":
            st.ev.append(Ev("I", info=mn))
            return None
        if mn in ("sync", "hwsync", "msync"):
            if ops and self.imm(ops[0]) != 0:
                raise Undecided("instruction `%s`" % ins.text)
            st.fence(info=mn)
            return None
        if mn == "lwsync":
            st.fence(("RR", "RW", "WW"), mn)
            return None
        if mn == "eieio":
            st.fence(("WW",), mn)
            return None
        m = re.fullmatch(r"l([bhwdq])arx", mn)
        if m and not (m[1] in "dq" and W == 32):
            n = SIZE[m[1]]
            run.mem = True
            a = self.ex(run, st, ops[1], ops[2], ins.text)
            if n == 16:
                for x in self.pair(ops[0], ins.text):
                    self.distinct(run, st, x, [o for o in ops[1:] if o != "0"], ins.text)
            self.get_mem(run, st, ops[0], self.join(st.ll(a, n, NONE)), ins.text)
            return None
        m = re.fullmatch(r"st([bhwdq])cx\.", mn)
        if m and not (m[1] in "dq" and W == 32):
            run.mem = True
            a = self.ex(run, st, ops[1], ops[2], ins.text)
            v = self.put_mem(run, st, ops[0], SIZE[m[1]], ins.text)
            outs = st.sc(a, self.cut(v), NONE)
            for s, ok in outs:
                self.setcr(run, s, ok, [ok] if ok > 1 else [], 0, 0)
            return [(s, pc + 1) for s, _ in outs]
        m = re.fullmatch(r"l(bz|hz|ha|wz|wa|d|q)(x?)", mn)
        if m and not (m[1] in ("d", "q", "wa") and W == 32) and not (m[1] == "q" and m[2]):
            n = SIZE[m[1][0]]
            run.mem = True
            a = self.ex(run, st, ops[1], ops[2], ins.text) if m[2] else self.ea(run, st, ops[1], ins.text)
            if n == 16:
                hi, _ = self.pair(ops[0], ins.text)
                self.distinct(run, st, hi, [ops[1][ops[1].index("(") + 1:-1].strip()], ins.text)
            v = self.join(st.load_bytes(a, n))
            if m[1].endswith("a"):
                w(st, ops[0], sext(v, W))
            else:
                self.get_mem(run, st, ops[0], v, ins.text)
            return None
        m = re.fullmatch(r"st([bhwdq])(x?)", mn)
        if m and not (m[1] in "dq" and W == 32) and not (m[1] == "q" and m[2]):
            run.mem = True
            a = self.ex(run, st, ops[1], ops[2], ins.text) if m[2] else self.ea(run, st, ops[1], ins.text)
            st.store_bytes(a, self.cut(self.put_mem(run, st, ops[0], SIZE[m[1]], ins.text)))
            return None
        m = re.fullmatch(r"cmpl?([wd])(i?)", mn)
        if m and not (m[1] == "d" and W == 32):
            o = ops
            if len(o) == 3:
                if self.view(o[0])[0] != "cr0":
                    raise Undecided("instruction `%s`" % ins.text)
                o = o[1:]
            n = 32 if m[1] == "w" else 64
            a = r(st, o[0])[:n]
            b = vconst(self.imm(o[1]) & ((1 << n) - 1), n) if m[2] else r(st, o[1])[:n]
            self.cmp(run, st, a, b)
            return None
        if mn == "mfcr":
            cr = r(st, "cr0")
            w(st, ops[0], zext(c.fresh(28, "junk") + cr, W))
            return None
        dot = mn.endswith(".")
        op = mn.rstrip(".")
        if op == "mr":
            v = r(st, ops[1])
        elif op == "li":
            v = vconst(self.imm(ops[1]) & ((1 << W) - 1), W)
        elif op in ("or", "and", "xor", "andc", "orc", "nor", "nand", "eqv"):
            a, b = r(st, ops[1]), r(st, ops[2])
            v = {"or": lambda: c.vor(a, b), "and": lambda: c.vand(a, b), "xor": lambda: c.vxor(a, b),
                 "andc": lambda: c.vand(a, vnot(b)), "orc": lambda: c.vor(a, vnot(b)), "nor": lambda: vnot(c.vor(a, b)),
                 "nand": lambda: vnot(c.vand(a, b)), "eqv": lambda: vnot(c.vxor(a, b))}[op]()
        elif op == "not":
            v = vnot(r(st, ops[1]))
        elif op in ("ori", "xori", "andi"):
            a, b = r(st, ops[1]), vconst(self.imm(ops[2]) & 0xffff, W)
            v = (c.vor if op == "ori" else c.vxor if op == "xori" else c.vand)(a, b)
        elif op == "add":
            v = c.add(r(st, ops[1]), r(st, ops[2]))[0]
        elif op == "addi":
            v = self.offset(run, st, self.base(run, st, ops[1], ins.text), self.imm(ops[2]) & ((1 << W) - 1))
        elif op in ("subf", "sub"):
            a, b = r(st, ops[1]), r(st, ops[2])
            v = (c.sub(b, a) if op == "subf" else c.sub(a, b))[0]
        elif op in ("extsb", "extsh", "extsw"):
            v = sext(r(st, ops[1])[:{"b": 8, "h": 16, "w": 32}[op[-1]]], W)
        elif op in ("slw", "srw", "sld", "srd", "slwi", "srwi", "sldi", "srdi"):
            n = 32 if op[2] == "w" else 64
            k = self.imm(ops[2]) if op[-1] == "i" else const(st.facts.vnorm(r(st, ops[2])[:6 if n == 32 else 7]))
            if k is None:
                raise Undecided("variable shift")
            v = zext((shl if op[1] == "l" else shr)(r(st, ops[1])[:n], k), W)
        else:
            raise Undecided("instruction `%s`" % ins.text)
        w(st, ops[0], v)
        if dot or op == "andi":
            v = st.facts.vnorm(v)
            self.setcr(run, st, c.nonzero(v) ^ 1, [x for x in v if x > 1])
        return None
