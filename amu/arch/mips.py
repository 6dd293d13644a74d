"""MIPS32 and MIPS64 (releases 2 to 6)."""

import re

from ..bits import const, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import Bad
from .base import Mixin, S
from .risc import Risc

ABI = {"zero": 0, "at": 1, "k0": 26, "k1": 27, "gp": 28, "sp": 29, "fp": 30, "s8": 30, "ra": 31}
POOL = ["$%d" % i for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 16, 17, 18, 19, 20, 21)]


class Mips(Mixin, Risc):
    COMMENT = re.compile(r"#.*|//.*|/\*.*?\*/")

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = cfg.ptr
        # ld; sync -- sync; st; sync -- sync; ll/sc; sync
        self.model = {"mca": False, "std": (S(True, False, ("full",), ()), S(False, True, ("full",), ("full",)),
                                           S(True, True, ("full",), ("full",)))}

    def sem_key(self):
        return ()

    def directive(self, line):
        # in the default `reorder` mode the assembler fills delay slots itself
        if re.fullmatch(r"\.set\s+(push|pop|noat|at|reorder|macro|nomacro)", line):
            return True
        raise Undecided("assembler directive `%s`" % line)

    def view(self, name):
        m = re.fullmatch(r"\$(\w+)", name)
        if not m:
            raise Undecided("register `%s`" % name)
        n = ABI.get(m[1], m[1])
        if not re.fullmatch(r"[12]?\d|3[01]", str(n)):
            raise Undecided("register `%s`" % name)
        return (None if int(n) == 0 else "$%d" % int(n), 0, self.W)

    def width(self, ph):
        return self.W

    def pool(self, cons, ty):
        if cons == "r":
            return POOL
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def put(self, run, st, reg, bits, c):
        # a 32-bit value is kept sign-extended in a 64-bit register
        if len(bits) == 32 and self.W == 64:
            bits = sext(bits, 64)
        Risc.put(self, run, st, reg, bits, c)

    def get(self, run, st, reg, ty, n):
        b = Risc.get(self, run, st, reg, ty, n)
        if n == 32 and self.W == 64:
            full = run.init(st, self.phys(reg))
            # ... and the compiler relies on the assembly to do the same
            if not self.canonical(st, full):
                return run.e.ctx.fresh(32, "junk")
        return b

    def canonical(self, st, v):
        n = st.facts.norm
        return self.W == 32 or all(n(x) == n(v[31]) for x in v[32:])

    def word(self, run, st, v):
        """A 32-bit operand; unpredictable unless sign-extended."""
        return v[:32] if self.canonical(st, v) else run.e.ctx.fresh(32, "junk")

    def mem(self, run, st, s):
        m = re.fullmatch(r"(-?\w*)\s*\(\s*(\$\w+)\s*\)", s)
        if not m:
            raise Undecided("address `%s`" % s)
        return self.offset(run, st, run.r(st, m[2]), int(m[1] or "0", 0))

    def size(self, c):
        return {"b": 1, "h": 2, "w": 4, "d": 8}[c]

    def val(self, run, st, s, n=None):
        return run.r(st, s) if s.startswith("$") else vconst(self.imm(s) & ((1 << self.W) - 1), self.W)

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        W = self.W
        if mn in ("nop", "ssnop", "ehb"):
            return None
        if mn in ("b", "j"):
            return [(st, run.label(pc, ops[0]))]
        if mn in ("beqz", "bnez"):
            l = c.nonzero(r(st, ops[0]))
            return run.branch(st, l ^ (mn == "beqz"), ops[1], pc)
        if mn in ("beq", "bne"):
            l = c.neq(r(st, ops[0]), r(st, ops[1]))
            return run.branch(st, l ^ (mn == "beq"), ops[2], pc)
        if mn == "sync":
            if ops and self.imm(ops[0]) != 0:
                raise Undecided("instruction `%s`" % ins.text)
            st.fence(info=mn)
            return None
        if mn in ("ll", "lld"):
            n = 8 if mn == "lld" else 4
            w(st, ops[0], sext(self.ll(run, st, ops[1], n), W))
            return None
        if mn in ("sc", "scd"):
            n = 8 if mn == "scd" else 4
            outs = self.sc(run, st, ops[1], r(st, ops[0])[:8 * n])
            for s, ok in outs:
                w(s, ops[0], zext((s.facts.norm(ok),), W))
            return [(s, pc + 1) for s, _ in outs]
        m = re.fullmatch(r"l([bhwd])(u?)", mn)
        if m and not (m[1] == "d" and (m[2] or W == 32)):
            v = self.load(run, st, ops[1], self.size(m[1]))
            w(st, ops[0], zext(v, W) if m[2] else sext(v, W))
            return None
        m = re.fullmatch(r"s([bhwd])", mn)
        if m and not (m[1] == "d" and W == 32):
            self.store(run, st, ops[1], r(st, ops[0])[:8 * self.size(m[1])])
            return None
        if mn == "move":
            w(st, ops[0], r(st, ops[1]))
        elif mn in ("li", "dli"):
            k = vconst(self.imm(ops[1]) & ((1 << 64) - 1), 64)
            w(st, ops[0], sext(k[:32], W) if mn == "li" else k[:W])
        elif mn in ("and", "or", "xor", "nor", "andi", "ori", "xori"):
            a = r(st, ops[1] if len(ops) == 3 else ops[0])
            b = self.val(run, st, ops[-1])
            w(st, ops[0], {"and": lambda: c.vand(a, b), "or": lambda: c.vor(a, b), "xor": lambda: c.vxor(a, b),
                           "nor": lambda: vnot(c.vor(a, b))}[mn.rstrip("i") if mn != "nor" else mn]())
        elif mn == "not":
            w(st, ops[0], vnot(r(st, ops[-1])))
        elif mn in ("addu", "addiu", "subu", "daddu", "daddiu", "dsubu"):
            a, b = r(st, ops[1]), self.val(run, st, ops[2])
            f = c.sub if "sub" in mn else c.add
            if mn[0] == "d":
                w(st, ops[0], f(a, b)[0])
            else:
                w(st, ops[0], sext(f(self.word(run, st, a), self.word(run, st, b))[0], W))
        elif mn in ("sltu", "sltiu"):
            a, b = r(st, ops[1]), self.val(run, st, ops[2])
            if self.phys(ops[1]) is None and mn == "sltu":
                l = c.nonzero(b)
            elif const(b) == 1:
                l = c.nonzero(a) ^ 1
            else:
                l = c.ult(a, b)
            w(st, ops[0], zext((l,), W))
        elif mn in ("movz", "movn"):
            l = c.nonzero(r(st, ops[2])) ^ (mn == "movz")
            w(st, ops[0], c.vmux(l, r(st, ops[1]), r(st, ops[0])))
        elif mn in ("seb", "seh"):
            w(st, ops[0], sext(r(st, ops[-1])[:8 if mn == "seb" else 16], W))
        elif re.fullmatch(r"d?(sll|srl|sra)v?", mn):
            n = 64 if mn[0] == "d" else 32
            f = {"sll": shl, "srl": shr, "sra": sar}[mn.strip("d").rstrip("v")]
            if not ops[-1].startswith("$"):
                k = self.imm(ops[-1])
            else:
                k = const(st.facts.vnorm(r(st, ops[-1])[:6 if n == 64 else 5]))
            if k is None:
                raise Undecided("variable shift")
            a = r(st, ops[1] if len(ops) == 3 else ops[0])
            v = a if n == 64 else a[:32] if f is shl else self.word(run, st, a)
            w(st, ops[0], sext(f(v, k), W))
        else:
            raise Undecided("instruction `%s`" % ins.text)
        return None
