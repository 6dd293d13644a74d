"""MSP430."""

import re

from ..bits import const, sext, vconst, vnot, zext
from ..llir import Undecided
from ..machine import Bad
from .masked import Masked

ALIAS = {"pc": "r0", "sp": "r1", "sr": "r2", "cg": "r3"}
GIE = 3


class Msp430(Masked):
    COMMENT = re.compile(r";.*|//.*|/\*.*?\*/")
    SEMI = False
    FLAGCLOB = {"sr": ("r2",)}

    def sem_key(self):
        return ()

    def split(self, line):
        out = []
        for part in line.split("{"):
            if part.strip():
                out += Masked.split(self, part.strip())
        return out

    def view(self, name):
        n = ALIAS.get(name, name)
        if not re.fullmatch(r"r(\d|1[0-5])", n):
            raise Undecided("register `%s`" % name)
        return (n, 0, 16)

    def width(self, ph):
        return 16

    def pool(self, cons, ty):
        if cons == "r":
            return ["r12", "r13", "r14", "r15", "r11", "r10", "r9", "r8", "r7", "r6", "r5"]
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def mem(self, run, st, s):
        m = re.fullmatch(r"@(r\d+)|(-?\w+)\((r\d+)\)", s)
        if not m:
            raise Undecided("address `%s`" % s)
        if m[1]:
            return st.facts.vnorm(run.r(st, m[1]))
        return self.offset(run, st, run.r(st, m[3]), int(m[2], 0) & 0xffff)

    def status(self, run, st):
        """The status register: arithmetic flags, mode bits, interrupt-enable flag."""
        v = list(run.r(st, "r2"))
        v[GIE] = self.flag(run, st)
        for k in range(4, 8):
            v[k] = run.e.ctx.atom((("IRQ0",), k))
        return tuple(v)

    def src(self, run, st, s, n):
        if s.startswith("#"):
            return vconst(self.imm(s) & 0xffff, 16)[:n]
        if self.is_mem(s):
            return self.load(run, st, s, n // 8)
        if self.view(s)[0] == "r2":
            return self.status(run, st)[:n]
        return run.r(st, s)[:n]

    def is_mem(self, s):
        return s.startswith("@") or "(" in s

    def flags(self, run, st, keep=0):
        run.w(st, "r2", run.e.ctx.fresh(16, "junk"))

    def step(self, run, st, ins, pc):
        nxt = self.step1(run, st, ins, pc)
        # DINT takes effect only after the following instruction
        if "dint" in st.x:
            k = st.x["dint"] - 1
            if k:
                st.x["dint"] = k
            else:
                del st.x["dint"]
                self.set_flag(run, st, 0)
        return nxt

    def at_end(self, run, st):
        if st.x.pop("dint", None):
            self.set_flag(run, st, 0)
            raise Bad("irq", "DINT is not followed by an instruction that lets it take effect before the protected accesses")

    def step1(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        if mn == "nop":
            return None
        if mn == "dint":
            st.x["dint"] = 2
            return None
        if mn == "eint":
            self.set_flag(run, st, 1)
            return None
        if re.fullmatch(r"bi[cs](\.w)?", mn) and ops[1] in ("r2", "sr") and ops[0] in ("#8", "#0x8"):
            if mn.startswith("bic"):
                st.x["dint"] = 2
            else:
                self.set_flag(run, st, 1)
            return None
        m = re.fullmatch(r"(mov|xor|and|bis|bic|add|sub|cmp|tst)(\.[bw])?", mn)
        if not m or m[1] in ("cmp", "tst"):
            raise Undecided("instruction `%s`" % ins.text)
        n = 8 if m[2] == ".b" else 16
        a = self.src(run, st, ops[0], n)
        d = ops[1]
        if m[1] == "mov":
            v = a
        else:
            if self.is_mem(d) or self.view(d)[0] == "r2":
                raise Undecided("instruction `%s`" % ins.text)
            b = run.r(st, d)[:n]
            v = {"xor": lambda: c.vxor(a, b), "and": lambda: c.vand(a, b), "bis": lambda: c.vor(a, b),
                 "bic": lambda: c.vand(vnot(a), b), "add": lambda: c.add(a, b)[0], "sub": lambda: c.sub(b, a)[0]}[m[1]]()
        if self.is_mem(d):
            self.store(run, st, d, v)
        elif self.view(d)[0] == "r2":
            if n != 16:
                raise Undecided("instruction `%s`" % ins.text)
            for k in range(4, 8):
                if not st.facts.equal((v[k],), (c.atom((("IRQ0",), k)),)):
                    raise Bad("irq", "the mode bits of the status register are changed")
            run.w(st, "r2", v)
            self.set_flag(run, st, v[GIE])
        else:
            run.w(st, d, zext(v, 16))
        if m[1] not in ("mov", "bis", "bic"):
            self.flags(run, st)
        return None
