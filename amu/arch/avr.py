"""AVR."""

import re

from ..bits import sext, vconst, vnot
from ..llir import Undecided
from ..machine import Bad
from .masked import Masked

PAIRS = {"X": 26, "Y": 28, "Z": 30}


class Avr(Masked):
    COMMENT = re.compile(r";.*|//.*|/\*.*?\*/")
    SEMI = False
    # the arithmetic flags; the interrupt flag is followed in the state
    FLAGCLOB = {"sreg": ("sreg",), "SREG": ("sreg",)}

    def __init__(self, cfg):
        Masked.__init__(self, cfg)
        self.tiny = "tiny" in cfg.cpu

    def sem_key(self):
        return self.tiny

    def view(self, name):
        if name in PAIRS or name in ("r31r30", "r27r26", "r29r28"):
            k = PAIRS.get(name) or int(name[-2:])
            return ("p%d" % k, 0, 16)
        if name == "sreg":
            return ("sreg", 0, 7)
        m = re.fullmatch(r"r(\d+)", name)
        if not m or int(m[1]) > 31:
            raise Undecided("register `%s`" % name)
        k = int(m[1])
        if self.tiny and k < 16:
            raise Bad("contract", "register `%s` does not exist on this core" % name)
        if k >= 26:
            return ("p%d" % (k & ~1), 8 * (k & 1), 8)
        return ("r%d" % k, 0, 8)

    def width(self, ph):
        return 16 if ph[0] == "p" else 7 if ph == "sreg" else 8

    def pool(self, cons, ty):
        if cons == "r" and ty in (("i", 8),):
            return ["r24", "r25", "r18", "r19", "r20", "r21", "r22", "r23", "r17", "r16"]
        raise Undecided("constraint `%s` of %r" % (cons, ty))

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def mem(self, run, st, s):
        if s not in PAIRS:
            raise Undecided("address `%s`" % s)
        return st.facts.vnorm(run.r(st, s))

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        if mn == "nop":
            return None
        if mn in ("in", "out"):
            port = ops[1] if mn == "in" else ops[0]
            if self.imm(port) != 0x3f:
                raise Undecided("instruction `%s`" % ins.text)
            if mn == "in":
                w(st, ops[0], run.r(st, "sreg") + (self.flag(run, st),))
            else:
                v = r(st, ops[1])
                w(st, "sreg", v[:7])
                self.set_flag(run, st, v[7])
            return None
        if mn in ("cli", "sei"):
            self.set_flag(run, st, int(mn == "sei"))
            return None
        if mn in ("bclr", "bset") and self.imm(ops[0]) == 7:
            self.set_flag(run, st, int(mn == "bset"))
            return None
        if mn == "movw":
            for k in (0, 1):
                d, s = ("r%d" % (int(o[1:]) + k) for o in ops)
                w(st, d, r(st, s))
            return None
        if mn == "ldi":
            w(st, ops[0], vconst(self.imm(ops[1]) & 255, 8))
            return None
        if mn == "ld":
            w(st, ops[0], self.load(run, st, ops[1], 1))
            return None
        if mn == "st":
            self.store(run, st, ops[0], r(st, ops[1]))
            return None
        if mn == "mov":
            w(st, ops[0], r(st, ops[1]))
            return None
        if mn == "clr":
            mn, ops = "eor", [ops[0], ops[0]]
        if mn in ("eor", "and", "or"):
            w(st, ops[0], {"eor": c.vxor, "and": c.vand, "or": c.vor}[mn](r(st, ops[0]), r(st, ops[1])))
        elif mn == "com":
            w(st, ops[0], vnot(r(st, ops[0])))
        elif mn in ("sub", "add"):
            w(st, ops[0], (c.sub if mn == "sub" else c.add)(r(st, ops[0]), r(st, ops[1]))[0])
        else:
            raise Undecided("instruction `%s`" % ins.text)
        # arithmetic leaves the T flag alone
        old = r(st, "sreg")
        w(st, "sreg", c.fresh(6, "junk") + old[6:])
        return None
