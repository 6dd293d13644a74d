"""SPARC V8 (LEON), V8+ and V9."""

import re

from ..bits import const, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import FULL, Bad
from .base import Mixin, S
from .risc import ACQ, NONE, Risc

BIT = {1: "RR", 2: "WR", 4: "RW", 8: "WW"}
NAME = {"#LoadLoad": 1, "#StoreLoad": 2, "#LoadStore": 4, "#StoreStore": 8}
POOL = ["%o0", "%o1", "%o2", "%o3", "%o4", "%o5", "%l0", "%l1", "%l2", "%l3", "%l4", "%l5", "%l6", "%l7", "%i0", "%i1",
        "%i2", "%i3", "%i4", "%i5", "%g2", "%g3", "%g4"]
FULLA = frozenset(("acq", "rel", "full"))


class Sparc(Mixin, Risc):
    COMMENT = re.compile(r"!.*|//.*|/\*.*?\*/")
    SEMI = True

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = cfg.ptr
        # the default processor of 32-bit Linux is V9 (V8+)
        self.v9 = cfg.arch == "sparc64" or "linux" in cfg.target
        if not self.v9:
            # V8 cores implement TSO or PSO: loads are not reordered with later accesses
            self.LOADATTR = ACQ
        # V9 (RMO): ld; membar -- membar; st; membar -- membar; cas; membar.
        # V8: what the compiler emits orders no store with a later load.
        f = ("full",) if self.v9 else ()
        self.model = {"mca": True, "std": (S(True, False), S(False, True, f), S(True, True, f, f))}

    def sem_key(self):
        return self.v9

    def directive(self, line):
        if re.fullmatch(r"\.p2align\s+\d+", line):
            return True         # pads with nops
        raise Undecided("assembler directive `%s`" % line)

    def view(self, name):
        if name in ("%icc", "icc", "%xcc"):
            return ("icc", 0, 2)
        n = name.lstrip("%")
        n = {"sp": "o6", "fp": "i6"}.get(n, n)
        m = re.fullmatch(r"r(\d+)", n)
        if m and int(m[1]) < 32:
            n = "goli"[int(m[1]) // 8] + str(int(m[1]) % 8)
        if not re.fullmatch(r"[goli][0-7]", n):
            raise Undecided("register `%s`" % name)
        return (None if n == "g0" else "%" + n, 0, self.W)

    FLAGCLOB = {"fcc0": (), "fcc1": (), "fcc2": (), "fcc3": ()}

    def clobber(self, c):
        return "icc" if c == "icc" else super().clobber(c)

    def width(self, ph):
        return 2 if ph == "icc" else self.W

    def pool(self, cons, ty):
        if cons == "r":
            return POOL
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def val(self, run, st, s):
        return run.r(st, s) if s.startswith("%") else vconst(self.imm(s) & ((1 << self.W) - 1), self.W)

    def imm(self, s):
        if not re.fullmatch(r"-?\d\w*", s.strip()):
            raise Undecided("operand `%s`" % s)
        return int(s, 0)

    def mem(self, run, st, s):
        m = re.fullmatch(r"\[\s*(%\w+)\s*(?:([+-])\s*(\w+))?\s*\]", s)
        if not m:
            raise Undecided("address `%s`" % s)
        k = self.imm(m[3]) if m[3] else 0
        return self.offset(run, st, run.r(st, m[1]), (-k if m[2] == "-" else k) & ((1 << self.W) - 1))

    def cc(self, run, st, name):
        if name == "%xcc" and not (self.v9 and self.W == 64):
            raise Undecided("condition codes `%s`" % name)
        return run.r(st, "%icc")[1 if name == "%xcc" else 0]

    def branch(self, run, st, ins, pc):
        """Delayed branch."""
        m = re.fullmatch(r"b(a|n?e|z|nz)?", ins.mn)
        if ins.mn in ("b", "ba"):
            l = 1
        else:
            if len(ins.ops) == 2 and not self.v9:
                raise Bad("contract", "`%s` is not an instruction of this architecture version" % ins.text)
            z = self.cc(run, st, ins.ops[0] if len(ins.ops) == 2 else "%icc")
            l = z ^ 1 if ins.mn in ("bne", "bnz") else z
        prog = run.ins_list
        if pc + 1 >= len(prog):
            raise Bad("contract", "the delay slot of `%s` lies outside the assembly" % ins.text)
        t = run.label(pc, ins.ops[-1])
        st.branch_event(l)
        slot = prog[pc + 1]
        if re.match(r"b|call|jmp|ret", slot.mn):
            raise Undecided("branch in a delay slot")
        if self.step(run, st, slot, pc + 1) is not None:
            raise Undecided("`%s` in a delay slot" % slot.text)
        return [(s, t if v else pc + 2) for v, s in st.split(l)]

    def membar(self, st, arg):
        k = 0
        for x in arg.split("|"):
            x = x.strip()
            k |= NAME[x] if x in NAME else self.imm(x)
        if k & ~15:
            raise Undecided("membar %s" % arg)
        m = {v for b, v in BIT.items() if k & b}
        if m:
            st.fence(m, "membar")

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        W = self.W
        if mn == "nop":
            return None
        if mn in ("b", "ba", "be", "bz", "bne", "bnz"):
            return self.branch(run, st, ins, pc)
        if mn == "membar" and self.v9:
            self.membar(st, ops[0])
            return None
        if mn == "stbar":
            # loads are already ordered on V8; on V9 this is membar #StoreStore
            st.fence(("WW",) if self.v9 else ("WW", "RW"), mn)
            return None
        if mn == "ldstub" and not self.v9 and ops == ["[%sp-1]", "%g0"]:
            # an atomic access to private memory below the stack: drains the store buffer
            st.fence(FULL, "ldstub")
            return None
        m = re.fullmatch(r"ld(s|u|)([bhw]|)|ldx", mn)
        if m:
            n = 8 if mn == "ldx" else {"b": 1, "h": 2, "w": 4, "": 4}[m[2]]
            if (n == 8 or m[2] == "w") and not self.v9 or n == 8 and W == 32 or m[1] and not m[2] or m[2] in tuple("bh") and not m[1]:
                raise Undecided("instruction `%s`" % ins.text)
            v = self.load(run, st, ops[0], n)
            w(st, ops[1], sext(v, W) if m[1] == "s" else zext(v, W))
            return None
        m = re.fullmatch(r"st([bhwx]?)", mn)
        if m and not (m[1] == "x" and W == 32):
            self.store(run, st, ops[1], r(st, ops[0])[:{"b": 8, "h": 16, "w": 32, "": 32, "x": 64}[m[1]]])
            return None
        if mn in ("cas", "casx", "casa"):
            if mn == "casa" and not self.v9:
                m = re.fullmatch(r"(\[.*\])\s*(\d+)", ops[0])
                if not m or int(m[2]) not in (10, 11):
                    raise Undecided("instruction `%s`" % ins.text)
                a, attr = m[1], FULLA
            elif mn != "casa" and self.v9 and not (mn == "casx" and W == 32):
                a, attr = ops[0], NONE
            else:
                raise Undecided("instruction `%s`" % ins.text)
            n = 64 if mn == "casx" else 32
            run.mem = True
            res = []
            for s, ok, old in st.cmpxchg(self.mem(run, st, a), n // 8, self.cut(r(st, ops[1])[:n]),
                                         self.cut(r(st, ops[2])[:n]), attr, attr):
                w(s, ops[2], zext(self.join(old), W))
                res.append((s, pc + 1))
            return res
        if mn in ("cmp", "tst") or mn == "subcc" and ops[2] == "%g0":
            a, b = r(st, ops[0]), self.val(run, st, "0" if mn == "tst" else ops[1])
            z32 = c.neq(a[:32], b[:32]) ^ 1
            z64 = c.neq(a, b) ^ 1 if W == 64 else c.fresh(1, "junk")[0]
            w(st, "%icc", (z32, z64))
            return None
        if mn in ("move", "movne") and self.v9:
            z = self.cc(run, st, ops[0])
            if mn == "movne":
                z ^= 1
            w(st, ops[2], c.vmux(z, self.val(run, st, ops[1]), r(st, ops[2])))
            return None
        if mn in ("set", "clr", "not") and len(ops) == (2 if mn == "set" else 1):
            w(st, ops[-1], self.val(run, st, ops[0]) if mn == "set" else vconst(0, W) if mn == "clr" else vnot(r(st, ops[0])))
            return None
        if mn in ("andcc", "orcc", "xorcc", "addcc", "subcc"):
            a, b = r(st, ops[0]), self.val(run, st, ops[1])
            v = {"and": c.vand, "or": c.vor, "xor": c.vxor, "add": lambda a, b: c.add(a, b)[0],
                 "sub": lambda a, b: c.sub(a, b)[0]}[mn[:-2]](a, b)
            z32 = c.nonzero(v[:32]) ^ 1
            w(st, ops[2], v)
            w(st, "%icc", (z32, c.nonzero(v) ^ 1 if W == 64 else c.fresh(1, "junk")[0]))
            return None
        if mn == "mov":
            w(st, ops[1], self.val(run, st, ops[0]))
        elif mn in ("and", "andn", "or", "orn", "xor", "xnor"):
            a, b = r(st, ops[0]), self.val(run, st, ops[1])
            if mn[-1] == "n" and mn != "xnor":
                b = vnot(b)
            v = {"a": c.vand, "o": c.vor, "x": c.vxor}[mn[0]](a, b)
            w(st, ops[2], vnot(v) if mn == "xnor" else v)
        elif mn in ("add", "sub"):
            a, b = r(st, ops[0]), self.val(run, st, ops[1])
            w(st, ops[2], (c.add if mn == "add" else c.sub)(a, b)[0])
        elif mn in ("sll", "srl", "sllx", "srlx"):
            x = mn[-1] == "x"
            if x and W == 32:
                raise Undecided("instruction `%s`" % ins.text)
            k = const(st.facts.vnorm(self.val(run, st, ops[1])[:6 if x else 5]))
            if k is None:
                raise Undecided("variable shift")
            a = r(st, ops[0])
            if mn[1:3] == "ll":
                v = shl(a, k)
            else:
                v = shr(a if x else a[:32], k)
            w(st, ops[2], zext(v, W))
        else:
            raise Undecided("instruction `%s`" % ins.text)
        return None
