"""LoongArch64."""

import re

from ..bits import const, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import FULL, Bad, Ev
from .base import Mixin, S
from .risc import Risc

NAMES = (["zero", "ra", "tp", "sp"] + ["a%d" % i for i in range(8)] + ["t%d" % i for i in range(9)] + ["r21", "fp"] +
         ["s%d" % i for i in range(9)])
POOL = ["a0", "a1", "a2", "a3", "a4", "a5", "t0", "t1", "a6", "a7", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "s0", "s1"]
NO = frozenset()
SEQ = frozenset(("acq", "rel", "rcsc", "full"))


class LoongArch(Mixin, Risc):
    CONST = frozenset(("zero",))
    COMMENT = re.compile(r"#.*|//.*|/\*.*?\*/")

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = cfg.ptr
        # ld; dbar 16 -- amswap_db / dbar 16; st; dbar 16 -- am*_db or ll/sc (the architecture's full-barrier pair)
        self.model = {"mca": True, "std": (S(True, False, ("full",), ()), S(False, True, ("full",), ("full",)),
                                          S(True, True, ("full",), ("full",)), S(True, False, (), ()))}

    def sem_key(self):
        return (self.cfg.arch, self.W)

    def view(self, name):
        name = name.lstrip("$")
        if re.fullmatch(r"r([12]?\d|3[01])", name):
            name = NAMES[int(name[1:])]
        if name not in NAMES:
            raise Undecided("register `%s`" % name)
        return (None if name == "zero" else name, 0, self.W)

    def width(self, ph):
        return self.W

    def clobber(self, c):
        if re.fullmatch(r"\$?fcc\d", c):
            return None
        return super().clobber(c)

    def pool(self, cons, ty):
        if cons == "r":
            return ["$" + x for x in POOL]
        raise Undecided("constraint `%s`" % cons)

    def pool_names(self, o):
        return () if o.explicit else {x for r in POOL for x in (r, "$" + r, "$r%d" % NAMES.index(r))}

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def val(self, run, st, s, n=None):
        return run.r(st, s) if s.startswith("$") else vconst(self.imm(s) & ((1 << self.W) - 1), self.W)

    def addr(self, run, st, ops):
        """[base register, offset]"""
        k = self.imm(ops[1]) if len(ops) > 1 else 0
        return self.offset(run, st, run.r(st, ops[0]), k)

    def size(self, c):
        return {"b": 1, "h": 2, "w": 4, "d": 8}[c]

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        W = self.W
        if mn == "nop":
            return None
        if mn == "b":
            return [(st, run.label(pc, ops[0]))]
        if mn in ("beqz", "bnez"):
            l = c.nonzero(r(st, ops[0]))
            return run.branch(st, l ^ (mn == "beqz"), ops[1], pc)
        if mn in ("beq", "bne"):
            l = c.neq(r(st, ops[0]), r(st, ops[1]))
            return run.branch(st, l ^ (mn == "beq"), ops[2], pc)
        if mn == "dbar":
            k = self.imm(ops[0])
            if k == 0x700:
                st.ev.append(Ev("NOTE", info="dbar 0x700"))
                return None
            if k == 0 or k >= 0x20:
                mask = FULL          # hints that are not defined behave like 0
            else:
                # bits 3..0: previous reads, previous writes, later reads, later writes need NOT be ordered
                mask = {a + b for a, x in (("R", 8), ("W", 4)) if not k & x for b, y in (("R", 2), ("W", 1)) if not k & y}
            st.fence(mask, "dbar %d" % k)
            return None
        m = re.fullmatch(r"ll(acq)?\.([wd])", mn)
        if m:
            n = self.size(m[2])
            run.mem = True
            a = frozenset(("acq", "rcsc")) if m[1] else NO
            w(st, ops[0], sext(self.join(st.ll(self.addr(run, st, ops[1:]), n, a)), W))
            return None
        m = re.fullmatch(r"sc\.([wd])", mn)
        if m:
            n = self.size(m[1])
            run.mem = True
            v = r(st, ops[0])[:8 * n]
            # a completed LL/SC pair acts as a full barrier
            outs = st.sc(self.addr(run, st, ops[1:]), self.cut(v), SEQ)
            for s, ok in outs:
                w(s, ops[0], zext((s.facts.norm(ok),), W))
            return [(s, pc + 1) for s, _ in outs]
        m = re.fullmatch(r"am(swap|add|and|or|xor)(_db)?\.([bhwd])", mn)
        if m:
            n = self.size(m[3])
            self.distinct(run, st, ops[0], ops[1:], ins.text)
            v = r(st, ops[1])[:8 * n]
            f = {"swap": lambda o: v, "add": lambda o: c.add(o, v)[0], "xor": lambda o: c.vxor(o, v),
                 "and": lambda o: c.vand(o, v), "or": lambda o: c.vor(o, v)}[m[1]]
            run.mem = True
            old = st.rmw(self.addr(run, st, ops[2:]), n, lambda o: self.cut(f(self.join(o))), SEQ if m[2] else NO)
            w(st, ops[0], sext(self.join(old), W))
            return None
        m = re.fullmatch(r"ld\.([bhwd])(u?)", mn)
        if m:
            run.mem = True
            v = self.join(st.load_bytes(self.addr(run, st, ops[1:]), self.size(m[1])))
            w(st, ops[0], zext(v, W) if m[2] else sext(v, W))
            return None
        m = re.fullmatch(r"st\.([bhwd])", mn)
        if m:
            run.mem = True
            st.store_bytes(self.addr(run, st, ops[1:]), self.cut(r(st, ops[0])[:8 * self.size(m[1])]))
            return None
        if mn == "move":
            w(st, ops[0], r(st, ops[1]))
        elif mn in ("li.w", "li.d"):
            w(st, ops[0], vconst(self.imm(ops[1]) & ((1 << W) - 1), W))
        elif mn in ("and", "or", "xor", "andn", "orn", "nor", "andi", "ori", "xori"):
            a, b = r(st, ops[1]), self.val(run, st, ops[2])
            v = {"and": lambda: c.vand(a, b), "or": lambda: c.vor(a, b), "xor": lambda: c.vxor(a, b),
                 "andn": lambda: c.vand(a, vnot(b)), "orn": lambda: c.vor(a, vnot(b)),
                 "nor": lambda: vnot(c.vor(a, b))}[mn.rstrip("i") if mn[-1] == "i" else mn]()
            w(st, ops[0], v)
        elif mn in ("add.w", "add.d", "addi.w", "addi.d", "sub.w", "sub.d"):
            a, b = r(st, ops[1]), self.val(run, st, ops[2])
            v = (c.sub if mn[0] == "s" else c.add)(a, b)[0]
            w(st, ops[0], sext(v[:32], W) if mn[-1] == "w" else v)
        elif mn == "sltui" and ops[2] == "1":
            w(st, ops[0], zext((c.nonzero(r(st, ops[1])) ^ 1,), W))
        elif mn == "sltu" and self.phys(ops[1]) is None:
            w(st, ops[0], zext((c.nonzero(r(st, ops[2])),), W))
        elif mn in ("maskeqz", "masknez"):
            l = c.nonzero(r(st, ops[2]))
            w(st, ops[0], c.vmux(l ^ (mn == "masknez"), r(st, ops[1]), vconst(0, W)))
        elif re.fullmatch(r"(sll|srl|sra)i?\.[wd]", mn):
            n = 32 if mn[-1] == "w" else 64
            if "i" in mn:
                k = self.imm(ops[2])
            else:
                k = const(st.facts.vnorm(r(st, ops[2])[:5 if n == 32 else 6]))
            if k is None:
                raise Undecided("variable shift")
            w(st, ops[0], sext({"sll": shl, "srl": shr, "sra": sar}[mn[:3]](r(st, ops[1])[:n], k), W))
        elif mn in ("ext.w.b", "ext.w.h"):
            w(st, ops[0], sext(r(st, ops[1])[:8 if mn[-1] == "b" else 16], W))
        else:
            raise Undecided("instruction `%s`" % ins.text)
        return None
