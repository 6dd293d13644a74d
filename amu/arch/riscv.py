"""RISC-V (RV32/RV64)."""

import re

from ..bits import const, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import Bad, Ev
from .base import Mixin, S
from .risc import Risc

NAMES = (["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1"] + ["a%d" % i for i in range(8)] +
         ["s%d" % i for i in range(2, 12)] + ["t3", "t4", "t5", "t6"])
VREGS = ["vtype", "vl", "vxsat", "vxrm"]
POOL = ["a0", "a1", "a2", "a3", "a4", "a5", "t0", "t1", "t2", "a6", "a7", "t3", "t4", "t5", "t6", "s1", "s2", "s3"]
NO = frozenset()


def amo_attr(sfx):
    """.aq/.rl are RCsc annotations; both together order everything around the access (PPO rules 5-7)."""
    return {"": NO, ".aq": frozenset(("acq", "rcsc")), ".rl": frozenset(("rel", "rcsc")),
            ".aqrl": frozenset(("acq", "rel", "rcsc", "full"))}[sfx]


class RiscV(Mixin, Risc):
    CONST = frozenset(("zero",))
    COMMENT = re.compile(r"#.*|//.*|/\*.*?\*/")

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = cfg.ptr
        # RISC-V ABI mapping: load = fence rw,rw; l; fence r,rw -- store = fence rw,w; s -- rmw = aqrl
        self.model = {"mca": True, "std": (S(True, False, (), ("full",)), S(False, True, (), ()),
                                          S(True, True, (), ("full",)))}

    def sem_key(self):
        return (self.cfg.arch, self.W)

    def view(self, name):
        if name in NAMES:
            n = name
        elif re.fullmatch(r"x([12]?\d|3[01])", name):
            n = NAMES[int(name[1:])]
        elif name == "fp":
            n = "s0"
        else:
            raise Undecided("register `%s`" % name)
        return (None if n == "zero" else n, 0, self.W)

    def width(self, ph):
        return self.W

    def clobber(self, c):
        if c in VREGS:
            return None
        return super().clobber(c)

    def pool(self, cons, ty):
        if cons == "r":
            return POOL
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def mem(self, run, st, s):
        m = re.fullmatch(r"(-?\w*)\s*\(\s*(\w+)\s*\)", s)
        if not m:
            raise Undecided("address `%s`" % s)
        return self.offset(run, st, run.r(st, m[2]), int(m[1] or "0", 0))

    def size(self, c):
        return {"b": 1, "h": 2, "w": 4, "d": 8}[c]

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        W = self.W
        if mn.startswith("c.") and mn not in ("c.nop",):
            mn = mn[2:]
        if mn in ("nop", "c.nop"):
            return None
        if mn == "j":
            return [(st, run.label(pc, ops[0]))]
        if mn in ("beqz", "bnez"):
            l = c.nonzero(r(st, ops[0]))
            return run.branch(st, l ^ (mn == "beqz"), ops[1], pc)
        if mn in ("beq", "bne"):
            l = c.neq(r(st, ops[0]), r(st, ops[1]))
            return run.branch(st, l ^ (mn == "beq"), ops[2], pc)
        if mn == "fence":
            a, b = (ops + ["iorw", "iorw"])[:2] if ops else ("iorw", "iorw")
            st.fence({x.upper() + y.upper() for x in a if x in "rw" for y in b if y in "rw"}, "fence %s,%s" % (a, b))
            return None
        if mn == "fence.tso":
            st.fence(("RR", "RW", "WW"), mn)
            return None
        if mn == "fence.i":
            return None
        m = re.fullmatch(r"lr\.([wd])(\.aqrl|\.aq|\.rl)?", mn)
        if m:
            a = amo_attr(m[2] or "")
            w(st, ops[0], sext(self.ll(run, st, ops[1], self.size(m[1]), a), W))
            return None
        m = re.fullmatch(r"sc\.([wd])(\.aqrl|\.aq|\.rl)?", mn)
        if m:
            n = self.size(m[1])
            # sc.aqrl holds later accesses back, but not its load-reserved behind earlier ones
            a = amo_attr(m[2] or "") - {"full"}
            res = []
            for s, ok in self.sc(run, st, ops[2], r(st, ops[1])[:8 * n], a):
                # the failure code is any nonzero value
                code = c.fresh(W, "sc")
                if s.facts.eval(ok) == 1:
                    code = vconst(0, W)
                else:
                    s.facts.assume(c.nonzero(code))
                w(s, ops[0], code)
                res.append((s, pc + 1))
            return res
        m = re.fullmatch(r"amo(swap|add|xor|and|or)\.([bhwd])(\.aqrl|\.aq|\.rl)?", mn)
        if m:
            n = self.size(m[2])
            v = r(st, ops[1])[:8 * n]
            f = {"swap": lambda o: v, "add": lambda o: c.add(o, v)[0], "xor": lambda o: c.vxor(o, v),
                 "and": lambda o: c.vand(o, v), "or": lambda o: c.vor(o, v)}[m[1]]
            old = self.rmw(run, st, ops[2], n, f, amo_attr(m[3] or ""))
            w(st, ops[0], sext(old, W))
            return None
        m = re.fullmatch(r"amocas\.([bhwd])(\.aqrl|\.aq|\.rl)?", mn)
        if m:
            n = self.size(m[1])
            if 8 * n > W:
                raise Undecided(ins.text)
            run.mem = True
            a = amo_attr(m[2] or "")
            res = []
            for s, ok, old in st.cmpxchg(self.mem(run, st, ops[2]), n, self.cut(r(st, ops[0])[:8 * n]),
                                         self.cut(r(st, ops[1])[:8 * n]), a, a):
                w(s, ops[0], sext(self.join(old), W))
                res.append((s, pc + 1))
            return res
        m = re.fullmatch(r"l([bhwd])(u?)", mn)
        if m and not (m[1] == "d" and (m[2] or W == 32)):
            n = self.size(m[1])
            v = self.load(run, st, ops[1], n)
            w(st, ops[0], zext(v, W) if m[2] else sext(v, W))
            return None
        m = re.fullmatch(r"s([bhwd])", mn)
        if m and not (m[1] == "d" and W == 32):
            self.store(run, st, ops[1], r(st, ops[0])[:8 * self.size(m[1])])
            return None
        if mn in ("mv",):
            w(st, ops[0], r(st, ops[1]))
        elif mn == "li":
            w(st, ops[0], vconst(self.imm(ops[1]) & ((1 << W) - 1), W))
        elif mn in ("seqz", "snez"):
            l = c.nonzero(r(st, ops[1]))
            w(st, ops[0], zext((l ^ (mn == "seqz"),), W))
        elif mn in ("sltu", "sltiu"):
            b = vconst(self.imm(ops[2]) & ((1 << W) - 1), W) if mn == "sltiu" else r(st, ops[2])
            if mn == "sltu" and self.phys(ops[1]) is None:
                l = c.nonzero(b)
            elif mn == "sltiu" and self.imm(ops[2]) == 1:
                l = c.nonzero(r(st, ops[1])) ^ 1
            else:
                l = c.ult(r(st, ops[1]), b)
            w(st, ops[0], zext((l,), W))
        elif mn == "not":
            w(st, ops[0], vnot(r(st, ops[1])))
        elif mn in ("neg",):
            w(st, ops[0], c.sub(vconst(0, W), r(st, ops[1]))[0])
        elif mn in ("and", "or", "xor", "andi", "ori", "xori", "andn", "orn", "xnor"):
            b = vconst(self.imm(ops[2]) & ((1 << W) - 1), W) if mn[-1] == "i" else r(st, ops[2])
            a = r(st, ops[1])
            if mn in ("andn", "orn", "xnor"):
                b = vnot(b)
            f = {"a": c.vand, "o": c.vor, "x": c.vxor}[mn[0]]
            w(st, ops[0], f(a, b))
        elif mn in ("add", "addi", "sub", "addw", "addiw", "subw"):
            a = r(st, ops[1])
            b = vconst(self.imm(ops[2]) & ((1 << W) - 1), W) if "i" in mn else r(st, ops[2])
            v = (c.sub if mn.startswith("sub") else c.add)(a, b)[0]
            w(st, ops[0], sext(v[:32], W) if mn[-1] == "w" else v)
        elif mn == "sext.w":
            w(st, ops[0], sext(r(st, ops[1])[:32], W))
        elif mn == "zext.b":
            w(st, ops[0], zext(r(st, ops[1])[:8], W))
        elif mn in ("sext.b", "sext.h", "zext.h", "zext.w"):
            k = {"b": 8, "h": 16, "w": 32}[mn[-1]]
            w(st, ops[0], (sext if mn[0] == "s" else zext)(r(st, ops[1])[:k], W))
        elif re.fullmatch(r"(sll|srl|sra)i?w?", mn):
            n = 32 if mn[-1] == "w" else W
            if "i" in mn:
                k = self.imm(ops[2])
            else:
                k = const(st.facts.vnorm(r(st, ops[2])[:5 if n == 32 else 6]))
            if k is None:
                raise Undecided("variable shift")
            v = {"sll": shl, "srl": shr, "sra": sar}[mn[:3]](r(st, ops[1])[:n], k)
            w(st, ops[0], sext(v, W))
        else:
            raise Undecided("instruction `%s`" % ins.text)
        return None
