"""m68k (68020 and later; plain loads and stores on all)."""

import re

from ..bits import const, sext, vconst, vnot
from ..llir import Undecided
from ..machine import Bad
from .base import Mixin, S
from .risc import Risc

SIZE = {"b": 8, "w": 16, "l": 32}
# one processor, in-order, no store buffer visible to itself; locked cycles for CAS
SC = frozenset(("acq", "rel", "full"))


class M68k(Mixin, Risc):
    COMMENT = re.compile(r"\|.*|//.*|/\*.*?\*/")
    LOADATTR = STOREATTR = SC
    FLAGCLOB = {"ccr": ("ccr",)}

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = 32
        self.model = {"mca": True, "std": (S(True, False, ("full",), ("full",)), S(False, True, ("full",), ("full",)),
                                          S(True, True, ("full",), ("full",)))}

    def sem_key(self):
        return ()

    def view(self, name):
        n = name.lstrip("%")
        n = {"sp": "a7", "fp": "a6"}.get(n, n)
        if n == "ccr":
            return ("ccr", 0, 5)
        if not re.fullmatch(r"[ad][0-7]", n):
            raise Undecided("register `%s`" % name)
        return (n, 0, 32)

    def width(self, ph):
        return 5 if ph == "ccr" else 32

    def pool(self, cons, ty):
        if cons == "d":
            return ["%d" + str(i) for i in range(8)]
        if cons == "a":
            return ["%a" + str(i) for i in range(6)]
        if cons == "r":
            return self.pool("d", ty) + self.pool("a", ty)
        raise Undecided("constraint `%s`" % cons)

    def may_share(self, out, inp):
        if out.explicit or inp.explicit:
            return super().may_share(out, inp)
        return out.cons == inp.cons or "r" in (out.cons, inp.cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def mem(self, run, st, s):
        m = re.fullmatch(r"(-?\d*)\((%?a\d|%?sp)\)", s)
        if not m:
            raise Undecided("address `%s`" % s)
        return self.offset(run, st, run.r(st, m[2]), int(m[1] or "0", 0) & 0xffffffff)

    def src(self, run, st, s, n):
        if s.startswith("#"):
            return vconst(self.imm(s) & ((1 << n) - 1), n)
        if "(" in s:
            return self.load(run, st, s, n // 8)
        if n == 8 and self.phys(s)[0] == "a":
            raise Bad("contract", "byte access to an address register")
        return run.r(st, s)[:n]

    def put_low(self, run, st, s, v):
        ph = self.phys(s)
        if ph[0] == "a":
            if len(v) == 8:
                raise Bad("contract", "byte access to an address register")
            run.w(st, s, sext(v, 32))
        else:
            run.w(st, s, tuple(v) + run.r(st, s)[len(v):])

    def cc(self, run, st, z):
        """ccr = C V Z N X, least significant first."""
        j = run.e.ctx.fresh(4, "junk")
        run.w(st, "ccr", (j[0], j[1], z, j[2], j[3]))

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        if mn == "nop":
            return None
        if mn in ("bra", "jra"):
            return [(st, run.label(pc, ops[0]))]
        if mn in ("jne", "jeq"):
            mn = "b" + mn[1:]
        if mn in ("bne", "beq"):
            z = run.r(st, "ccr")[2]
            return run.branch(st, z ^ (mn == "bne"), ops[0], pc)
        if mn in ("seq", "sne"):
            z = st.facts.norm(run.r(st, "ccr")[2]) ^ (mn == "sne")
            self.put_low(run, st, ops[0], (z,) * 8)
            return None
        m = re.fullmatch(r"cas\.([bwl])", mn)
        if m:
            n = SIZE[m[1]]
            if self.phys(ops[0])[0] != "d" or self.phys(ops[1])[0] != "d":
                raise Bad("contract", "`%s` needs data registers" % ins.text)
            run.mem = True
            res = []
            for s, ok, old in st.cmpxchg(self.mem(run, st, ops[2]), n // 8, self.cut(run.r(st, ops[0])[:n]),
                                         self.cut(run.r(st, ops[1])[:n]), SC, SC):
                ok = s.facts.norm(ok)
                if ok != 1:
                    self.put_low(run, s, ops[0], self.join(old))
                self.cc(run, s, ok)
                res.append((s, pc + 1))
            return res
        m = re.fullmatch(r"(moveq?|movea?|and|or|eor|add|sub|not|neg|clr|tst)(?:\.([bwl]))?", mn)
        if not m or (m[2] is None and m[1] != "moveq"):
            raise Undecided("instruction `%s`" % ins.text)
        op, n = m[1], SIZE[m[2] or "l"]
        d = ops[-1]
        if op in ("move", "movea"):
            v = self.src(run, st, ops[0], n)
            if "(" in d:
                self.store(run, st, d, v)
            else:
                self.put_low(run, st, d, v)
                if self.phys(d)[0] == "a":
                    return None
        elif op == "moveq":
            v = sext(vconst(self.imm(ops[0]) & 0xff, 8), 32)
            run.w(st, d, v)
        elif op == "tst":
            v = self.src(run, st, d, n)
        else:
            if "(" in d or (len(ops) > 1 and self.phys(d)[0] == "a"):
                raise Undecided("instruction `%s`" % ins.text)
            b = run.r(st, d)[:n]
            a = self.src(run, st, ops[0], n)
            v = {"and": lambda: c.vand(a, b), "or": lambda: c.vor(a, b), "eor": lambda: c.vxor(a, b),
                 "add": lambda: c.add(a, b)[0], "sub": lambda: c.sub(b, a)[0], "not": lambda: vnot(b),
                 "neg": lambda: c.sub(vconst(0, n), b)[0], "clr": lambda: vconst(0, n)}[op]()
            self.put_low(run, st, d, v)
        self.cc(run, st, c.nonzero(st.facts.vnorm(v)) ^ 1)
        return None
