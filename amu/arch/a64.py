"""AArch64 (and Arm64EC)."""

import re

from ..bits import const, rotl, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import FULL, Bad, Ev
from .base import Mixin, S
from .risc import Risc

VIEWS = {"xzr": (None, 0, 64), "wzr": (None, 0, 32), "sp": ("sp", 0, 64), "wsp": ("sp", 0, 32),
         "lr": ("x30", 0, 64), "fp": ("x29", 0, 64)}
for _i in range(31):
    VIEWS["x%d" % _i] = ("x%d" % _i, 0, 64)
    VIEWS["w%d" % _i] = ("x%d" % _i, 0, 32)
for _i in range(32):
    VIEWS["v%d" % _i] = VIEWS["q%d" % _i] = ("v%d" % _i, 0, 128)
    VIEWS["d%d" % _i] = ("v%d" % _i, 0, 64)
    VIEWS["s%d" % _i] = ("v%d" % _i, 0, 32)
FL = ("nf", "zf", "cf", "vf")
for _f in FL:
    VIEWS[_f] = (_f, 0, 1)
POOL = ["x%d" % i for i in list(range(8, 17)) + [0, 1, 2, 3, 4, 5, 6, 7, 17] + list(range(20, 28))]
RCSC_ACQ = frozenset(("acq", "rcsc"))
RCSC_REL = frozenset(("rel", "rcsc"))
NO = frozenset()


class A64(Mixin, Risc):
    W = 64
    FLAGCLOB = {"cc": FL}

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        # 16-byte ldp/stp are single-copy atomic only with FEAT_LSE2
        self.pair = NO if "lse2" in self.feat else frozenset(("tear8",))
        std = (S(True, False, (), ("rcsc",)), S(False, True, ("rcsc",), ()), S(True, True, ("rcsc",), ("rcsc",)))
        if cfg.arch == "arm64ec":
            # MSVC's C++ atomics: SeqCst loads are plain loads followed by a barrier, stores end with one
            std += (S(True, False, ("full",), ()), S(False, True, ("full",), ()))
        self.model = {"mca": True, "std": std}

    def sem_key(self):
        return (self.cfg.arch, self.cfg.ptr, self.BIG, "lse2" in self.feat, "rcpc3" in self.feat)

    def directive(self, line):
        if line.startswith((".arch_extension", ".arch ")):
            raise Undecided("assembler directive `%s`" % line)
        return super().directive(line)

    def view(self, name):
        v = VIEWS.get(name)
        if v is None:
            raise Undecided("register `%s`" % name)
        return v

    def width(self, ph):
        return 1 if ph in FL else 128 if ph[0] == "v" else 64

    def zero_upper(self, name):
        return VIEWS[name][2] == 32 or VIEWS[name][0][0] == "v"

    def pool(self, cons, ty):
        if cons == "r":
            return POOL
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        n = self.view(reg)[0][1:]
        if mod in ("", "x"):
            return "x" + n
        if mod == "w":
            return "w" + n
        raise Undecided("operand modifier `%s`" % mod)

    def mem(self, run, st, s):
        m = re.fullmatch(r"\[\s*(\w+)\s*(?:,\s*#?(-?\w+)\s*)?\]", s)
        if not m:
            raise Undecided("address `%s`" % s)
        if self.view(m[1])[2] != 64:
            raise Undecided("address `%s`" % s)
        return self.offset(run, st, run.r(st, m[1]), int(m[2] or "0", 0))

    def setf(self, run, st, a, b):
        c = run.e.ctx
        r, carry = c.sub(a, b)
        run.w(st, "zf", (c.neq(a, b) ^ 1,))
        run.w(st, "nf", (r[-1],))
        run.w(st, "cf", (carry,))
        run.w(st, "vf", (c.and_(c.xor(a[-1], b[-1]), c.xor(a[-1], r[-1])),))
        return r

    def cond(self, run, st, cc):
        c = run.e.ctx
        f = lambda n: run.r(st, n)[0]
        if cc == "al":
            return 1
        inv = 0
        if cc in ("ne", "cc", "lo", "pl", "vc", "ls", "lt", "le"):
            inv = 1
            cc = {"ne": "eq", "cc": "cs", "lo": "cs", "pl": "mi", "vc": "vs", "ls": "hi", "lt": "ge", "le": "gt"}[cc]
        if cc == "eq":
            r = f("zf")
        elif cc in ("cs", "hs"):
            r = f("cf")
        elif cc == "mi":
            r = f("nf")
        elif cc == "vs":
            r = f("vf")
        elif cc == "hi":
            r = c.and_(f("cf"), f("zf") ^ 1)
        elif cc == "ge":
            r = c.xor(f("nf"), f("vf")) ^ 1
        elif cc == "gt":
            r = c.and_(f("zf") ^ 1, c.xor(f("nf"), f("vf")) ^ 1)
        else:
            raise Undecided("condition `%s`" % cc)
        return st.facts.norm(r) ^ inv

    def op2(self, run, st, ops, n):
        """Second source operand with an optional shift or extension."""
        if not re.fullmatch(r"[a-z]+\d*", ops[0]) or ops[0] not in VIEWS:
            v = vconst(self.imm(ops[0]), n)
        else:
            v = run.r(st, ops[0])
        if len(ops) > 1:
            p = ops[1].split()
            k = self.imm(p[1]) if len(p) > 1 else 0
            if p[0] in ("uxtb", "uxth", "uxtw", "uxtx"):
                v = shl(zext(v[:{"b": 8, "h": 16, "w": 32, "x": 64}[p[0][3]]], n), k)
            elif p[0] in ("sxtb", "sxth", "sxtw", "sxtx"):
                v = shl(sext(v[:{"b": 8, "h": 16, "w": 32, "x": 64}[p[0][3]]], n), k)
            elif p[0] == "lsl":
                v = shl(v, k)
            elif p[0] == "lsr":
                v = shr(v, k)
            elif p[0] == "asr":
                v = sar(v, k)
            elif p[0] == "ror":
                v = rotl(v, -k)
            else:
                raise Undecided("operand `%s`" % ops[1])
        if len(v) != n:
            raise Undecided("operand widths differ")
        return v

    def size(self, sfx, reg):
        return {"b": 1, "h": 2}.get(sfx) or self.view(reg)[2] // 8

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w = run.w
        if mn == "nop" or mn.startswith("prfm"):
            return None
        if mn == "b":
            return [(st, run.label(pc, ops[0]))]
        if mn.startswith("b.") or (mn[0] == "b" and mn[1:] in ("eq", "ne", "cs", "cc", "hs", "lo", "mi", "pl")):
            return run.branch(st, self.cond(run, st, mn.lstrip("b").lstrip(".")), ops[0], pc)
        if mn in ("cbz", "cbnz"):
            l = c.nonzero(run.r(st, ops[0]))
            return run.branch(st, l ^ (mn == "cbz"), ops[1], pc)
        if mn in ("tbz", "tbnz"):
            l = run.r(st, ops[0])[self.imm(ops[1])]
            return run.branch(st, l ^ (mn == "tbz"), ops[2], pc)
        if mn in ("dmb", "dsb"):
            k = ops[0].lower()
            if k in ("ish", "sy"):
                st.fence(info=mn)
            elif k in ("ishld", "ld"):
                st.fence(("RR", "RW"), mn + " ld")
            elif k in ("ishst", "st"):
                st.fence(("WW",), mn + " st")
            else:
                raise Bad("order", "a barrier limited to `%s` does not order accesses of other cores" % k)
            return None
        if mn == "isb":
            st.ev.append(Ev("I", info="isb"))
            return None
        if mn == "clrex":
            st.mon = None
            return None
        m = re.fullmatch(r"(ld|st)(a|l)?xr([bh]?)", mn)
        if m and m[1] == "ld" and m[2] in (None, "a"):
            n = self.size(m[3], ops[0])
            w(st, ops[0], zext(self.ll(run, st, ops[1], n, RCSC_ACQ if m[2] else NO), self.view(ops[0])[2]))
            return None
        if m and m[1] == "st" and m[2] in (None, "l"):
            n = self.size(m[3], ops[1])
            self.distinct(run, st, ops[0], [ops[1], ops[2].strip("[] ")], ins.text)
            v = run.r(st, ops[1])[:8 * n]
            return self.status(run, ops[0], self.sc(run, st, ops[2], v, RCSC_REL if m[2] else NO), pc)
        m = re.fullmatch(r"ld(a)?xp", mn)
        if m:
            n = self.view(ops[0])[2] // 8
            if ops[0] == ops[1]:
                raise Undecided(ins.text)
            run.mem = True
            bs = st.ll(self.mem(run, st, ops[2]), 2 * n, (RCSC_ACQ if m[1] else NO) | {"tear%d" % n})
            self.halves(run, st, ops, bs, n)
            return None
        m = re.fullmatch(r"st(l)?xp", mn)
        if m:
            n = self.view(ops[1])[2] // 8
            self.distinct(run, st, ops[0], [ops[1], ops[2], ops[3].strip("[] ")], ins.text)
            bs = self.cut(run.r(st, ops[1])) + self.cut(run.r(st, ops[2]))
            run.mem = True
            return self.status(run, ops[0], st.sc(self.mem(run, st, ops[3]), bs, RCSC_REL if m[1] else NO), pc)
        m = re.fullmatch(r"(ldar|ldapr|ldlar|ldapur|ldr|ldur)([bh]?)", mn)
        if m:
            n = self.size(m[2], ops[0])
            a = {"ldar": RCSC_ACQ, "ldapr": frozenset(("acq",)), "ldapur": frozenset(("acq",)), "ldr": NO,
                 "ldur": NO}.get(m[1])
            if a is None:
                raise Undecided(ins.text)
            w(st, ops[0], zext(self.load(run, st, ops[1], n, a), self.view(ops[0])[2]))
            return None
        m = re.fullmatch(r"(stlr|stlur|str|stur)([bh]?)", mn)
        if m:
            n = self.size(m[2], ops[0])
            a = RCSC_REL if m[1] == "stlr" else frozenset(("rel",)) if m[1] == "stlur" else NO
            self.store(run, st, ops[1], run.r(st, ops[0])[:8 * n], a)
            return None
        if mn in ("ldp", "ldnp", "ldiapp"):
            n = self.view(ops[0])[2] // 8
            run.mem = True
            a = frozenset(("acq",)) if mn == "ldiapp" else NO
            if mn == "ldiapp" and "rcpc3" not in self.feat:
                raise Undecided(ins.text)
            bs = st.load_bytes(self.mem(run, st, ops[2]), 2 * n, a | (self.pair if n == 8 else NO))
            self.halves(run, st, ops, bs, n)
            return None
        if mn in ("stp", "stnp", "stilp"):
            n = self.view(ops[0])[2] // 8
            run.mem = True
            bs = self.cut(run.r(st, ops[0])) + self.cut(run.r(st, ops[1]))
            a = frozenset(("rel",)) if mn == "stilp" else NO
            st.store_bytes(self.mem(run, st, ops[2]), bs, a | (self.pair if n == 8 else NO))
            return None
        m = re.fullmatch(r"cas(a?)(l?)([bh]?)", mn)
        if m:
            n = self.size(m[3], ops[0])
            attr = (RCSC_ACQ if m[1] else NO) | (RCSC_REL if m[2] else NO)
            run.mem = True
            outs = st.cmpxchg(self.mem(run, st, ops[2]), n, self.cut(run.r(st, ops[0])[:8 * n]),
                              self.cut(run.r(st, ops[1])[:8 * n]), attr, attr - {"rel"} if m[1] else NO)
            res = []
            for s, ok, old in outs:
                w(s, ops[0], zext(self.join(old), self.view(ops[0])[2]))
                res.append((s, pc + 1))
            return res
        m = re.fullmatch(r"casp(a?)(l?)", mn)
        if m:
            n = self.view(ops[0])[2] // 8
            ph = [int(self.phys(o)[1:]) for o in ops[:4]]
            if ph[0] % 2 or ph[1] != ph[0] + 1 or ph[2] % 2 or ph[3] != ph[2] + 1:
                raise Undecided(ins.text)
            attr = (RCSC_ACQ if m[1] else NO) | (RCSC_REL if m[2] else NO)
            run.mem = True
            ex = self.cut(run.r(st, ops[0])) + self.cut(run.r(st, ops[1]))
            nw = self.cut(run.r(st, ops[2])) + self.cut(run.r(st, ops[3]))
            res = []
            for s, ok, old in st.cmpxchg(self.mem(run, st, ops[4]), 2 * n, ex, nw, attr,
                                         attr - {"rel"} if m[1] else NO):
                self.halves(run, s, ops, old, n)
                res.append((s, pc + 1))
            return res
        m = re.fullmatch(r"(swp|ldadd|ldclr|ldeor|ldset)(a?)(l?)([bh]?)", mn)
        if m:
            n = self.size(m[4], ops[0])
            # with the zero register as destination the acquire half is lost
            acq = m[2] and self.phys(ops[1]) is not None
            attr = (RCSC_ACQ if acq else NO) | (RCSC_REL if m[3] else NO)
            v = run.r(st, ops[0])[:8 * n]
            f = {"swp": lambda o: v, "ldadd": lambda o: c.add(o, v)[0], "ldclr": lambda o: c.vand(o, vnot(v)),
                 "ldeor": lambda o: c.vxor(o, v), "ldset": lambda o: c.vor(o, v)}[m[1]]
            old = self.rmw(run, st, ops[2], n, f, attr)
            w(st, ops[1], zext(old, self.view(ops[1])[2]))
            return None
        m = re.fullmatch(r"swpp(a?)(l?)", mn)
        if m:
            attr = (RCSC_ACQ if m[1] else NO) | (RCSC_REL if m[2] else NO)
            bs = self.cut(run.r(st, ops[0])) + self.cut(run.r(st, ops[1]))
            run.mem = True
            old = st.rmw(self.mem(run, st, ops[2]), 16, lambda o: bs, attr)
            self.halves(run, st, ops, old, 8)
            return None
        return self.alu(run, st, ins, pc)

    def halves(self, run, st, ops, bs, n):
        run.w(st, ops[0], self.join(bs[:n]))
        run.w(st, ops[1], self.join(bs[n:]))

    def status(self, run, reg, outs, pc):
        res = []
        for s, ok in outs:
            run.w(s, reg, zext((s.facts.norm(ok) ^ 1,), 32))
            res.append((s, pc + 1))
        return res

    def alu(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        n = self.view(ops[0])[2]
        if mn in ("cmp", "cmn"):
            a, b = run.r(st, ops[0]), self.op2(run, st, ops[1:], n)
            if mn == "cmn":
                raise Undecided(ins.text)
            self.setf(run, st, a, b)
            return None
        if mn == "tst":
            r = c.vand(run.r(st, ops[0]), self.op2(run, st, ops[1:], n))
            self.logicf(run, st, r)
            return None
        if mn == "ccmp":
            l = st.facts.norm(self.cond(run, st, ops[3]))
            a, b = run.r(st, ops[0]), self.op2(run, st, ops[1:2], n)
            k = self.imm(ops[2])
            self.setf(run, st, a, b)
            for i, f in enumerate(("vf", "cf", "zf", "nf")):
                run.w(st, f, (c.mux(l, run.r(st, f)[0], k >> i & 1),))
            return None
        if mn in ("cset", "csetm"):
            l = self.cond(run, st, ops[1])
            run.w(st, ops[0], zext((l,), n) if mn == "cset" else (l,) * n)
            return None
        if mn in ("cinc", "cinv", "cneg"):
            l = self.cond(run, st, ops[2])
            a = run.r(st, ops[1])
            b = c.add(a, vconst(1, n))[0] if mn == "cinc" else vnot(a) if mn == "cinv" else \
                c.sub(vconst(0, n), a)[0]
            run.w(st, ops[0], c.vmux(l, b, a))
            return None
        if mn in ("csel", "csinc", "csinv", "csneg"):
            l = self.cond(run, st, ops[3])
            a, b = run.r(st, ops[1]), run.r(st, ops[2])
            b = {"csel": lambda: b, "csinc": lambda: c.add(b, vconst(1, n))[0], "csinv": lambda: vnot(b),
                 "csneg": lambda: c.sub(vconst(0, n), b)[0]}[mn]()
            run.w(st, ops[0], c.vmux(l, a, b))
            return None
        if mn in ("mov", "movz"):
            v = self.op2(run, st, ops[1:2], n)
            if len(ops) > 2:
                v = shl(v, self.imm(ops[2].split()[1]))
            run.w(st, ops[0], v)
            return None
        if mn in ("mvn",):
            run.w(st, ops[0], vnot(self.op2(run, st, ops[1:], n)))
            return None
        if mn in ("uxtb", "uxth", "uxtw", "sxtb", "sxth", "sxtw"):
            k = {"b": 8, "h": 16, "w": 32}[mn[3]]
            v = run.r(st, ops[1])[:k]
            run.w(st, ops[0], zext(v, n) if mn[0] == "u" else sext(v, n))
            return None
        if mn in ("lsl", "lsr", "asr", "ror"):
            k = const(st.facts.vnorm(self.op2(run, st, ops[2:], n)))
            if k is None:
                raise Undecided("variable shift")
            a = run.r(st, ops[1])
            k %= n
            run.w(st, ops[0], {"lsl": shl, "lsr": shr, "asr": sar, "ror": lambda x, y: rotl(x, -y)}[mn](a, k))
            return None
        if mn in ("rev",):
            from ..bits import bswap
            run.w(st, ops[0], bswap(run.r(st, ops[1])))
            return None
        base = mn[:-1] if mn in ("adds", "subs", "ands", "bics") else mn
        if base in ("add", "sub", "and", "orr", "eor", "bic", "orn", "eon"):
            a, b = run.r(st, ops[1]), self.op2(run, st, ops[2:], n)
            r = {"add": lambda: c.add(a, b)[0], "sub": lambda: c.sub(a, b)[0], "and": lambda: c.vand(a, b),
                 "orr": lambda: c.vor(a, b), "eor": lambda: c.vxor(a, b), "bic": lambda: c.vand(a, vnot(b)),
                 "orn": lambda: c.vor(a, vnot(b)), "eon": lambda: vnot(c.vxor(a, b))}[base]()
            if mn != base:
                if base == "sub":
                    self.setf(run, st, a, b)
                elif base == "add":
                    raise Undecided(ins.text)
                else:
                    self.logicf(run, st, r)
            run.w(st, ops[0], r)
            return None
        if mn in ("ldnop",):
            return None
        raise Undecided("instruction `%s`" % ins.text)

    def logicf(self, run, st, r):
        run.w(st, "zf", (run.e.ctx.nonzero(r) ^ 1,))
        run.w(st, "nf", (r[-1],))
        run.w(st, "cf", (0,))
        run.w(st, "vf", (0,))
