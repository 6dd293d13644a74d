"""AArch32: ARMv4T..ARMv8, A32 and T32, with Linux kernel user helpers before ARMv6."""

import re

from ..bits import const, rotl, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import FULL, Bad, Ev
from .base import Mixin, S
from .risc import Risc

FL = ("nf", "zf", "cf", "vf")
VIEWS = {f: (f, 0, 1) for f in FL}
for _i in range(16):
    VIEWS["r%d" % _i] = ("r%d" % _i, 0, 32)
VIEWS.update({"sb": VIEWS["r9"], "sl": VIEWS["r10"], "fp": VIEWS["r11"], "ip": VIEWS["r12"], "sp": VIEWS["r13"],
              "lr": VIEWS["r14"], "pc": VIEWS["r15"]})
POOL = ["r%d" % i for i in (4, 5, 0, 1, 2, 3, 8, 9, 10, 12, 14, 6, 7, 11)]
LOW = ["r%d" % i for i in (4, 5, 0, 1, 2, 3, 6, 7)]
ACQ = frozenset(("acq", "rcsc"))
REL = frozenset(("rel", "rcsc"))
NO = frozenset()
CMPXCHG, BARRIER, CMPXCHG64, VERSION = 0xffff0fc0, 0xffff0fa0, 0xffff0f60, 0xffff0ffc
CC = "eq|ne|cs|hs|cc|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le"


class Arm(Mixin, Risc):
    W = 32
    FLAGCLOB = {"cc": FL}
    # the program counter is an operand of control flow only
    SCRATCH = frozenset(("r15",))

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        t = cfg.target
        self.thumb = t.startswith("thumb")
        self.v8 = "v8" in self.feat or t.startswith(("thumbv8", "armv8", "armeb-"))
        self.m = re.search(r"v\d+m|v8m", t) is not None
        self.kuser = "linux" in t or "android" in t
        self.v6 = not re.match(r"(arm|thumb)(eb)?v[45]", t)
        # 64-bit LDRD/STRD are single-copy atomic only with LPAE, which no supported target guarantees
        self.pair = frozenset(("tear4",))
        if self.v8:
            # ARMv8 is multi-copy atomic and its compilers use RCsc acquire/release instructions
            self.model = {"mca": True, "std": (S(True, False, (), ("rcsc",)), S(False, True, ("rcsc",), ()),
                                              S(True, True, ("rcsc",), ("rcsc",)))}
        else:
            # load; barrier -- barrier; store; barrier -- barrier; rmw; barrier
            self.model = {"mca": False, "std": (S(True, False, ("full",), ()), S(False, True, ("full",), ("full",)),
                                               S(True, True, ("full",), ("full",)))}

    def sem_key(self):
        v1 = re.match(r"thumbv(6m|8m\.base|4t|5te)", self.cfg.target) is not None
        return ("arm", self.BIG, self.thumb, v1, self.v8, self.m, self.kuser, self.v6)

    # environments: kernels before 3.1 lack the 64-bit helper
    def worlds(self):
        if self.kuser and not self.v6:
            return [{"kuver": v, "absolute": {VERSION: self.cut(vconst(v, 32))}} for v in (5, 4)]
        return [{"kuver": 5}]

    def allowed_panic(self, e, st):
        return e.flags.get("kuver", 5) < 5 and e.size == 8

    def view(self, name):
        v = VIEWS.get(name)
        if v is None:
            raise Undecided("register `%s`" % name)
        return v

    def width(self, ph):
        return 1 if ph in FL else 32

    def pool(self, cons, ty):
        if cons in ("r", "l"):
            v1 = self.thumb and re.match(r"thumbv(6m|8m\.base|4t|5te)", self.cfg.target)
            return LOW if cons == "l" or v1 else POOL
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return self.view(reg)[0]

    def strip_comment(self, s):
        return re.sub(r"//.*|@.*|/\*.*?\*/", "", s)

    def mem(self, run, st, s):
        m = re.fullmatch(r"\[\s*(\w+)\s*(?:,\s*#?(-?\w+)\s*)?\]", s)
        if not m:
            raise Undecided("address `%s`" % s)
        return self.offset(run, st, run.r(st, m[1]), int(m[2] or "0", 0))

    def setf(self, run, st, a, b):
        c = run.e.ctx
        r, carry = c.sub(a, b)
        run.w(st, "zf", (c.neq(a, b) ^ 1,))
        run.w(st, "nf", (r[-1],))
        run.w(st, "cf", (carry,))
        run.w(st, "vf", (c.and_(c.xor(a[-1], b[-1]), c.xor(a[-1], r[-1])),))
        return r

    def logicf(self, run, st, r):
        run.w(st, "zf", (run.e.ctx.nonzero(r) ^ 1,))
        run.w(st, "nf", (r[-1],))

    def cond(self, run, st, cc):
        c = run.e.ctx
        f = lambda n: run.r(st, n)[0]
        inv = 0
        if cc in ("ne", "cc", "lo", "pl", "vc", "ls", "lt", "le"):
            inv = 1
            cc = {"ne": "eq", "cc": "cs", "lo": "cs", "pl": "mi", "vc": "vs", "ls": "hi", "lt": "ge", "le": "gt"}[cc]
        r = {"eq": lambda: f("zf"), "cs": lambda: f("cf"), "hs": lambda: f("cf"), "mi": lambda: f("nf"),
             "vs": lambda: f("vf"), "hi": lambda: c.and_(f("cf"), f("zf") ^ 1),
             "ge": lambda: c.xor(f("nf"), f("vf")) ^ 1,
             "gt": lambda: c.and_(f("zf") ^ 1, c.xor(f("nf"), f("vf")) ^ 1)}[cc]()
        return st.facts.norm(r) ^ inv

    def op2(self, run, st, ops):
        """Flexible second operand."""
        if ops[0] in VIEWS:
            v = run.r(st, ops[0])
        else:
            v = vconst(self.imm(ops[0]) & 0xffffffff, 32)
        if len(ops) > 1:
            p = ops[1].split()
            v = self.shift(run, st, p[0], v, p[1])
        return v

    def shift(self, run, st, kind, v, amount):
        if amount in VIEWS:
            k = const(st.facts.vnorm(run.r(st, amount))[:8])
            if k is None:
                raise Undecided("variable shift")
        else:
            k = self.imm(amount)
        if kind == "ror":
            return rotl(v, -(k % 32))
        if k >= 32:
            return (v[-1],) * 32 if kind == "asr" else (0,) * 32
        return {"lsl": shl, "lsr": shr, "asr": sar}[kind](v, k)

    def size(self, sfx):
        return {"b": 1, "h": 2, "": 4, "d": 8}[sfx]

    def pairs(self, ops, a, b, text):
        x, y = int(self.phys(ops[a])[1:]), int(self.phys(ops[b])[1:])
        if x == y:
            raise Bad("contract", "`%s` names one register twice" % text)
        if not self.thumb and (x % 2 or y != x + 1):
            raise Undecided("`%s` needs an even/odd register pair" % text)

    def two(self, run, st, ops, bs):
        run.w(st, ops[0], self.join(bs[:4]))
        run.w(st, ops[1], self.join(bs[4:]))

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w = run.w
        if mn.endswith((".w", ".n")):
            mn = mn[:-2]
        if mn == "nop":
            return None
        if mn == "b":
            return [(st, run.label(pc, ops[0]))]
        m = re.fullmatch("b(%s)" % CC, mn)
        if m:
            return run.branch(st, self.cond(run, st, m[1]), ops[0], pc)
        if mn in ("cbz", "cbnz"):
            l = c.nonzero(run.r(st, ops[0]))
            return run.branch(st, l ^ (mn == "cbz"), ops[1], pc)
        if mn in ("dmb", "dsb"):
            k = ops[0].lower() if ops else "sy"
            if k in ("ish", "sy"):
                st.fence(info=mn)
            elif k in ("ishld", "ld"):
                st.fence(("RR", "RW"), mn + " ld")
            elif k in ("ishst", "st"):
                st.fence(("WW",), mn + " st")
            else:
                raise Bad("order", "a barrier limited to `%s` does not order accesses of other cores" % k)
            return None
        if mn == "isb":
            st.ev.append(Ev("I", info="isb"))
            return None
        if mn == "mcr":
            args = [x.lstrip("#") for x in ops]
            if args[:2] != ["p15", "0"] or args[3:] not in (["c7", "c10", "5"], ["c7", "c10", "4"], ["c7", "c5", "4"]):
                raise Undecided("instruction `%s`" % ins.text)
            if const(st.facts.vnorm(run.r(st, ops[2]))) != 0:
                raise Bad("contract", "the register of a CP15 barrier should be zero")
            if args[3] == "c7" and args[4] == "c5":
                st.ev.append(Ev("I", info="isb"))
            else:
                st.fence(info="cp15 barrier")
            return None
        if mn == "clrex":
            st.mon = None
            return None
        if mn in ("bx", "blx"):
            return self.helper(run, st, ins, pc)
        m = re.fullmatch(r"(ldrex|ldaex)([bhd]?)", mn)
        if m:
            n = self.size(m[2])
            a = ACQ if m[1] == "ldaex" else NO
            if n == 8:
                self.pairs(ops, 0, 1, ins.text)
                run.mem = True
                self.two(run, st, ops, st.ll(self.mem(run, st, ops[2]), 8, a))
            else:
                w(st, ops[0], zext(self.ll(run, st, ops[1], n, a), 32))
            return None
        m = re.fullmatch(r"(strex|stlex)([bhd]?)", mn)
        if m:
            n = self.size(m[2])
            a = REL if m[1] == "stlex" else NO
            self.distinct(run, st, ops[0], [o.strip("[] ") for o in ops[1:]], ins.text)
            if n == 8:
                self.pairs(ops, 1, 2, ins.text)
                bs = self.cut(run.r(st, ops[1])) + self.cut(run.r(st, ops[2]))
                run.mem = True
                outs = st.sc(self.mem(run, st, ops[3]), bs, a)
            else:
                outs = self.sc(run, st, ops[2], run.r(st, ops[1])[:8 * n], a)
            for s, ok in outs:
                w(s, ops[0], zext((s.facts.norm(ok) ^ 1,), 32))
            return [(s, pc + 1) for s, _ in outs]
        m = re.fullmatch(r"(ldr|lda)([bhd]?)", mn)
        if m and mn != "ldad":
            n = self.size(m[2])
            if n == 8:
                self.pairs(ops, 0, 1, ins.text)
                run.mem = True
                self.two(run, st, ops, st.load_bytes(self.mem(run, st, ops[2]), 8, self.pair))
            else:
                w(st, ops[0], zext(self.load(run, st, ops[1], n, ACQ if m[1] == "lda" else NO), 32))
            return None
        m = re.fullmatch(r"(str|stl)([bhd]?)", mn)
        if m and mn != "stld":
            n = self.size(m[2])
            if n == 8:
                self.pairs(ops, 0, 1, ins.text)
                run.mem = True
                st.store_bytes(self.mem(run, st, ops[2]), self.cut(run.r(st, ops[0])) + self.cut(run.r(st, ops[1])),
                               self.pair)
            else:
                self.store(run, st, ops[1], run.r(st, ops[0])[:8 * n], REL if m[1] == "stl" else NO)
            return None
        m = re.fullmatch(r"(swp)(b?)", mn)
        if m:
            raise Undecided(ins.text)
        return self.alu(run, st, ins, mn, ops, pc)

    def alu(self, run, st, ins, mn, ops, pc):
        c = run.e.ctx
        if mn in ("cmp", "cmn"):
            if mn == "cmn":
                raise Undecided(ins.text)
            self.setf(run, st, run.r(st, ops[0]), self.op2(run, st, ops[1:]))
            return None
        if mn in ("tst", "teq"):
            f = c.vand if mn == "tst" else c.vxor
            self.logicf(run, st, f(run.r(st, ops[0]), self.op2(run, st, ops[1:])))
            return None
        if mn in ("uxtb", "uxth", "sxtb", "sxth"):
            k = 8 if mn[3] == "b" else 16
            v = run.r(st, ops[1])[:k]
            run.w(st, ops[0], zext(v, 32) if mn[0] == "u" else sext(v, 32))
            return None
        base, s = (mn[:-1], True) if mn.endswith("s") and mn not in ("bics",) or mn == "bics" else (mn, False)
        if base in ("mov", "mvn", "movw"):
            if ops[1:] == ["pc"] and base == "mov":
                if self.thumb or s:
                    raise Undecided(ins.text)
                run.w(st, ops[0], c.fresh(32, "pc"))
                st.x["ret"] = (self.phys(ops[0]), pc + 2)
                return None
            v = self.op2(run, st, ops[1:])
            if base == "mvn":
                v = vnot(v)
            if s:
                self.logicf(run, st, v)
                run.w(st, "cf", c.fresh(1, "cf"))
            run.w(st, ops[0], v)
            return None
        if base in ("lsl", "lsr", "asr", "ror"):
            a, k = (ops[1], ops[2]) if len(ops) == 3 else (ops[0], ops[1])
            v = self.shift(run, st, base, run.r(st, a), k)
            if s:
                self.logicf(run, st, v)
                run.w(st, "cf", c.fresh(1, "cf"))
            run.w(st, ops[0], v)
            return None
        if base in ("add", "sub", "rsb", "and", "orr", "eor", "bic", "orn"):
            rest = ops[1:] if len(ops) > 2 and not re.match(r"(lsl|lsr|asr|ror)\b", ops[2]) else ops
            a, b = run.r(st, rest[0]), self.op2(run, st, rest[1:])
            if s and base in ("sub", "rsb"):
                r = self.setf(run, st, *((a, b) if base == "sub" else (b, a)))
            else:
                r = {"add": lambda: c.add(a, b)[0], "sub": lambda: c.sub(a, b)[0], "rsb": lambda: c.sub(b, a)[0],
                     "and": lambda: c.vand(a, b), "orr": lambda: c.vor(a, b), "eor": lambda: c.vxor(a, b),
                     "bic": lambda: c.vand(a, vnot(b)), "orn": lambda: c.vor(a, vnot(b))}[base]()
                if s:
                    if base == "add":
                        raise Undecided(ins.text)
                    self.logicf(run, st, r)
                    run.w(st, "cf", c.fresh(1, "cf"))
            run.w(st, ops[0], r)
            return None
        raise Undecided("instruction `%s`" % ins.text)

    # Linux kernel user helpers -----------------------------------------------------------
    def helper(self, run, st, ins, pc):
        c = run.e.ctx
        e = run.e
        target = const(st.facts.vnorm(run.r(st, ins.ops[0])))
        if ins.mn == "bx":
            ret = st.x.pop("ret", None)
            if ret is None or ret[0] != "r14" or ret[1] != pc + 1:
                raise Undecided("`%s` without a return address" % ins.text)
        elif not self.thumb:
            run.w(st, "lr", c.fresh(32, "lr"))
        if not self.kuser or self.m:
            raise Bad("contract", "a kernel user helper is called on a target that has none")
        junk = lambda s, regs: [run.w(s, r, c.fresh(self.width(self.view(r)[0]), "junk")) for r in regs]
        run.mem = True
        if target == BARRIER:
            st.fence(info="kuser_memory_barrier")
            return None
        if target == CMPXCHG:
            old, new = self.cut(run.r(st, "r0")), self.cut(run.r(st, "r1"))
            return self.helper_cas(run, st, pc, run.r(st, "r2"), 4, old, new, ("r3", "ip", "lr") + FL, junk)
        if target == CMPXCHG64:
            e.flags["world_read"] = True
            if e.flags.get("kuver", 0) < 5:
                raise Bad("contract", "the 64-bit kernel helper is called on a kernel that may lack it")
            old = st.load_bytes(run.r(st, "r0"), 8)
            new = st.load_bytes(run.r(st, "r1"), 8)
            return self.helper_cas(run, st, pc, run.r(st, "r2"), 8, old, new, ("r3", "lr") + FL, junk)
        raise Undecided("call of an unknown address (`%s`)" % ins.text)

    def helper_cas(self, run, st, pc, addr, n, old, new, clob, junk):
        c = run.e.ctx
        spur = st.copy()
        st.fence(info="kernel helper")
        outs = [(s, s.facts.eval(ok)) for s, ok, _ in st.cmpxchg(addr, n, old, new, NO)]
        # the documentation does not exclude failures without a change of the memory
        spur.ev.append(Ev("SCFAIL", off=0, size=n))
        outs.append((spur, 0))
        res = []
        for s, ok in outs:
            s.fence(info="kernel helper")
            junk(s, clob)
            if ok:
                run.w(s, "r0", vconst(0, 32))
            else:
                r0 = c.fresh(32, "r0")
                run.w(s, "r0", r0)
                s.facts.assume(c.nonzero(r0))
            run.w(s, "cf", (1 if ok else 0,))
            res.append((s, pc + 1))
        return res
