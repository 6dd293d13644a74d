"""Hexagon."""

import re

from ..bits import const, sar, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import Bad
from .base import Mixin, S
from .risc import Risc

SIZE = {"b": 1, "h": 2, "w": 4, "d": 8}
SC = frozenset(("acq", "rel", "full"))
R = r"(r\d+)"
RR = r"(r\d+:\d+)"
V = r"(r\d+|#-?\w+)"


class Hexagon(Mixin, Risc):
    COMMENT = re.compile(r"//.*|/\*.*?\*/")
    SEMI = True
    # hardware threads issue in order and share their caches: every access takes effect in program order
    LOADATTR = STOREATTR = SC

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = 32
        self.model = {"mca": True, "std": (S(True, False, ("full",), ("full",)), S(False, True, ("full",), ("full",)),
                                          S(True, True, ("full",), ("full",)))}

    def sem_key(self):
        return ()

    def split(self, line):
        """One instruction per line; braces group a packet."""
        t = line.replace("{", " ").replace("}", " ").strip().lower()
        return [(re.sub(r"\s*([=,():])\s*", r"\1", re.sub(r"\s+", " ", t)), [line])] if t else []

    def view(self, name):
        n = name.lower()
        n = {"sp": "r29", "fp": "r30", "lr": "r31"}.get(n, n)
        m = re.fullmatch(r"r(\d+)", n)
        if m and int(m[1]) < 32:
            return (n, 0, 32)
        if re.fullmatch(r"p[0-3]", n):
            return (n, 0, 8)
        raise Undecided("register `%s`" % name)

    def width(self, ph):
        return 8 if ph[0] == "p" else 32

    def pool(self, cons, ty):
        if cons == "r":
            return ["r%d" % i for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 28, 16, 17, 18, 19, 20)]
        raise Undecided("constraint `%s`" % cons)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def named(self, ins, templ):
        t = re.sub(r"\$\{[^}]*\}|\$\d+", " ", templ)
        s = super().named(ins, templ)
        for a, b in re.findall(r"\br(\d+):(\d+)", t):
            s |= {"r" + a, "r" + b}
        return s

    def pair(self, s):
        """(high, low) of an aligned register pair."""
        m = re.fullmatch(r"r(\d+):(\d+)", s)
        if not m or int(m[1]) != int(m[2]) + 1 or int(m[2]) % 2:
            raise Bad("contract", "`%s` is not a register pair" % s)
        return "r" + m[1], "r" + m[2]

    def rd(self, run, st, s):
        if s.startswith("#"):
            return vconst(self.imm(s) & 0xffffffff, 32)
        if ":" in s:
            h, l = self.pair(s)
            return run.r(st, l) + run.r(st, h)
        return run.r(st, s)

    def wr(self, run, st, s, v):
        if ":" in s:
            h, l = self.pair(s)
            run.w(st, l, v[:32])
            run.w(st, h, v[32:])
        else:
            run.w(st, s, zext(v, 32))

    def mem(self, run, st, s):
        m = re.fullmatch(R + r"(?:\+#(-?\w+))?", s)
        if not m:
            raise Undecided("address `%s`" % s)
        return self.offset(run, st, run.r(st, m[1]), int(m[2], 0) & 0xffffffff if m[2] else 0)

    def check(self, run, prog):
        """Instructions of one packet execute together: none may read what another of them writes, except
        a predicate through `.new`."""
        wrote, inside = set(), False
        for ins in prog:
            line = ins.ops[0]
            if "{" in line:
                wrote, inside = set(), True
            if not inside:
                wrote = set()
            t = ins.mn
            m = re.match(r"(r\d+:\d+|[rp]\d+)=", t)
            dst = m[1] if m else None
            src = set(re.findall(r"\b[rp]\d+\b(?!\.new)", t[m.end():] if m else t))
            for a, b in re.findall(r"r(\d+):(\d+)", t[m.end():] if m else t):
                src |= {"r" + a, "r" + b}
            new = set(re.findall(r"\b(p\d)\.new", t))
            if src & wrote:
                raise Undecided("packet whose instructions depend on each other: %s" % line)
            if new - wrote:
                raise Bad("contract", "`%s` uses a new value that its packet does not produce" % line)
            if inside and dst:
                wrote |= {"r" + x for x in re.findall(r"\d+", dst)} if dst[0] == "r" else {dst}
            if "_locked(" in t and m is None:
                wrote |= set(re.findall(r",(p\d)\)", t))
            if "}" in line:
                inside, wrote = False, set()

    def step(self, run, st, ins, pc):
        t = ins.mn
        c = run.e.ctx
        if t == "nop":
            return None
        m = re.fullmatch(r"jump (\w+)", t)
        if m:
            return [(st, run.label(pc, m[1]))]
        m = re.fullmatch(r"if ?\((!?)(p\d)(?:\.new)?\) ?jump(?::n?t)? (\w+)", t)
        if m:
            l = run.r(st, m[2])[0] ^ (m[1] == "!")
            return run.branch(st, l, m[3], pc)
        m = re.fullmatch(r"(p\d)=(!?)cmp\.eq\(%s,%s\)" % (R, V), t)
        if m:
            l = c.neq(run.r(st, m[3]), self.rd(run, st, m[4])) ^ (m[2] != "!")
            run.w(st, m[1], (l,) * 8)
            return None
        m = re.fullmatch(r"(?:%s|%s)=mem([wd])_locked\(%s\)" % (RR, R, R), t)
        if m:
            n = SIZE[m[3]]
            if (n == 8) != (m[1] is not None):
                raise Undecided("instruction `%s`" % ins.text)
            self.wr(run, st, m[1] or m[2], self.ll(run, st, m[4], n))
            return None
        m = re.fullmatch(r"mem([wd])_locked\(%s,(p\d)\)=(?:%s|%s)" % (R, RR, R), t)
        if m:
            n = SIZE[m[1]]
            if (n == 8) != (m[4] is not None):
                raise Undecided("instruction `%s`" % ins.text)
            outs = self.sc(run, st, m[2], self.rd(run, st, m[4] or m[5]))
            for s, ok in outs:
                run.w(s, m[3], (s.facts.norm(ok),) * 8)
            return [(s, pc + 1) for s, _ in outs]
        m = re.fullmatch(r"(?:%s|%s)=mem(u?)([bhwd])\((.+)\)" % (RR, R), t)
        if m:
            n = SIZE[m[4]]
            if (n == 8) != (m[1] is not None) or (m[3] and n > 2):
                raise Undecided("instruction `%s`" % ins.text)
            v = self.load(run, st, m[5], n)
            self.wr(run, st, m[1] or m[2], v if n >= 4 else zext(v, 32) if m[3] else sext(v, 32))
            return None
        m = re.fullmatch(r"mem([bhwd])\(([^)]+)\)=(?:%s|%s)" % (RR, R), t)
        if m:
            n = SIZE[m[1]]
            if (n == 8) != (m[3] is not None):
                raise Undecided("instruction `%s`" % ins.text)
            self.store(run, st, m[2], self.rd(run, st, m[3] or m[4])[:8 * n])
            return None
        m = re.fullmatch(r"(r\d+)=(and|or|xor|add|sub)\(%s,(~?)%s\)" % (V, V), t)
        if m:
            a, b = self.rd(run, st, m[3]), self.rd(run, st, m[5])
            if m[4]:
                if m[2] not in ("and", "or"):
                    raise Undecided("instruction `%s`" % ins.text)
                b = vnot(b)
            v = {"and": c.vand, "or": c.vor, "xor": c.vxor}[m[2]](a, b) if m[2] in ("and", "or", "xor") else \
                (c.add if m[2] == "add" else c.sub)(a, b)[0]
            run.w(st, m[1], v)
            return None
        m = re.fullmatch(r"(r\d+)=(asl|asr|lsr|lsl)\(%s,%s\)" % (R, V), t)
        if m:
            k = const(st.facts.vnorm(self.rd(run, st, m[4])[:7]))
            if k is None or k >= 64:
                raise Undecided("variable shift")
            f = {"asl": shl, "lsl": shl, "asr": sar, "lsr": shr}[m[2]]
            run.w(st, m[1], f(run.r(st, m[3]), k))
            return None
        m = re.fullmatch(r"(r\d+:\d+|r\d+)=(r\d+:\d+|r\d+|#-?\w+)", t)
        if m and (":" in m[1]) == (":" in m[2]):
            self.wr(run, st, m[1], self.rd(run, st, m[2]))
            return None
        raise Undecided("instruction `%s`" % ins.text)
