"""s390x (z/Architecture)."""

import re

from ..bits import const, rotl, sext, shl, shr, vconst, vnot, zext
from ..llir import Undecided
from ..machine import Bad
from .base import Mixin, S
from .risc import Risc

POOL = ["%r2", "%r3", "%r4", "%r5", "%r1", "%r0", "%r14", "%r6", "%r7", "%r8", "%r9", "%r10", "%r12", "%r13"]
FULLATTR = frozenset(("acq", "rel", "full", "tso"))
# condition codes each extended mnemonic branches on (bit 3 = cc 0 ... bit 0 = cc 3)
COND = {"o": 1, "h": 2, "nle": 3, "l": 4, "nhe": 5, "lh": 6, "ne": 7, "e": 8, "nlh": 9, "he": 10, "nl": 11, "le": 12,
        "nh": 13, "no": 14, "z": 8, "nz": 7, "m": 4, "nm": 11, "p": 2, "np": 13}


class S390(Mixin, Risc):
    W = 64
    COMMENT = re.compile(r"#.*|//.*|/\*.*?\*/")
    FLAGCLOB = {"cc": ("cc",)}
    # storage accesses are ordered except a store followed by a fetch
    LOADATTR = frozenset(("acq", "tso"))
    STOREATTR = frozenset(("rel", "tso"))

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        # l -- st; bcr -- cs
        self.model = {"mca": True, "std": (S(True, False), S(False, True, ("full",), ()),
                                          S(True, True, ("full",), ("full",)))}

    def sem_key(self):
        return ()

    def view(self, name):
        if name == "cc":
            return ("cc", 0, 2)
        name = name.lstrip("%")
        if not re.fullmatch(r"r(\d|1[0-5])", name):
            raise Undecided("register `%s`" % name)
        return (name, 0, 64)

    def width(self, ph):
        return 2 if ph == "cc" else 64

    def clobber(self, c):
        return "cc" if c == "cc" else super().clobber(c)

    def pool(self, cons, ty):
        if cons == "r":
            return POOL
        if cons == "a":
            return [x for x in POOL if x != "%r0"]
        raise Undecided("constraint `%s`" % cons)

    def may_share(self, out, inp):
        return not (out.explicit and inp.explicit)

    def fmt(self, reg, mod, ty):
        if mod:
            raise Undecided("operand modifier `%s`" % mod)
        return reg

    def base(self, run, st, s, text):
        ph = self.phys(s)
        if ph == "r0":
            return vconst(0, 64)
        for x in run.ops:
            if x.reg == s and not x.explicit and x.tied is None and x.cons == "r":
                raise Bad("contract", "`%s` uses a register that may be %%r0 as a base address: %%r0 reads as zero there" % text)
        return run.r(st, s)

    def ea(self, run, st, s, text):
        """D(X,B), D(B) or D."""
        m = re.fullmatch(r"(-?\w*)\s*(?:\(\s*(%?r\d+)\s*(?:,\s*(%?r\d+)\s*)?\))?", s)
        if not m or not s:
            raise Undecided("address `%s`" % s)
        a = vconst(int(m[1] or "0", 0) & ((1 << 64) - 1), 64)
        for x in (m[2], m[3]):
            if x:
                a = st.facts.vnorm(run.e.ctx.add(st.facts.vnorm(self.base(run, st, x, text)), a)[0])
        return a

    def pair(self, s, text):
        n = int(self.phys(s)[1:])
        if n % 2:
            raise Bad("contract", "`%s` needs an even register" % text)
        return s, re.sub(r"\d+$", str(n + 1), s)

    def cc(self, run, st, one, two):
        """Condition code: bit 0, bit 1."""
        run.w(st, "cc", (one, two))

    def low(self, run, st, reg, bits):
        """Write the low word only."""
        run.w(st, reg, bits[:32] + run.r(st, reg)[32:])

    def step(self, run, st, ins, pc):
        mn, ops = ins.mn, ins.ops
        c = run.e.ctx
        w, r = run.w, run.r
        if mn in ("nop", "nopr"):
            return None
        if mn in ("bcr", "br"):
            k = self.imm(ops[0]) if mn == "bcr" and self.phys0(ops[1]) == 0 else None
            if k in (14, 15):
                st.fence(info=ins.text)
                return None
            if k == 0:
                return None
            raise Undecided("instruction `%s`" % ins.text)
        if mn in ("j", "jg"):
            return [(st, run.label(pc, ops[0]))]
        m = re.fullmatch(r"jg?(\w+)", mn)
        if m and m[1] in COND or mn in ("brc", "brcl"):
            mask = COND[m[1]] if m else self.imm(ops[0])
            if mask == 15:
                return [(st, run.label(pc, ops[-1]))]
            b0, b1 = r(st, "cc")
            lit = 0
            for k in range(4):
                if mask >> (3 - k) & 1:
                    lit = c.or_(lit, c.and_(b0 ^ (1 - (k & 1)), b1 ^ (1 - (k >> 1))))
            if mask in (6, 7, 8, 9):
                # cc 3 does not come out of a comparison or compare-and-swap
                lit = c.or_(b0, b1) ^ (mask in (8, 9))
            if mask == 4 and st.facts.norm(b1) == 0:
                lit = b0
            return run.branch(st, lit, ops[-1], pc)
        # loads
        m = re.fullmatch(r"(l|lg|ly|lb|lh|lhy|lgb|lgh|lgf|llc|llh|llgc|llgh|llgf|lrl|lt|ltg)", mn)
        if m and "(" in ops[1]:
            n, wide, sx = {"l": (4, 0, 0), "ly": (4, 0, 0), "lg": (8, 1, 0), "lb": (1, 0, 1), "lh": (2, 0, 1),
                           "lhy": (2, 0, 1), "lgb": (1, 1, 1), "lgh": (2, 1, 1), "lgf": (4, 1, 1), "llc": (1, 0, 0),
                           "llh": (2, 0, 0), "llgc": (1, 1, 0), "llgh": (2, 1, 0), "llgf": (4, 1, 0)}[mn]
            run.mem = True
            v = self.join(st.load_bytes(self.ea(run, st, ops[1], ins.text), n, self.LOADATTR))
            v = (sext if sx else zext)(v, 64)
            if wide:
                w(st, ops[0], v)
            else:
                self.low(run, st, ops[0], v)
            return None
        if mn == "lpq":
            run.mem = True
            hi, lo = self.pair(ops[0], ins.text)
            v = self.join(st.load_bytes(self.ea(run, st, ops[1], ins.text), 16, self.LOADATTR))
            w(st, hi, v[64:])
            w(st, lo, v[:64])
            return None
        m = re.fullmatch(r"st(c|h|g|y|cy|hy)?", mn)
        if m:
            n = {"": 4, "y": 4, "c": 1, "cy": 1, "h": 2, "hy": 2, "g": 8}[m[1] or ""]
            run.mem = True
            st.store_bytes(self.ea(run, st, ops[1], ins.text), self.cut(r(st, ops[0])[:8 * n]), self.STOREATTR)
            return None
        if mn == "stpq":
            run.mem = True
            hi, lo = self.pair(ops[0], ins.text)
            st.store_bytes(self.ea(run, st, ops[1], ins.text), self.cut(r(st, lo) + r(st, hi)), self.STOREATTR)
            return None
        if mn in ("cs", "csy", "csg", "cdsg"):
            n = {"csg": 8, "cdsg": 16}.get(mn, 4)
            run.mem = True
            a = self.ea(run, st, ops[2], ins.text)
            if n == 16:
                (h1, l1), (h2, l2) = self.pair(ops[0], ins.text), self.pair(ops[1], ins.text)
                old, new = r(st, l1) + r(st, h1), r(st, l2) + r(st, h2)
            else:
                old, new = r(st, ops[0])[:8 * n], r(st, ops[1])[:8 * n]
            res = []
            for s, ok, got in st.cmpxchg(a, n, self.cut(old), self.cut(new), FULLATTR, FULLATTR):
                ok = s.facts.norm(ok)
                self.cc(run, s, ok ^ 1, 0)
                # the register is loaded only on failure, with a value equal to the compared one otherwise
                v = self.join(got)
                if ok != 1:
                    if n == 16:
                        w(s, h1, v[64:])
                        w(s, l1, v[:64])
                    elif n == 8:
                        w(s, ops[0], v)
                    else:
                        self.low(run, s, ops[0], v)
                res.append((s, pc + 1))
            return res
        if mn == "ipm":
            v = r(st, ops[0])
            cc = r(st, "cc")
            w(st, ops[0], v[:24] + c.fresh(4, "junk") + cc + (0, 0) + v[32:])
            return None
        if mn in ("cr", "cgr", "clr", "clgr"):
            n = 64 if "g" in mn else 32
            a, b = r(st, ops[0])[:n], r(st, ops[1])[:n]
            ne = c.neq(a, b)
            lt = c.fresh(1, "junk")[0]
            self.cc(run, st, c.and_(ne, lt), c.and_(ne, lt ^ 1))
            return None
        m = re.fullmatch(r"(rll|rllg|sllk|srlk|sllg|srlg|sll|srl)", mn)
        if m:
            n = 64 if mn.endswith("g") else 32
            if mn in ("sll", "srl"):
                ops = [ops[0], ops[0], ops[1]]
            k = const(st.facts.vnorm(self.ea(run, st, ops[2], ins.text)[:6]))
            if k is None:
                raise Undecided("variable shift")
            f = {"r": rotl, "sl": shl, "sr": shr}["r" if mn[0] == "r" else mn[:2]]
            v = f(r(st, ops[1])[:n], k % n if f is rotl else k)
            if n == 64:
                w(st, ops[0], v)
            else:
                self.low(run, st, ops[0], v)
            return None
        if mn in ("risbg", "risbgn"):
            i3, i4, i5 = [self.imm(x) for x in (ops[2:] + ["0"])[:3]]
            a, b = r(st, ops[0]), rotl(r(st, ops[1]), i5 & 63)
            s, e, z = i3 & 63, i4 & 63, i4 & 128
            sel = set(range(s, e + 1)) if s <= e else set(range(s, 64)) | set(range(e + 1))
            w(st, ops[0], tuple(b[k] if 63 - k in sel else 0 if z else a[k] for k in range(64)))
            if mn == "risbg":
                self.cc(run, st, *c.fresh(2, "junk"))
            return None
        if mn in ("lr", "lgr"):
            if mn == "lr":
                self.low(run, st, ops[0], r(st, ops[1]))
            else:
                w(st, ops[0], r(st, ops[1]))
        elif mn in ("lhi", "lghi"):
            k = vconst(self.imm(ops[1]) & ((1 << 64) - 1), 64)
            if mn == "lhi":
                self.low(run, st, ops[0], k)
            else:
                w(st, ops[0], k)
        elif mn in ("llcr", "llhr", "lbr", "lhr", "llgcr", "llghr", "llgfr", "lgfr", "lgbr", "lghr"):
            k = {"c": 8, "b": 8, "h": 16, "f": 32}[mn[-2]]
            v = (zext if mn[1] == "l" else sext)(r(st, ops[1])[:k], 64)
            if "g" in mn:
                w(st, ops[0], v)
            else:
                self.low(run, st, ops[0], v)
        elif mn in ("nr", "or", "xr", "ngr", "ogr", "xgr", "nrk", "ork", "xrk", "ngrk", "ogrk", "xgrk"):
            a, b = (r(st, ops[1]), r(st, ops[2])) if mn[-1] == "k" else (r(st, ops[0]), r(st, ops[1]))
            v = {"n": c.vand, "o": c.vor, "x": c.vxor}[mn[0]](a, b)
            n = 64 if "g" in mn else 32
            if n == 64:
                w(st, ops[0], v)
            else:
                self.low(run, st, ops[0], v)
            self.cc(run, st, c.nonzero(v[:n]), 0)
        else:
            raise Undecided("instruction `%s`" % ins.text)
        return None

    def phys0(self, s):
        return int(s, 0) if re.fullmatch(r"\d+", s) else int(self.phys(s)[1:])
