"""Shared parts of the load/store architectures."""

from ..asmcore import Arch
from ..bits import const, sext, vconst, zext
from ..llir import Undecided
from ..machine import Bad, Ev

ACQ = frozenset(("acq",))
REL = frozenset(("rel",))
NONE = frozenset()


class Risc(Arch):
    W = 32                 # register width
    BIG = False
    LOADATTR = STOREATTR = NONE

    def __init__(self, cfg):
        self.cfg = cfg
        self.BIG = cfg.endian == "big"
        self.feat = set(x[1:] for x in cfg.features.split(",") if x.startswith("+"))

    def imm(self, s):
        t = s.lstrip("#").strip()
        try:
            return int(t, 0)
        except ValueError:
            raise Undecided("operand `%s`" % s)

    def val(self, run, st, s, n=None):
        """Register or immediate operand."""
        try:
            self.view(s)
        except Undecided:
            return vconst(self.imm(s), n or self.W)
        return run.r(st, s)

    # bytes <-> register bits
    def join(self, bs):
        return tuple(x for b in (reversed(bs) if self.BIG else bs) for x in b)

    def cut(self, bits):
        bs = [bits[i:i + 8] for i in range(0, len(bits), 8)]
        return bs[::-1] if self.BIG else bs

    def offset(self, run, st, base, k):
        a = st.facts.vnorm(base)
        if k:
            a = run.e.ctx.add(a, vconst(k, len(a)))[0]
        return a

    def mem(self, run, st, s):
        """Address of a memory operand."""
        raise NotImplementedError

    def load(self, run, st, s, n, attr=NONE):
        run.mem = True
        return self.join(st.load_bytes(self.mem(run, st, s), n, self.LOADATTR | attr))

    def store(self, run, st, s, bits, attr=NONE):
        run.mem = True
        st.store_bytes(self.mem(run, st, s), self.cut(bits), self.STOREATTR | attr)

    def ll(self, run, st, s, n, attr=NONE):
        run.mem = True
        return self.join(st.ll(self.mem(run, st, s), n, self.LOADATTR | attr))

    def sc(self, run, st, s, bits, attr=NONE):
        """[(state, success literal)]"""
        run.mem = True
        return st.sc(self.mem(run, st, s), self.cut(bits), self.STOREATTR | attr)

    def rmw(self, run, st, s, n, fn, attr=NONE):
        run.mem = True
        return self.join(st.rmw(self.mem(run, st, s), n, lambda old: self.cut(fn(self.join(old))), attr))

    def distinct(self, run, st, out, ins, text):
        """Registers an instruction requires to be different."""
        ph = self.phys(out)
        for i in ins:
            q = self.phys(i)
            if q is None or ph is None:
                continue
            if q == ph:
                raise Bad("contract", "`%s` needs different registers" % text)
            o, x = run.late.get(ph), run.inputs.get(q)
            if o is not None and x is not None and self.may_share(o, x):
                raise Bad("contract", "`%s` needs different registers, but an output that is not early-clobber may "
                                      "share a register with an input" % text)

    def shamt(self, st, bits, n):
        k = const(st.facts.vnorm(bits))
        return None if k is None else k % n

    def nop(self, mn):
        return mn == "nop"
