"""Single-core targets that make wide operations atomic by masking interrupts."""

from ..llir import Undecided
from ..machine import Bad, Ev
from .base import Mixin, S
from .risc import Risc

SC = frozenset(("acq", "rel", "full"))


class Masked(Mixin, Risc):
    LOADATTR = STOREATTR = SC
    # registers keep their contents bit by bit: what the assembly computes is defined (see irexec.data_vars)
    FREEZE = True
    MASKS = True

    def __init__(self, cfg):
        Risc.__init__(self, cfg)
        self.W = cfg.ptr
        self.model = {"mca": True, "std": (S(True, False, ("full",), ("full",)), S(False, True, ("full",), ("full",)),
                                          S(True, True, ("full",), ("full",)))}

    # the interrupt-enable flag ----------------------------------------------------
    def entry(self, run):
        """The flag as it was when the operation was called."""
        return run.e.ctx.atom((("IRQ0",), 0))

    def flag(self, run, st):
        return {None: self.entry(run), "off": 0, "on": 1}[st.irq]

    def set_flag(self, run, st, lit):
        lit = st.facts.norm(lit)
        if lit == 0:
            new = "off"
        elif lit == st.facts.norm(self.entry(run)):
            new = None
        elif lit == 1:
            new = "on"
        else:
            raise Bad("irq", "the interrupt-enable flag is set to something other than its saved value")
        if new == st.irq:
            return
        st.irq = new
        st.cache = {}
        st.ev.append(Ev("IRQ", info=new or "restored"))

    def settle(self, e, st):
        """Where the caller is known to have had interrupts masked (or enabled) already, having them so is having restored them."""
        want = {"off": 0, "on": 1}.get(st.irq)
        if want is not None and st.facts.norm(e.ctx.atom((("IRQ0",), 0))) == want:
            st.irq = None
            st.cache = {}
            st.ev.append(Ev("IRQ", info="restored"))

    def group(self, e, st):
        out, sec = [], None
        for ev in st.ev:
            if ev.kind == "IRQ":
                if ev.info == "off":
                    sec = [] if sec is None else sec
                elif sec is not None:
                    out += merge(sec)
                    sec = None
                out.append(ev)
            elif sec is not None and ev.kind in ("R", "W", "RMW"):
                sec.append(ev)
            else:
                out.append(ev)
        if sec:
            out += merge(sec)
        return out

    def irq_rules(self, e, st, ended):
        self.settle(e, st)
        s = None
        for ev in st.ev:
            if ev.kind == "IRQ":
                s = None if ev.info == "restored" else ev.info
            elif ev.kind == "CALL" and s is not None:
                e.find("irq", "the caller's closure runs with the interrupt-enable flag changed")
        if s is not None:
            e.find("irq", "the operation %s with interrupts %s" %
                   (ended, "masked" if s == "off" else "enabled whatever they were before"))


def merge(sec):
    """The accesses of one masked section, as the one step they are to everyone else."""
    old, new, rid = {}, {}, None
    for ev in sec:
        if ev.old is not None:
            rid = ev.rid if rid is None else rid
            for i, b in enumerate(ev.old):
                if ev.off + i not in new:
                    old.setdefault(ev.off + i, b)
        if ev.new is not None:
            for i, b in enumerate(ev.new):
                new[ev.off + i] = b
    both = dict(old)
    both.update(new)
    if not both:
        return []
    lo, hi = min(both), max(both) + 1
    if len(both) != hi - lo or (new and set(new) - set(old) and old):
        return [ev for ev in sec]
    kind = "R" if not new else "RMW" if old else "W"
    return [Ev(kind, off=lo, size=hi - lo, attr=SC, rid=rid, old=[old[i] for i in range(lo, hi)] if old else None,
               new=[both[i] for i in range(lo, hi)] if new else None)]
