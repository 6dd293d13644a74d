"""Ordering rules: what makes an access acquire, release or sequentially consistent on each memory model.

A model is a dict:
  mca: stores become visible to all other agents at once (multi-copy atomic)
  std: order summaries of the compiler's own SeqCst atomics on this architecture, which user code mixes with ours
"""

RRRW = frozenset(("RR", "RW"))
RWWW = frozenset(("RW", "WW"))


def index(evs, ev):
    for i, x in enumerate(evs):
        if x is ev:
            return i
    return -1


def after(evs, i):
    m = set()
    for ev in evs[i + 1:]:
        if ev.kind == "F":
            m |= ev.mask
    return m


def before(evs, i):
    m = set()
    for ev in evs[:i]:
        if ev.kind == "F":
            m |= ev.mask
    return m


def read_pos(evs, ev):
    """Index of the access that performed the read half."""
    if ev.rpos is not None:
        for i, x in enumerate(evs):
            if x.kind == "R" and x.rid == ev.rid:
                return i
    return index(evs, ev)


def ctrl_isync(e, evs, ev, i):
    """A conditional branch depending on the read (or on the success of its paired store), then a
    context-synchronising instruction: later accesses cannot start before the read is done."""
    dep = set()
    for b in ev.old or ():
        for l in b:
            dep |= e.ctx.supp(l)
    if ev.wcond is not None:
        dep.add(ev.wcond)
    armed = False
    for x in evs[i + 1:]:
        if x.kind == "B" and x.supp & dep:
            armed = True
        elif x.kind == "I" and armed:
            return True
    return False


def acquire(m, e, evs, ev):
    i = read_pos(evs, ev)
    j = index(evs, ev)
    if "acq" in evs[i].attr or "acq" in ev.attr:
        return True
    if RRRW <= after(evs, i):
        return True
    return ctrl_isync(e, evs, ev, i) or (j != i and ctrl_isync(e, evs, ev, j))


def release(m, e, evs, ev):
    if "rel" in ev.attr:
        return True
    return RWWW <= before(evs, index(evs, ev))


def summary(m, e, evs, rd, wr):
    """How a SeqCst operation is ordered against other SeqCst operations:
    (reads?, writes?, how later operations are held back, how it is held back itself)"""
    first = read_pos(evs, rd) if rd is not None else index(evs, wr)
    last = index(evs, wr) if wr is not None else index(evs, rd)
    lead, trail = set(), set()
    if "WR" in before(evs, first):
        lead.add("full")
    if "WR" in after(evs, last):
        trail.add("full")
    ra = evs[first].attr
    wa = evs[last].attr if wr is not None else frozenset()
    if "full" in ra:
        lead.add("full")
        if rd is not None and wr is None:
            trail.add("full")
    if "full" in wa:
        trail.add("full")
        lead.add("full")
    # an earlier acquire read of the same operation holds everything after it back
    if rd is not None and any(x.kind in ("R", "RMW") and "rcsc" in x.attr and "acq" in x.attr for x in evs[:first + 1]):
        lead.add("rcsc")
    if wr is not None and "rcsc" in wa and "rel" in wa:
        trail.add("rcsc")
    return (rd is not None, wr is not None, frozenset(trail), frozenset(lead))


def sc_pair(m, x, y):
    """x then y in program order, both SeqCst, different objects: is their order kept?"""
    xr, xw, xt, _ = x
    yr, yw, _, yl = y
    if "full" in xt or "full" in yl:
        return True
    if m["mca"]:
        # only a write followed by a read needs more than acquire/release
        if not xw or not yr:
            return True
        return "rcsc" in xt and "rcsc" in yl
    return False
