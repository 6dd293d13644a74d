"""Abstract machine state shared by the IR and the assembly interpreters."""

from .bits import Ctx, Facts, Infeasible, const, vconst
from .llir import Undecided


class Bad(Exception):
    """The path under analysis breaks a rule: (tag, message)."""

    def __init__(self, tag, msg):
        Exception.__init__(self, "%s: %s" % (tag, msg))
        self.tag, self.msg = tag, msg


class Ev:
    """One event of a path.

    kind: R read of shared memory; W write; RMW read+write in one atomic step; F fence;
    B conditional branch (supp: atoms its condition depends on); I context-synchronising instruction;
    IRQ interrupt-mask change; CALL user closure; LIB library/kernel helper call."""
    __slots__ = ("kind", "off", "size", "old", "new", "attr", "rid", "mask", "supp", "info", "rpos", "wcond", "exp")

    def __init__(self, kind, **k):
        self.kind = kind
        self.off = k.get("off")
        self.size = k.get("size")
        self.old = k.get("old")
        self.new = k.get("new")
        self.attr = k.get("attr", frozenset())
        self.rid = k.get("rid")
        self.mask = k.get("mask")
        self.supp = k.get("supp")
        self.info = k.get("info")
        self.rpos = k.get("rpos")
        self.wcond = k.get("wcond")
        self.exp = k.get("exp")      # of a failed compare-exchange: what it expected

    def __repr__(self):
        s = self.kind
        if self.off is not None:
            s += "[%d+%d]" % (self.off, self.size)
        if self.attr:
            s += "{%s}" % ",".join(sorted(map(str, self.attr)))
        if self.mask is not None:
            s += "<%s>" % ",".join(sorted(self.mask))
        if self.info is not None:
            s += "(%s)" % (self.info,)
        return s


class Region:
    __slots__ = ("name", "lo", "size", "kind", "base", "init")

    def __init__(self, name, lo, size, kind, base, init):
        self.name, self.lo, self.size, self.kind, self.base, self.init = name, lo, size, kind, base, init


FULL = frozenset(("RR", "RW", "WR", "WW"))


class Env:
    """What is fixed for one abstract execution: configuration, regions, limits."""

    def __init__(self, arch, ptr, big, size, residue):
        self.ctx = Ctx()
        self.arch = arch
        self.ptr = ptr
        self.big = big
        self.size = size
        self.residue = residue
        self.regions = {}
        self.bybase = {}
        self.findings = {}
        self.steps = 0
        self.limit = 60000
        self.asm_sites = {}
        self.asm_no = {}
        self.noted = set()
        self.flags = {}
        self.group = None      # arch.group, where accesses in a masked section are one step
        self.frozen = set()    # values assembly computed in registers: defined whatever their operands

    def region(self, name, lo, size, kind, init=None):
        base = self.ctx.atoms(("&", name), self.ptr)
        r = Region(name, lo, size, kind, base, init)
        self.regions[name] = r
        self.bybase[base[8]] = r
        return r

    def ptr_to(self, r, off=0):
        return vconst(r.lo + off, 8) + r.base[8:]

    def find(self, tag, msg):
        self.findings.setdefault((tag, msg), None)

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided("step limit reached in the abstract execution")


class State:
    __slots__ = ("e", "facts", "env", "regs", "mem", "ev", "irq", "mon", "nread", "cache", "x", "written")

    def __init__(self, e):
        self.e = e
        self.facts = Facts(e.ctx)
        self.env = {}
        self.regs = {}
        self.mem = {}
        self.ev = []
        self.irq = None        # None: interrupts as on entry; "off": masked by this code
        self.mon = None        # exclusive monitor: (off, size, event index, generation)
        self.nread = 0
        self.cache = {}        # shared bytes known while interrupts are masked
        self.x = {}            # architecture extras
        self.written = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.e = self.e
        s.facts = self.facts.copy()
        s.env = dict(self.env)
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.ev = list(self.ev)
        s.irq = self.irq
        s.mon = self.mon
        s.nread = self.nread
        s.cache = dict(self.cache)
        s.x = dict(self.x)
        s.written = self.written
        return s

    # branching -------------------------------------------------------------
    def split(self, lit):
        """[(value, state)] for the feasible values of a literal."""
        v = self.facts.eval(lit)
        if v is not None:
            return [(v, self)]
        out = []
        other = self.copy()
        try:
            self.facts.assume(lit)
            out.append((1, self))
        except Infeasible:
            pass
        try:
            other.facts.assume(lit ^ 1)
            out.append((0, other))
        except Infeasible:
            pass
        return out

    def branch_event(self, lit):
        s = self.e.ctx.supp(lit)
        if s:
            self.ev.append(Ev("B", supp=s))

    # addresses -------------------------------------------------------------
    def resolve(self, addr):
        """(region, offset relative to the region's start) of an address."""
        e = self.e
        a = self.facts.vnorm(addr[:e.ptr])
        c = const(a)
        if c is not None:
            e.find("value", "the operation accesses the fixed address %#x instead of the atomic" % c)
            raise Bad("foot", "access to the fixed address %#x" % c)
        r = e.bybase.get(a[8])
        if r is None or a[8:] != r.base[8:]:
            raise Undecided("address of unknown provenance")
        lo = const(a[:8])
        if lo is None:
            raise Undecided("address with unknown low bits in %s" % r.name)
        if len(addr) > e.ptr and e.flags.get("addr_upper", True):
            up = const(self.facts.vnorm(addr[e.ptr:]))
            if up != 0:
                raise Bad("contract", "an address uses the undefined upper bits of a pointer register")
        return r, lo - r.lo

    # private memory ------------------------------------------------------------
    def byte(self, r, off):
        k = (r.name, off)
        b = self.mem.get(k)
        if b is None:
            if r.init is not None:
                b = r.init(off)
            else:
                b = self.e.ctx.atoms(("U", r.name, off), 8)
            self.mem[k] = b
        return b

    def bounds(self, r, off, n, what):
        if r.name.startswith("@"):
            raise Undecided("%s of the global %s" % (what, r.name))
        if r.kind == "none" or off < 0 or off + n > r.size:
            raise Bad("foot", "%s of %d byte(s) at offset %d of %s (%d byte(s) long)" % (what, n, off, r.name, r.size))

    def foreign(self, addr):
        """An address the probe may follow without us knowing what it points to (Debug's formatter)."""
        e = self.e
        if not e.flags.get("foreign"):
            return False
        a = self.facts.vnorm(addr[:e.ptr])
        r = e.bybase.get(a[8])
        if r is not None and a[8:] == r.base[8:] and r.name != "FMT":
            return False
        own = set(e.regions["DST"].base)
        return not any(2 * v in own for l in a for v in e.ctx.supp(l))

    def static(self, addr, what):
        """Whether an address is in a static or a constant; access to the former is reported."""
        r = self.e.bybase.get(self.facts.vnorm(addr[:self.e.ptr])[8])
        if r is None or not r.name.startswith("@"):
            return False
        if r.name.startswith("@mut."):
            self.e.find("foot", "%s of memory other than the atomic (a static)" % what)
            if what == "read-modify-write":
                self.e.find("progress", "a static decides how the operation proceeds, as a lock does")
        elif what != "read":
            raise Undecided("%s of the constant %s" % (what, r.name))
        return True

    def load_bytes(self, addr, n, attr=frozenset()):
        k = const(self.facts.vnorm(addr[:self.e.ptr]))
        if k is not None and k in self.e.flags.get("absolute", ()):
            bs = self.e.flags["absolute"][k]
            self.e.flags["world_read"] = True
            if len(bs) != n:
                raise Undecided("access of unexpected size to the absolute address %#x" % k)
            return list(bs)
        if self.foreign(addr):
            return [self.e.ctx.fresh(8, "foreign") for _ in range(n)]
        if self.static(addr, "read"):
            return [self.e.ctx.fresh(8, "static") for _ in range(n)]
        r, off = self.resolve(addr)
        if r.kind == "shared":
            return self.shared_read(off, n, attr)
        self.bounds(r, off, n, "read")
        return [self.byte(r, off + i) for i in range(n)]

    def store_bytes(self, addr, data, attr=frozenset()):
        if self.foreign(addr) or self.static(addr, "write"):
            return None
        r, off = self.resolve(addr)
        if r.kind == "shared":
            return self.shared_write(off, data, attr)
        self.bounds(r, off, len(data), "write")
        if r.kind == "ro":
            raise Bad("foot", "write to %s, which the operation only reads" % r.name)
        for i, b in enumerate(data):
            self.mem[(r.name, off + i)] = b

    # shared memory ---------------------------------------------------------------
    def window(self, off, n):
        """The access must stay inside aligned machine words that contain the object."""
        e = self.e
        foot = None
        if off < 0 or off + n > e.size:
            w = max(e.flags.get("word", max(e.ptr // 8, 4)), e.size)
            lo = (e.residue // w) * w - e.residue
            hi = -(-(e.residue + e.size) // w) * w - e.residue
            if off < lo or off + n > hi:
                foot = ("access to bytes %d..%d of the atomic, which is %d byte(s) long and whose enclosing "
                        "word spans %d..%d" % (off, off + n, e.size, lo, hi))
        k = e.flags.get("natural", n)
        if (e.residue + off) % min(n, k):
            if foot:
                e.find("foot", foot)
            raise Bad("atomic", "%d-byte access at an address that is only a multiple of %d" %
                      (n, (e.residue + off) & -(e.residue + off)))
        if foot:
            raise Bad("foot", foot)

    def fresh_read(self, off, n):
        c = self.e.ctx
        rid = self.nread
        self.nread += 1
        out = []
        for i in range(n):
            if self.irq == "off" and off + i in self.cache:
                out.append(self.cache[off + i])
            else:
                out.append(c.atoms(("R", rid, off + i), 8))
        if self.irq == "off":
            for i in range(n):
                self.cache[off + i] = out[i]
        return rid, out

    def visible(self, attr):
        """Accesses the compiler sees are its to tear, merge and move, unless the code masks every other agent."""
        if self.irq == "off":
            return
        if "plain" in attr:
            self.e.find("atomic", "the atomic is accessed by an ordinary, non-atomic memory access")
        if "plain" in attr or "llvm" in attr:
            self.e.find("barrier", "the atomic is accessed by an instruction that is not opaque to the compiler")

    def shared_read(self, off, n, attr):
        self.window(off, n)
        self.visible(attr)
        rid, out = self.fresh_read(off, n)
        self.ev.append(Ev("R", off=off, size=n, old=out, attr=attr, rid=rid))
        return out

    def shared_write(self, off, data, attr):
        self.window(off, len(data))
        self.visible(attr)
        if self.irq == "off":
            for i, b in enumerate(data):
                self.cache[off + i] = b
        if "excl" not in attr and self.mon is not None:
            self.mon = None
            self.ev.append(Ev("NOTE", info="store between load-exclusive and store-exclusive"))
        self.ev.append(Ev("W", off=off, size=len(data), new=list(data), attr=attr))

    def rmw(self, addr, n, fn, attr):
        """Unconditional atomic read-modify-write; fn maps old bytes to new bytes. Returns old bytes."""
        if self.static(addr, "read-modify-write"):
            return [self.e.ctx.fresh(8, "static") for _ in range(n)]
        r, off = self.resolve(addr)
        if r.kind != "shared":
            self.bounds(r, off, n, "read-modify-write")
            old = [self.byte(r, off + i) for i in range(n)]
            for i, b in enumerate(fn(old)):
                self.mem[(r.name, off + i)] = b
            return old
        self.window(off, n)
        self.visible(attr)
        rid, old = self.fresh_read(off, n)
        new = fn(old)
        if self.irq == "off":
            for i, b in enumerate(new):
                self.cache[off + i] = b
        self.ev.append(Ev("RMW", off=off, size=n, old=old, new=list(new), attr=attr, rid=rid))
        return old

    def cmpxchg(self, addr, n, expect, new, attr, fattr=frozenset(), silent=False):
        """Atomic compare-and-exchange. Returns [(state, success literal, old bytes)].
        silent: on failure the old value is written back (x86, s390x do so without effect)."""
        c = self.e.ctx
        if self.static(addr, "read-modify-write"):
            old = [c.fresh(8, "static") for _ in range(n)]
            ok = c.fresh(1, "static")[0]
            return [(s, ok, old) for _v, s in self.split(ok)]
        r, off = self.resolve(addr)
        flat = lambda bs: tuple(x for b in bs for x in b)
        if r.kind != "shared":
            self.bounds(r, off, n, "compare-exchange")
            old = [self.byte(r, off + i) for i in range(n)]
            out = []
            for v, s in self.split(c.neq(flat(old), flat(expect))):
                if not v:
                    for i, b in enumerate(new):
                        s.mem[(r.name, off + i)] = b
                out.append((s, v ^ 1, old))
            return out
        self.window(off, n)
        self.visible(attr)
        rid, old = self.fresh_read(off, n)
        ok = c.atom(("S", rid))
        out = []
        fail = self.copy()
        try:
            self.facts.assume_eq(flat(old), flat(expect))
            self.facts.assume(ok)
            self.ev.append(Ev("RMW", off=off, size=n, old=old, new=list(new), attr=attr, rid=rid, wcond=ok >> 1))
            out.append((self, ok, old))
        except Infeasible:
            pass
        try:
            fail.facts.assume_neq(flat(old), flat(expect))
            fail.facts.assume(ok ^ 1)
            fail.ev.append(Ev("R", off=off, size=n, old=old, attr=fattr, rid=rid, info="failed cmpxchg", wcond=ok >> 1,
                              exp=list(expect)))
            out.append((fail, ok, old))
        except Infeasible:
            pass
        return out

    def ll(self, addr, n, attr):
        r, off = self.resolve(addr)
        if r.kind != "shared":
            raise Bad("foot", "load-exclusive on %s" % r.name)
        out = self.shared_read(off, n, attr | {"ll"})
        self.mon = (off, n, len(self.ev) - 1)
        return out

    def sc(self, addr, data, attr, pair_attr=frozenset(), exact=True):
        """Store-conditional. Returns [(state, success literal)] ."""
        r, off = self.resolve(addr)
        if r.kind != "shared":
            raise Bad("foot", "store-exclusive on %s" % r.name)
        n = len(data)
        self.window(off, n)
        c = self.e.ctx
        rid = self.nread
        self.nread += 1
        ok = c.atom(("S", rid))
        mon, self.mon = self.mon, None
        fail = self.copy()
        fail.facts.assume(ok ^ 1)
        fail.ev.append(Ev("SCFAIL", off=off, size=n, wcond=ok >> 1, info="unreserved" if mon is None else None))
        out = [(fail, ok)]
        if mon is None:
            # no reservation: the store never succeeds architecturally
            fail.ev.append(Ev("NOTE", info="store-exclusive without a preceding load-exclusive"))
            return out
        if mon[0] != off or mon[1] != n:
            if exact:
                raise Bad("atomic", "store-exclusive of %d byte(s) at offset %d is paired with a load-exclusive of %d "
                                    "byte(s) at offset %d" % (n, off, mon[1], mon[0]))
        self.facts.assume(ok)
        ld = self.ev[mon[2]]
        self.ev.append(Ev("RMW", off=off, size=n, old=ld.old, new=list(data), attr=attr, rid=ld.rid, rpos=mon[2],
                          wcond=ok >> 1))
        out.append((self, ok))
        return out

    def fence(self, mask=FULL, info=None, attr=frozenset()):
        self.ev.append(Ev("F", mask=frozenset(mask), info=info, attr=attr))

    # canonical key ---------------------------------------------------------------------
    def key(self, values):
        """State up to renaming of non-persistent atoms; facts about unreachable atoms dropped."""
        ren = {}
        n = self.facts.norm
        ctx = self.e.ctx
        live = set()

        def lit(l):
            l = n(l)
            if l < 2:
                return l
            return (var(l >> 1), l & 1)
        memo = {}

        def var(v):
            r = memo.get(v)
            if r is not None:
                return r
            k = ctx.kind[v]
            if k == "atom":
                nm = ctx.data[v]
                live.add(v)
                if persistent(nm):
                    r = nm
                else:
                    r = ren.setdefault(v, len(ren))
            elif k == "xor":
                r = ("x",) + tuple(sorted((var(x) for x in sorted(ctx.data[v])), key=repr))
            elif k == "or":
                r = ("o",) + tuple(sorted(((var(x >> 1), x & 1) for x in sorted(ctx.data[v])), key=repr))
            else:
                r = ("op", ctx.data[v][0], tuple(lit(x) if isinstance(x, int) and x > 1 else x
                                                 for x in flat1(ctx.data[v][1:])))
            memo[v] = r
            return r

        def val(x):
            if isinstance(x, tuple):
                return tuple([lit(b) for b in x])
            if isinstance(x, list):
                return [val(y) for y in x]
            return x
        parts = [[val(x) for x in values]]
        for k in sorted(self.regs):
            parts.append((k, val(self.regs[k])))
        for k in sorted(self.mem, key=repr):
            r = self.e.regions[k[0]]
            if r.kind != "ro":
                parts.append((k, val(self.mem[k])))
        for k in sorted(self.cache):
            parts.append((k, val(self.cache[k])))
        parts.append((self.irq, self.mon and (self.mon[0], self.mon[1], [val(b) for b in self.ev[self.mon[2]].old]),
                      sorted(self.x.items(), key=repr), tuple(sorted(self.written))))
        last = None
        for ev in self.ev:
            if ev.kind == "CALL":
                last = ev
        masked = None
        for ev in self.e.group(self.e, self) if self.e.group else self.ev:
            if ev.kind == "RMW" and all(map(self.facts.equal, ev.old, ev.new)):
                continue        # wrote back what it read
            if ev.kind == "IRQ":
                # a masked section that wrote nothing has left no trace
                if ev.info == "off":
                    masked = len(parts)
                elif ev.info == "restored" and masked == len(parts) - 1:
                    parts.pop()
                    masked = None
                    continue
            if ev.kind in ("W", "RMW", "IRQ", "LIB") or ev is last:
                parts.append((ev.kind, ev.off, ev.size, [val(b) for b in ev.new or ()], [val(b) for b in ev.old or ()],
                              sorted(map(str, ev.attr)), str(ev.info)))
        # how strongly the reads whose values are still in use were ordered
        rids = []
        for v in ren:
            h = ctx.data[v][0]
            if h[0] == "R" and h[1] not in rids:
                rids.append(h[1])
        for rid in rids:
            for i, ev in enumerate(self.ev):
                if ev.rid == rid:
                    later = sorted({(x.kind, tuple(sorted(x.mask or ())), str(x.info)) for x in self.ev[i + 1:]
                                    if x.kind in ("F", "I")})
                    parts.append((rids.index(rid), ev.kind, sorted(map(str, ev.attr)), later))
        pb = []
        for v, l in self.facts.bind.items():
            if ctx.kind[v] == "atom" and persistent(ctx.data[v]):
                pb.append((ctx.data[v], lit(l)))
        pb.sort(key=repr)
        cl = []
        for c in self.facts.clauses:
            s = frozenset().union(*[ctx.supp(x) for x in c])
            if all(v in live or persistent(ctx.data[v]) for v in s):
                cl.append(tuple(sorted((lit(x) for x in sorted(c)), key=repr)))
        cl.sort(key=repr)
        return repr((parts, pb, cl))


def flat1(x):
    for y in x:
        if isinstance(y, (tuple, list, frozenset)):
            yield from flat1(y)
        else:
            yield y


PERSIST = {"VAL", "OLD", "&", "IRQ0", "REG0"}


def persistent(nm):
    # atom names are (name, bit); name is a tuple whose head says where the bit comes from
    h = nm[0]
    return isinstance(h, tuple) and h[0] in PERSIST
