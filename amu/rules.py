"""What each probe must do on every path: the rules the abstract executions are judged by."""

from . import irexec, order
from .asmcore import runner
from .bits import Infeasible, const
from .llir import Endless, Undecided
from .machine import Bad, Env, State
from .probe import size_of

NEED = {"Relaxed": frozenset(), "Acquire": frozenset(("acq",)), "Release": frozenset(("rel",)),
        "AcqRel": frozenset(("acq", "rel")), "SeqCst": frozenset(("acq", "rel", "sc"))}
INVALID_LOAD = {"Release", "AcqRel"}
INVALID_STORE = {"Acquire", "AcqRel"}

ROLES = {
    "load": ("dst", "out"), "store": ("dst", "val"), "swap": ("dst", "val", "out"),
    "cas": ("dst", "old", "val", "out", "ok"), "casw": ("dst", "old", "val", "out", "ok"),
    "fu": ("dst", "out", "ok"),
    "new": ("dst", "val"), "const_new": ("dst", "val"), "from_mu": ("dst", "val"), "from_t": ("dst", "val"),
    "into_inner": ("dst", "out"), "get_mut": ("dst", "outp"), "as_ptr": ("dst", "outp"), "from_ptr": ("dst", "outp"),
    "debug": ("dst", "fmt", "ok"),
}


class Probe:
    __slots__ = ("name", "api", "op", "ty", "orders")

    def __init__(self, name):
        p = name.split("__")
        self.name = name
        self.api, self.op, self.ty = p[0], p[1], p[2]
        self.orders = p[3:]

    def valid(self):
        if self.op == "load":
            return self.orders[0] not in INVALID_LOAD
        if self.op == "store":
            return self.orders[0] not in INVALID_STORE
        if self.op in ("cas", "casw"):
            return self.orders[1] not in INVALID_LOAD
        if self.op == "fu":
            return self.orders[1] not in INVALID_LOAD
        return True


def residues(size, align, body_hint=None):
    step = max(align, 1)
    n = max(8, size)
    return list(range(0, n, step)) if step < n else [0]


def setup(cfg, arch, probe, size, residue):
    e = Env(cfg.arch, cfg.ptr, cfg.endian == "big", size, residue)
    if arch.MASKS:
        e.group = arch.group
    e.flags.update(arch.env_flags())
    c = e.ctx
    st = State(e)
    args = []
    plain = probe.api == "plain"
    for role in ROLES[probe.op]:
        if role == "dst":
            kind = "shared"
            init = None
            if plain:
                kind = {"into_inner": "ro", "debug": "none", "get_mut": "none", "as_ptr": "none",
                        "from_ptr": "none"}.get(probe.op, "rw")
                init = lambda off: c.atoms(("R", 0, off), 8)
            r = e.region("DST", 0x40 + residue, size, kind, init)
        elif role == "val":
            nm = "INIT" if probe.op == "from_t" else "VAL"
            r = e.region("VAL", 0x40, size, "ro", lambda off: c.atoms((nm, off), 8))
        elif role == "old":
            r = e.region("OLD", 0x40, size, "ro", lambda off: c.atoms(("OLD", off), 8))
        elif role == "out":
            r = e.region("OUT", 0x40, size, "rw")
        elif role == "outp":
            r = e.region("OUT", 0x40, cfg.ptr // 8, "rw")
        elif role == "ok":
            r = e.region("OK", 0x40, 1, "rw")
        elif role == "fmt":
            r = e.region("FMT", 0x40, 64, "rw")
            e.flags["foreign"] = True
        args.append(e.ptr_to(r))
    arch.setup(e, st)
    return e, st, args


def region_bytes(st, name, n):
    r = st.e.regions[name]
    return [st.byte(r, i) for i in range(n)]


def flat(bs):
    return tuple(x for b in bs for x in b)


def same(st, a, b):
    return st.facts.equal(flat(a), flat(b))


def before(evs, acc, mark):
    """The accesses that precede an event."""
    i = [k for k, x in enumerate(evs) if x is mark][0]
    pos = {id(x): k for k, x in enumerate(evs)}
    return [x for x in acc if pos.get(id(x), -1) < i]


def tear(ev):
    for a in ev.attr:
        if a.startswith("tear") and ev.size > int(a[4:]):
            return True
    return False


class Judge:
    def __init__(self, e, arch, probe):
        self.e, self.arch, self.p = e, arch, probe
        self.sc = set()      # order summaries of SeqCst operations

    def bad(self, tag, msg):
        self.e.find(tag, msg)

    # events -----------------------------------------------------------------------
    def accesses(self, st):
        """Accesses of the atomic; on interrupt-masked sections they form one step."""
        evs = self.arch.group(self.e, st)
        acc = [ev for ev in evs if ev.kind in ("R", "W", "RMW")]
        return evs, acc

    def covers(self, ev):
        return ev.off <= 0 and ev.off + ev.size >= self.e.size

    def part(self, bs, ev):
        return bs[-ev.off:-ev.off + self.e.size]

    def outside(self, st, ev):
        """Neighbour bytes of a write: (bytes present?, all written back unchanged atomically?)"""
        for i in range(ev.size):
            k = ev.off + i
            if not 0 <= k < self.e.size:
                if ev.kind != "RMW" or not same(st, [ev.new[i]], [ev.old[i]]):
                    return False
        return True

    def silent(self, st, ev):
        return ev.kind == "RMW" and same(st, ev.old, ev.new)

    def source(self, st, acc, data):
        """The single access whose value `data` is."""
        best = None
        for ev in acc:
            if ev.old is not None and self.covers(ev) and same(st, self.part(ev.old, ev), data):
                best = ev
        return best

    def explain_data(self, st, data):
        """(all bytes come from reads of the atomic at the right place, several reads?)"""
        c = self.e.ctx
        rids = set()
        ok = True
        for i, b in enumerate(data):
            for j, l in enumerate(b):
                l = st.facts.norm(l)
                h = c.data[l >> 1] if l > 1 else None
                if l < 2 or l & 1 or c.kind[l >> 1] != "atom" or h[0][0] != "R" or h[0][2] != i or h[1] != j:
                    ok = False
                else:
                    rids.add(h[0][1])
        return ok, len(rids) > 1

    def writes(self, st, acc):
        """Non-silent write events, after footprint checks."""
        out = []
        for ev in acc:
            if ev.kind == "R":
                continue
            if not self.outside(st, ev):
                self.bad("foot", "bytes next to the atomic are written by %r" % ev)
            if not self.silent(st, ev):
                out.append(ev)
        return out

    def read_result(self, st, acc, data, what):
        ev = self.source(st, acc, data)
        if ev is None:
            ok, many = self.explain_data(st, data)
            if ok and many:
                self.bad("atomic", "%s is assembled from several accesses" % what)
            else:
                self.bad("value", "%s is not the value a single access of the whole atomic read" % what)
            return None
        if tear(ev):
            self.bad("atomic", "%s is read by an access that is not single-copy atomic at this size (%r)" % (what, ev))
        return ev

    def commit(self, st, acc, val, what, rmw):
        """The one write of an operation that must write `val`."""
        ws = self.writes(st, acc)
        if not ws:
            # a write of the value already there has the same effect as the required one
            ws = [ev for ev in acc if ev.kind == "RMW" and self.covers(ev) and same(st, self.part(ev.new, ev), val)][-1:]
            if not ws:
                self.bad("value", "a path of %s ends without writing the value" % what)
                return None
        if len(ws) > 1:
            whole = [w for w in ws if self.covers(w)]
            if whole and len(whole) == len(ws):
                self.bad("atomic", "%s writes the atomic %d times" % (what, len(ws)))
            else:
                self.bad("atomic", "%s writes the atomic in %d pieces" % (what, len(ws)))
            return None
        w = ws[0]
        if not self.covers(w):
            self.bad("atomic" if w.size < self.e.size else "foot", "%s writes only bytes %d..%d" %
                     (what, w.off, w.off + w.size))
            return None
        if tear(w):
            self.bad("atomic", "%s uses a write that is not single-copy atomic at this size (%r)" % (what, w))
        if not same(st, self.part(w.new, w), val):
            self.bad("value", "%s writes something other than the given value" % what)
        if rmw and w.kind != "RMW":
            self.bad("atomic", "%s writes with a plain store: its read and write are not one atomic step" % what)
            return None
        return w

    # operations ----------------------------------------------------------------------
    def load(self, st, need):
        evs, acc = self.accesses(st)
        out = region_bytes(st, "OUT", self.e.size)
        for ev in acc:
            if ev.kind != "R":
                if self.e.size * 8 <= self.e.ptr:
                    self.bad("rdonly", "a load no wider than a pointer writes to the atomic (%r)" % ev)
                if not self.silent(st, ev):
                    self.bad("value", "a load changes the atomic (%r)" % ev)
        ev = self.read_result(st, acc, out, "the loaded value")
        if ev is not None:
            self.order(st, evs, ev, None, need)

    def store(self, st, need):
        evs, acc = self.accesses(st)
        w = self.commit(st, acc, region_bytes(st, "VAL", self.e.size), "store", False)
        if w is not None:
            self.order(st, evs, None, w, need)
        else:
            self.nowrite(acc, need)

    def swap(self, st, need):
        evs, acc = self.accesses(st)
        w = self.commit(st, acc, region_bytes(st, "VAL", self.e.size), "swap", True)
        if w is not None:
            if not same(st, self.part(w.old, w), region_bytes(st, "OUT", self.e.size)):
                self.bad("value", "the value swap returns is not the one its write replaced")
            self.order(st, evs, w, w, need)
        else:
            self.nowrite(acc, need)

    def nowrite(self, acc, need):
        """A release operation publishes with its write: without one there is nothing to synchronise with."""
        if need and not any(ev.kind in ("W", "RMW") for ev in acc):
            self.bad("order", "a path of %s writes nothing, so it orders nothing" % self.p.op)

    def cas(self, st, so, fo, weak):
        ok = region_bytes(st, "OK", 1)[0]
        ok = st.facts.vnorm(ok)
        if const(ok[1:]) != 0:
            self.bad("value", "the reported outcome is not a valid boolean")
            return
        for v, s in st.split(ok[0]):
            self.cas1(s, v, so, fo, weak)

    def cas1(self, st, v, so, fo, weak):
        evs, acc = self.accesses(st)
        n = self.e.size
        out, old = region_bytes(st, "OUT", n), region_bytes(st, "OLD", n)
        if v:
            w = self.commit(st, acc, region_bytes(st, "VAL", n), "a compare-exchange that reports success", True)
            if w is None:
                self.nowrite(acc, NEED[so])
                return
            if not same(st, self.part(w.old, w), old):
                self.bad("cas", "success is reported although the replaced value may differ from the expected one")
            if not same(st, out, self.part(w.old, w)):
                self.bad("value", "the value returned on success is not the one that was replaced")
            self.order(st, evs, w, w, NEED[so])
            return
        ws = self.writes(st, acc)
        if ws:
            self.bad("cas", "failure is reported although the atomic was written (%r)" % ws[0])
            self.spurious(st, weak, out, old)
            return
        if any(ev.kind == "W" for ev in acc):
            self.bad("cas", "a failing compare-exchange stores to the atomic")
        ev = self.read_result(st, acc, out, "the value returned on failure")
        if ev is None:
            self.spurious(st, weak, out, old)
            return
        self.spurious(st, weak, self.part(ev.old, ev), old)
        self.order(st, evs, ev, None, NEED[fo], fail=True)

    def spurious(self, st, weak, got, old):
        if not weak and not st.facts.differ(flat(got), flat(old)):
            self.bad("strong", "the strong compare-exchange can fail although the value read equals the expected one")

    def order(self, st, evs, rd, wr, need, fail=False):
        m = self.arch.model
        if "acq" in need and rd is not None and not order.acquire(m, self.e, evs, rd):
            self.bad("order", "the read of %s is not ordered before later accesses (acquire)" % self.what(fail))
        if "rel" in need and wr is not None and not order.release(m, self.e, evs, wr):
            self.bad("order", "earlier accesses are not ordered before the write of %s (release)" % self.what(fail))
        if "sc" in need:
            self.sc.add(order.summary(m, self.e, evs, rd, wr))

    def what(self, fail):
        return "a failing %s" % self.p.op if fail else self.p.op

    def fetch_update(self, st, so, fo):
        evs, acc = self.accesses(st)
        n = self.e.size
        calls = [ev for ev in st.ev if ev.kind == "CALL"]
        out = region_bytes(st, "OUT", n)
        ok = const(st.facts.vnorm(region_bytes(st, "OK", 1)[0]))
        if ok not in (0, 1):
            self.bad("fu", "the reported outcome is not a valid boolean")
            return
        if not calls:
            self.bad("fu", "fetch_update returns without calling the closure")
            return
        for k, cl in enumerate(calls):
            src = self.source(st, before(evs, acc, cl), cl.old)
            if src is None:
                self.bad("fu", "the closure is given something other than a value read from the atomic")
                return
            if k and evs.index(src) < evs.index(calls[k - 1]):
                self.bad("fu", "the closure is called again with a value read before its previous call")
                self.bad("progress", "fetch_update retries with a value read before the update that failed")
            if cl.info == 0 and k != len(calls) - 1:
                self.bad("fu", "the closure is called again after it declined")
        last = calls[-1]
        if ok == 0:
            if last.info != 0:
                self.bad("fu", "Err is returned although the closure returned a new value")
            if self.writes(st, acc):
                self.bad("fu", "Err is returned although the atomic was written")
            ev = self.source(st, before(evs, acc, last), out)
            if ev is None or not same(st, out, last.old):
                self.bad("fu", "the value returned with Err is not the one the closure declined")
                return
            if "acq" in NEED[fo] and not order.acquire(self.arch.model, self.e, evs, ev):
                self.bad("fuorder", "the value the closure declined was not read with the fetch ordering")
            return
        if last.info != 1:
            self.bad("fu", "Ok is returned although the closure declined")
            return
        ws = self.writes(st, acc)
        if not ws:
            ws = [ev for ev in acc if ev.kind == "RMW" and self.covers(ev)][-1:]
        if len(ws) != 1 or ws[0].kind != "RMW" or not self.covers(ws[0]):
            self.bad("fu", "Ok is returned without exactly one atomic replacement")
            return
        w = ws[0]
        if not same(st, self.part(w.new, w), last.new):
            self.bad("fu", "the value written is not the one the closure returned")
        if not same(st, self.part(w.old, w), last.old):
            self.bad("fu", "the replaced value may differ from the one the closure saw")
        if not same(st, out, self.part(w.old, w)):
            self.bad("fu", "the value returned with Ok is not the one that was replaced")
        need = NEED[so]
        if "acq" in need and not order.acquire(self.arch.model, self.e, evs, w):
            self.bad("fuorder", "the successful update is not an acquire operation")
        if "rel" in need and not order.release(self.arch.model, self.e, evs, w):
            self.bad("fuorder", "the successful update is not a release operation")
        if "sc" in need:
            self.sc.add(order.summary(self.arch.model, self.e, evs, w, w))
        if "acq" in NEED[fo]:
            src = self.source(st, before(evs, acc, last), last.old)
            if src is not None and not order.acquire(self.arch.model, self.e, evs, src):
                self.bad("fuorder", "the value handed to the closure was not read with the fetch ordering")

    def plain(self, st):
        n = self.e.size
        op = self.p.op
        if op in ("new", "const_new", "from_mu", "from_t"):
            if not same(st, region_bytes(st, "DST", n), region_bytes(st, "VAL", n)):
                self.bad("plain", "the constructed atomic does not hold the given value")
        elif op == "into_inner":
            if not same(st, region_bytes(st, "OUT", n), region_bytes(st, "DST", n)):
                self.bad("plain", "into_inner does not return the atomic's contents")
        elif op in ("get_mut", "as_ptr", "from_ptr"):
            k = self.e.ptr // 8
            bs = region_bytes(st, "OUT", k)
            if self.e.big:
                bs = bs[::-1]
            if not st.facts.equal(flat(bs), self.e.ptr_to(self.e.regions["DST"])):
                self.bad("plain", "%s does not yield the address of the same storage" % op)


class Execution:
    """The abstract execution of one function body, for every residue of the address."""
    __slots__ = ("runs", "steps")


def execute(cfg, arch, name, prog, size, align):
    p = Probe(name)
    x = Execution()
    x.runs = []
    x.steps = 0
    worlds = arch.worlds()
    seen = False
    for res, world in [(r, w) for w in worlds for r in residues(size, align)]:
        if world is not worlds[0] and not seen:
            continue
        e, st, args = setup(cfg, arch, p, size, res)
        e.flags.update(world)
        ex = irexec.Exec(e, prog, arch, runner(arch))
        try:
            terms = ex.run(name, args, st)
        except Undecided as u:
            if isinstance(u, Endless):
                j = Judge(e, arch, p)
                ws = j.writes(u.st, [ev for ev in u.st.ev if ev.kind in ("R", "W", "RMW")])
                if len(ws) > 1:
                    j.bad("atomic", "%s writes the atomic again and again" % p.op)
            u.partial = [[a, b, r] for r, f in [(r, y.findings) for r, y, _ in x.runs] + [(res, e.findings)]
                         for a, b in sorted(f)]
            raise
        if not terms and not e.findings:
            e.find("progress", "no execution of the operation ends")
        seen = seen or bool(e.flags.get("world_read"))
        x.runs.append((res, e, terms))
        x.steps += e.steps
    return x


def judge(arch, name, x):
    """Findings and statistics of one probe: ({(tag, msg): residue}, stats dict, set of SeqCst summaries)."""
    p = Probe(name)
    findings, sc = {}, set()
    stats = {"paths": 0, "residues": 0, "events": 0, "steps": x.steps}
    valid = p.valid()
    for res, e, terms in x.runs:
        base = e.findings
        e.findings = dict(base)
        j = Judge(e, arch, p)
        rets = 0
        for s, kind, v in terms:
            arch.irq_rules(e, s, {"ret": "returns", "panic": "panics"}.get(kind, "aborts"))
            stats["paths"] += 1
            stats["events"] += len(s.ev)
            if kind == "panic":
                touched = [ev for ev in s.ev if ev.kind in ("R", "W", "RMW", "SCFAIL")]
                if touched:
                    j.bad("panic", "the atomic is accessed before the panic (%r)" % touched[0])
                if valid and arch.allowed_panic(e, s):
                    rets += 1
                elif valid:
                    j.bad("panic", "a valid ordering panics")
                continue
            if kind == "abort":
                j.bad("panic", "the operation aborts")
                continue
            rets += 1
            for ev in s.ev:
                if ev.kind == "LIB" and p.op != "debug":
                    j.bad("progress", "the operation calls the library routine %s" % ev.info)
            if not valid:
                j.bad("panic", "an invalid ordering is accepted")
                continue
            try:
                if p.api == "plain":
                    j.plain(s)
                elif p.op == "load":
                    j.load(s, NEED[p.orders[0]])
                elif p.op == "store":
                    j.store(s, NEED[p.orders[0]])
                elif p.op == "swap":
                    j.swap(s, NEED[p.orders[0]])
                elif p.op in ("cas", "casw"):
                    j.cas(s.copy(), p.orders[0], p.orders[1], p.op == "casw")
                elif p.op == "fu":
                    j.fetch_update(s, p.orders[0], p.orders[1])
            except Bad as b:
                e.find(b.tag, b.msg)
            except Infeasible:
                pass
        if valid and not rets and not e.findings:
            j.bad("panic", "no path with a valid ordering returns")
        for k in e.findings:
            findings.setdefault(k, res)
        e.findings = base
        sc |= j.sc
        stats["residues"] += 1
    return findings, stats, sc
