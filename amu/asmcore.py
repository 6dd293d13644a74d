"""Abstract interpreter for inline assembly: operands, control flow, register contract."""

import re

from .bits import Infeasible, zext
from .irexec import bitsof, is_agg
from .llir import Endless, Undecided
from .machine import FULL, Bad, Ev


class Instr:
    __slots__ = ("mn", "ops", "text", "labels", "ann")

    def __init__(self, mn, ops, text):
        self.mn, self.ops, self.text, self.labels, self.ann = mn, ops, text, (), None


def split_ops(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


LABEL = re.compile(r"^\s*([A-Za-z_.$][\w.$]*|\d+)\s*:\s*")


def parse(text, arch):
    """[Instr], {label: [positions]}"""
    ins, labels = [], {}
    for raw in re.split(r"[\n;]" if arch.SEMI else r"\n", text):
        line = arch.strip_comment(raw).strip()
        while True:
            m = LABEL.match(line)
            if not m or (arch.NO_LABEL and arch.NO_LABEL(line)):
                break
            labels.setdefault(m[1], []).append(len(ins))
            line = line[m.end():].strip()
        if not line:
            continue
        if line.startswith(".") and arch.directive(line):
            continue
        for mn, ops in arch.split(line):
            ins.append(Instr(mn, ops, line))
    return ins, labels


class Operand:
    __slots__ = ("kind", "cons", "early", "tied", "reg", "ty", "bits", "explicit", "n")

    def __init__(self):
        self.tied = None
        self.reg = None
        self.early = False
        self.explicit = False


def parse_constraints(cons):
    outs, ins, clob = [], [], []
    depth, cur, parts = 0, "", []
    for ch in cons:
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        parts.append(cur)
    for p in parts:
        if p.startswith("~{"):
            clob.append(p[2:-1])
            continue
        o = Operand()
        if p.startswith("="):
            o.kind = "out"
            p = p[1:]
            if p.startswith("&"):
                o.early = True
                p = p[1:]
            outs.append(o)
        else:
            o.kind = "in"
            ins.append(o)
        if p.isdigit():
            o.tied = int(p)
        o.cons = p
        o.explicit = p.startswith("{")
    return outs, ins, clob


class Run:
    """One inline assembly statement under one register allocation."""

    def __init__(self, ex, arch, templ, cons, flags, rt, args):
        self.ex, self.arch, self.e = ex, arch, ex.e
        self.templ, self.flags = templ, flags
        self.outs, self.ins, self.clob = parse_constraints(cons)
        if len(self.ins) != len(args):
            raise Undecided("assembly with indirect operands")
        rts = [] if rt[0] == "void" else [rt] if len(self.outs) == 1 else list(rt[1])
        if len(rts) != len(self.outs):
            raise Undecided("assembly results do not match its constraints")
        for o, t in zip(self.outs, rts):
            o.ty = t
        for o, (t, v) in zip(self.ins, args):
            o.ty, o.bits = t, v
        self.ops = self.outs + self.ins
        for k, o in enumerate(self.ops):
            o.n = k
        self.rt = rt
        self.mem = False
        self.touched = set()

    def allocate(self, prefer=None):
        """prefer: (operand index, physical register)"""
        arch = self.arch
        used = set()
        for o in self.ops:
            o.reg = None
            if o.explicit:
                o.reg = arch.explicit(o.cons[1:-1], o.ty)
                used.add(arch.phys(o.reg))
        for c in self.clob:
            r = arch.clobber(c)
            if r:
                used.add(r)
        if prefer is not None:
            o = self.ops[prefer[0]]
            o.reg = prefer[1]
            used.add(arch.phys(o.reg))
        for o in self.ops:
            if o.reg is not None or o.tied is not None:
                continue
            if o.cons in ("i", "n", "s", "X", "imm", "I"):
                o.reg = "#imm"
                continue
            for r in arch.pool(o.cons, o.ty):
                ph = arch.phys_all(r)
                if not (ph & used):
                    o.reg = r
                    used |= ph
                    break
            else:
                raise Undecided("no register left for constraint %s" % o.cons)
        for o in self.ops:
            if o.tied is not None:
                o.reg = self.ops[o.tied].reg

    def text(self):
        arch = self.arch

        def sub(m):
            n = int(m[1] or m[3])
            mod = m[2] or ""
            o = self.ops[n]
            if o.reg == "#imm":
                from .bits import sconst
                v = sconst(o.bits)
                if v is None:
                    raise Undecided("symbolic immediate operand")
                return str(v)
            return arch.fmt(o.reg, mod, o.ty)
        t = self.templ.replace("$$", "\0")
        t = re.sub(r"\$\{(\d+)(?::(\w+))?\}|\$(\d+)", sub, t)
        t = re.sub(r"\$\(", "(", t) if "$(" in t else t
        return t.replace("\0", "$")

    # registers -------------------------------------------------------------------
    def entry(self, ph):
        # between two statements the compiler may change any register
        return ("REG0", ph, self.e.asm_no.setdefault((self.templ, tuple(o.cons for o in self.ops)), len(self.e.asm_no)))

    def init(self, st, ph):
        """Contents of a physical register nobody has written yet."""
        b = st.regs.get(ph)
        if b is None:
            b = st.regs[ph] = self.e.ctx.atoms(self.entry(ph), self.arch.width(ph))
            if ph in self.arch.CONST:
                b = st.regs[ph] = (0,) * self.arch.width(ph)
        return b

    def r(self, st, name):
        ph, lo, n = self.arch.view(name)
        if ph is None:
            return (0,) * n
        self.hazard(st, ph)
        return self.init(st, ph)[lo:lo + n]

    def w(self, st, name, bits):
        ph, lo, n = self.arch.view(name)
        if ph is None:
            return
        full = self.arch.width(ph)
        bits = bits[:n] if len(bits) >= n else zext(bits, n)
        if n == full:
            st.regs[ph] = bits
        else:
            old = self.init(st, ph)
            if self.arch.zero_upper(name):
                st.regs[ph] = zext(bits, full)
            else:
                st.regs[ph] = old[:lo] + bits + old[lo + n:]
        self.touched.add(ph)
        if ph in self.late:
            st.written = st.written | {ph}

    def hazard(self, st, ph):
        """An input may share its register with an output that is not declared early-clobber."""
        if st.written and ph in self.inputs:
            i = self.inputs[ph]
            for w in st.written:
                o = self.late[w]
                if o is not None and w != ph and self.arch.may_share(o, i):
                    self.e.find("contract", "an output not declared early-clobber is written before the input `%s` "
                                            "is last read: the compiler may give both one register" % ph)

    # control flow ---------------------------------------------------------------------
    def label(self, pos, name):
        m = re.fullmatch(r"(\d+)([bf])", name)
        if m:
            ps = self.labels.get(m[1], [])
            if m[2] == "b":
                c = [p for p in ps if p <= pos]
                if c:
                    return c[-1]
            else:
                c = [p for p in ps if p > pos]
                if c:
                    return c[0]
        elif name in self.labels:
            return self.labels[name][0]
        raise Undecided("branch to the unknown label `%s`" % name)

    def branch(self, st, lit, target, pos):
        """Conditional branch: [(state, next position)]"""
        st.branch_event(lit)
        t = self.label(pos, target)
        return [(s, t if v else pos + 1) for v, s in st.split(lit)]

    def prepare(self, st):
        arch = self.arch
        st.regs = {}
        st.written = frozenset()
        self.late = {}
        self.inputs = {}
        c = self.e.ctx
        tied = {o.tied for o in self.ins if o.tied is not None}
        for o in self.ins:
            if o.reg == "#imm":
                continue
            if is_agg(o.ty):
                raise Undecided("aggregate assembly operand")
            arch.put(self, st, o.reg, o.bits, c)
            if o.tied is None:
                self.inputs[arch.phys(o.reg)] = o
        outp = set()
        for o in self.outs:
            outp |= arch.phys_all(o.reg)
            if not o.early:
                self.late[arch.phys(o.reg)] = o
        self.start = {}
        self.declared = outp | {r for r in map(arch.clobber, self.clob) if r}
        for x in self.clob:
            self.declared |= arch.clobber_set(x)
        for o in self.ops:
            if o.reg != "#imm":
                for ph in arch.phys_all(o.reg):
                    if ph not in self.declared:
                        self.start[ph] = self.init(st, ph)
        st.written = frozenset()

    def finish(self, st):
        arch = self.arch
        for ph, bits in st.regs.items():
            if ph in self.declared or ph in arch.SCRATCH:
                continue
            want = self.start.get(ph)
            if want is None:
                if ph in arch.CONST:
                    continue
                want = self.e.ctx.atoms(self.entry(ph), arch.width(ph))
            if not st.facts.equal(bits, want):
                raise Bad("contract", "register `%s` is changed by the assembly without being declared an output or "
                                      "clobber" % ph)
        if st.mon is not None:
            st.mon = None
        arch.at_end(self, st)
        res = []
        for o in self.outs:
            if is_agg(o.ty):
                raise Undecided("aggregate assembly result")
            res.append(arch.get(self, st, o.reg, o.ty, bitsof(o.ty, self.e.ptr)))
            if arch.FREEZE:
                # the result of a computation in registers is defined even where its operands are not
                self.e.frozen |= {st.facts.norm(x) >> 1 for x in res[-1] if x > 1 and
                                  self.e.ctx.kind[st.facts.norm(x) >> 1] != "atom"}
                d = self.e.ctx.subs.get(res[-1])
                if d and len(d) == 2:
                    # a difference is zero where the bits are equal
                    self.e.frozen |= {x >> 1 for x in map(self.e.ctx.xor, *d) if x > 1 and self.e.ctx.kind[x >> 1] != "atom"}
        st.regs = {}
        st.written = frozenset()
        if not self.outs:
            return None
        return res[0] if len(self.outs) == 1 else res

    def execute(self, st0):
        e = self.e
        self.ins_list, self.labels = parse(self.text(), self.arch)
        # (text() uses allocated registers, so each allocation parses its own instruction list)
        self.prepare(st0)
        prog = self.ins_list
        self.arch.check(self, prog)
        work = [(st0, 0)]
        seen = {}
        outs = []
        n = len(prog)
        marks = {}
        while work:
            st, pc = work.pop()
            while True:
                if pc >= n:
                    try:
                        outs.append((st, self.finish(st)))
                    except Bad as b:
                        e.find(b.tag, b.msg)
                    break
                e.tick()
                ins = prog[pc]
                try:
                    nxt = self.arch.step(self, st, ins, pc)
                except Bad as b:
                    e.find(b.tag, "%s (at `%s`)" % (b.msg, ins.text))
                    break
                except Infeasible:
                    break
                if nxt is None:
                    pc += 1
                    continue
                live = []
                for s, t in nxt:
                    if t <= pc:
                        self.loop(s, t, pc)
                        k = (t, s.key([]))
                        if k in seen:
                            continue
                        seen[k] = 1
                        if len(seen) > 24:
                            raise Endless("assembly loop does not converge", s)
                    live.append((s, t))
                if not live:
                    break
                for s, t in live[1:]:
                    work.append((s, t))
                st, pc = live[0]
        return outs

    def loop(self, st, target, pc):
        """A backward jump must be caused by interference from another agent."""
        m = (id(self), target)
        marks = [i for i, ev in enumerate(st.ev) if ev.kind == "MARK" and ev.info == m]
        if not any(contention(st, i, bool(marks)) for i in range(marks[-1] + 1 if marks else 0, len(st.ev))):
            self.e.find("progress", "the loop at `%s` repeats although no other agent interfered" %
                        self.ins_list[target].text)
        st.ev.append(Ev("MARK", info=m))


def contention(st, i, again):
    """Whether event i can only be the work of another agent (or, the first time round, of a guess)."""
    ev = st.ev[i]
    if ev.kind == "SCFAIL":
        # a store-exclusive whose reservation an earlier one has used up fails whatever others do
        return ev.info != "unreserved"
    if ev.info == "retry":
        return True
    if ev.info != "failed cmpxchg":
        return False
    if not again:
        return True
    # the value expected must have been read from the atomic since the previous failure
    p = i - 1
    while p > 0 and st.ev[p].kind != "SCFAIL" and st.ev[p].info != "failed cmpxchg":
        p -= 1
    seen = [x for x in st.ev[max(p, 0):i] if x.kind in ("R", "RMW") and x.old is not None]
    return all(any(x.off <= ev.off + k < x.off + x.size and st.facts.equal(b, x.old[ev.off + k - x.off]) for x in seen)
               for k, b in enumerate(ev.exp))


def runner(arch):
    """The callback the IR interpreter uses for inline assembly."""

    def run(ex, st, templ, cons, flags, rt, args):
        e = ex.e
        n0 = len(st.ev)
        base = Run(ex, arch, templ, cons, flags, rt, args)
        base.allocate()
        key = (templ, cons)
        # allocations in which an operand sits in a register the text uses without declaring it
        variants = []
        if key not in e.asm_sites:
            ins, _ = parse(base.text(), arch)
            named = arch.named(ins, base.templ)
            mine = set()
            for o in base.ops:
                if o.reg != "#imm":
                    mine |= arch.phys_all(o.reg)
            decl = {r for r in map(arch.clobber, base.clob) if r}
            for x in base.clob:
                decl |= arch.clobber_set(x)
            vs = []
            for ph in sorted(named - mine - decl):
                for k, o in enumerate(base.ops):
                    if o.explicit or o.tied is not None or o.reg == "#imm":
                        continue
                    for r in arch.pool(o.cons, o.ty):
                        if arch.phys(r) == ph:
                            vs.append((k, r))
                            break
            e.asm_sites[key] = vs
        variants = e.asm_sites[key]
        outs = []
        for pref in variants:
            s = st.copy()
            v = Run(ex, arch, templ, cons, flags, rt, args)
            v.allocate(pref)
            outs += v.execute(s)
        outs += base.execute(st)
        barrier = ("memory" in base.clob and "sideeffect" in flags and
                   not any(f.startswith("weak_") for f in flags))
        if not barrier and not e.flags.get("nobarrier_ok"):
            for s, _ in outs:
                if any(ev.kind in ("R", "W", "RMW", "F", "SCFAIL", "IRQ") for ev in s.ev[n0:]) or base.mem:
                    e.find("barrier", "assembly that accesses the atomic is not declared to the compiler as accessing "
                                      "memory with side effects")
                    break
            # what the block promises about memory, against what it does
            may = promised(flags, base.clob)
            wr = any(ev.kind in ("W", "RMW", "SCFAIL") for s, _ in outs for ev in s.ev[n0:])
            rd = any(ev.kind in ("R", "RMW") for s, _ in outs for ev in s.ev[n0:])
            if not may and (wr or rd):
                e.find("contract", "the assembly accesses the atomic although it is declared not to access memory")
            elif wr and "w" not in may:
                e.find("contract", "the assembly writes the atomic although it is declared to only read memory")
        return outs
    return run


def promised(flags, clob):
    """What an assembly block's attributes allow it to do to the caller's memory: a subset of "rw"."""
    may = "rw"
    for f in flags:
        if f in ("weak_readnone", "weak_inaccessiblememonly"):
            may = ""
        elif f == "weak_readonly":
            may = may.replace("w", "")
        elif f == "weak_writeonly":
            may = may.replace("r", "")
        elif f.startswith("weak_memory_"):
            kind, loc, at = {"none": "", "read": "r", "write": "w", "readwrite": "rw"}, "", {}
            for t in f[len("weak_memory_"):].strip("_").split("_"):
                if t in kind:
                    at[loc] = kind[t]
                    loc = ""
                else:
                    loc = t
            got = at.get("", "") + at.get("argmem", "")
            may = "".join(c for c in may if c in got)
    if "memory" not in clob and may == "rw":
        may = ""
    return may


class Arch:
    """Defaults for an architecture's assembly semantics."""
    SEMI = True
    FREEZE = False
    NO_LABEL = None
    CONST = frozenset()
    SCRATCH = frozenset()
    COMMENT = re.compile(r"//.*|/\*.*?\*/")
    FLAGCLOB = {}

    def strip_comment(self, s):
        return self.COMMENT.sub("", s)

    def directive(self, line):
        raise Undecided("assembler directive `%s`" % line)

    def split(self, line):
        p = line.split(None, 1)
        return [(p[0].lower(), split_ops(p[1]) if len(p) > 1 else [])]

    def phys_all(self, r):
        return {self.phys(r)}

    def phys(self, r):
        return self.view(r)[0]

    def zero_upper(self, name):
        return False

    def explicit(self, c, ty):
        return c

    def clobber(self, c):
        """Physical register a clobber names, or None."""
        if c == "memory" or c in self.FLAGCLOB:
            return None
        try:
            return self.phys(c)
        except Undecided:
            return None

    def clobber_set(self, c):
        return set(self.FLAGCLOB.get(c, ()))

    def put(self, run, st, reg, bits, c):
        ph = self.phys(reg)
        _, lo, n = self.view(reg)
        w = self.width(ph)
        old = run.init(st, ph)
        b = bits + c.fresh(max(0, w - lo - len(bits)), "junk") if lo == 0 else None
        if b is None:
            b = old[:lo] + bits + old[lo + len(bits):]
        st.regs[ph] = b[:w]

    def get(self, run, st, reg, ty, n):
        ph, lo, k = self.view(reg)
        b = run.init(st, ph)[lo:]
        if len(b) < n:
            raise Undecided("result wider than its register")
        return b[:n]

    def may_share(self, out, inp):
        """Whether the register allocator may put this output and this input in one register."""
        if out.explicit and inp.explicit:
            return False
        return self.klass(out) == self.klass(inp) or \
            (out.explicit and out.reg in self.pool_names(inp)) or (inp.explicit and inp.reg in self.pool_names(out))

    def klass(self, o):
        return None if o.explicit else o.cons

    def pool_names(self, o):
        return () if o.explicit else {r for r in self.pool(o.cons, o.ty)}

    def named(self, ins, templ):
        """Physical registers written literally in the template."""
        s = set()
        t = re.sub(r"\$\{[^}]*\}|\$\d+", " ", templ)
        for w in re.findall(r"[A-Za-z_%$][\w.]*", t):
            try:
                ph = self.view(w.lower())[0]
            except Undecided:
                continue
            if ph is not None:
                s.add(ph)
        return s

    def check(self, run, prog):
        pass

    def at_end(self, run, st):
        pass
