"""Abstract interpreter for the probes' LLVM IR."""

import re

from .bits import Infeasible, bswap, const, sar, sext, shl, shr, sconst, vconst, vnot, zext
from .llir import Endless, Function, Undecided
from .machine import FULL, Bad, Ev


def sizeof(ty, ptr):
    k = ty[0]
    if k == "i":
        return (ty[1] + 7) // 8 if ty[1] > 8 else 1
    if k == "ptr":
        return ptr // 8
    if k == "a":
        return ty[1] * sizeof(ty[2], ptr)
    if k == "vec":
        return (ty[1] * bitsof(ty[2], ptr) + 7) // 8
    if k in ("s", "ps"):
        off = 0
        al = 1
        for t in ty[1]:
            a = 1 if k == "ps" else alignof(t, ptr)
            al = max(al, a)
            off = -(-off // a) * a + sizeof(t, ptr)
        return -(-off // al) * al
    if k in ("float", "double", "half", "fp128"):
        return {"float": 4, "double": 8, "half": 2, "fp128": 16}[k]
    raise Undecided("size of type %r" % (ty,))


def bitsof(ty, ptr):
    k = ty[0]
    if k == "i":
        return ty[1]
    if k == "ptr":
        return ptr
    if k == "vec":
        return ty[1] * bitsof(ty[2], ptr)
    if k in ("float", "double", "half", "fp128"):
        return {"float": 32, "double": 64, "half": 16, "fp128": 128}[k]
    raise Undecided("width of type %r" % (ty,))


def alignof(ty, ptr):
    if ty[0] == "a":
        return alignof(ty[2], ptr)
    if ty[0] in ("s", "ps"):
        return max([alignof(t, ptr) for t in ty[1]] or [1])
    n = sizeof(ty, ptr)
    a = 1
    while a < n:
        a *= 2
    return a


def is_agg(ty):
    return ty[0] in ("s", "ps", "a")


def fields(ty):
    return list(ty[1]) if ty[0] in ("s", "ps") else [ty[2]] * ty[1]


def offsets(ty, ptr):
    off = 0
    out = []
    for t in fields(ty):
        if ty[0] == "s":
            a = alignof(t, ptr)
            off = -(-off // a) * a
        out.append(off)
        off += sizeof(t, ptr)
    return out


ORDATTR = {
    "unordered": (), "monotonic": (), "acquire": ("acq",), "release": ("rel",), "acq_rel": ("acq", "rel"),
    "seq_cst": ("acq", "rel", "sc"),
}

PAUSE = re.compile(r"llvm\.(x86\.sse2\.pause|aarch64\.(hint|isb)|arm\.(hint|isb)|riscv\.pause|[\w.]*\.(pause|nop|yield))$")
PANIC = re.compile(r"9panicking|18panic_|slice_index_fail|13unwrap_failed|rust_begin_unwind|begin_panic|"
                   r"expect_failed|unwrap_failed|panic_const")


class Prog:
    """Functions reachable from a probe, parsed on demand."""

    def __init__(self, texts):
        self.texts = texts        # name -> canonical text
        self.parsed = {}

    def get(self, name):
        f = self.parsed.get(name)
        if f is None:
            f = self.parsed[name] = Function(self.texts[name])
            f_live(f)
        return f


LIVE = {}


def f_live(fn):
    """Live-in sets per block (values used later), to keep loop-header keys small."""
    use, defs, succ, phiuse = {}, {}, {}, {}

    def vals(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "v" and isinstance(x[1], str):
                yield x[1]
            else:
                for y in x:
                    yield from vals(y)
        elif isinstance(x, list):
            for y in x:
                yield from vals(y)
    for b, ins in fn.blocks.items():
        u, d = set(), set()
        pu = {}
        for i in ins:
            if i[0] == "phi":
                d.add(i[1])
                for v, p in i[3]:
                    for n in vals(v):
                        pu.setdefault(p, set()).add(n)
                continue
            for n in vals(i[1:]):
                if n not in d:
                    u.add(n)
            if len(i) > 1 and isinstance(i[1], str) and i[0] not in ("br", "condbr", "switch", "ret"):
                d.add(i[1])
        use[b], defs[b], phiuse[b] = u, d, pu
        t = ins[-1]
        succ[b] = [t[1]] if t[0] == "br" else [t[2], t[3]] if t[0] == "condbr" else \
            [t[3]] + [c[1] for c in t[4]] if t[0] == "switch" else []
    live = {b: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            o = set()
            for s in succ[b]:
                o |= live[s] | phiuse[s].get(b, set())
            n = use[b] | (o - defs[b])
            if n != live[b]:
                live[b] = n
                ch = True
    LIVE[fn.text] = {b: sorted(live[b] | {i[1] for i in fn.blocks[b] if i[0] == "phi"}) for b in fn.blocks}


def data_vars(e, lit):
    """Whether the literal depends on the contents of the atomic or of the operands."""
    if e.frozen:
        v = lit >> 1
        if v in e.frozen:
            return False
        if e.ctx.kind[v] == "or":
            return any(data_vars(e, x) for x in e.ctx.data[v])
    for v in e.ctx.supp(lit):
        h = e.ctx.data[v]
        if isinstance(h, tuple) and isinstance(h[0], tuple) and h[0][0] in ("R", "VAL", "OLD", "CLO"):
            return True
    return False


class Exec:
    def __init__(self, env, prog, arch, asm_runner):
        self.e = env
        self.prog = prog
        self.arch = arch
        self.run_asm = asm_runner
        self.nalloca = 0

    # values -------------------------------------------------------------------------
    def undef(self, ty):
        if is_agg(ty):
            return [self.undef(t) for t in fields(ty)]
        return self.e.ctx.fresh(bitsof(ty, self.e.ptr), "undef")

    def zero(self, ty):
        if is_agg(ty):
            return [self.zero(t) for t in fields(ty)]
        return vconst(0, bitsof(ty, self.e.ptr))

    def val(self, st, ty, v):
        k = v[0]
        if k == "v":
            try:
                return st.env[v[1]]
            except KeyError:
                raise Undecided("use of %s before its definition" % v[1])
        if k == "c":
            return vconst(v[1], bitsof(ty, self.e.ptr))
        if k == "zero":
            return self.zero(ty)
        if k in ("undef", "undef_float"):
            return self.undef(ty)
        if k == "agg":
            vs = [self.val(st, t, x) for t, x in v[1]]
            if ty[0] == "vec":
                out = ()
                for x in vs:
                    out += x
                return out
            return vs
        if k == "str":
            data = []
            s = v[1][2:-1]
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    data.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    data.append(ord(s[i]))
                    i += 1
            return [vconst(x, 8) for x in data]
        if k == "g":
            name = "@" + v[1]
            r = self.e.regions.get(name)
            if r is None:
                r = self.e.region(name, 0x40, 0, "none")
            return self.e.ptr_to(r)
        if k == "cast":
            return self.cast(v[1], self.val(st, v[2], v[3]), v[4])
        if k == "gep":
            return self.gep(st, v[1], v[2])
        if k == "bin":
            return self.binop(st, v[1], self.val(st, v[2], v[3]), self.val(st, v[2], v[4]))
        raise Undecided("IR value %r" % (v,))

    def cast(self, op, a, ty):
        n = bitsof(ty, self.e.ptr)
        if op == "sext":
            return sext(a, n)
        if op in ("zext", "trunc", "ptrtoint", "inttoptr", "ptrtoaddr"):
            return zext(a, n)
        if isinstance(a, list):
            raise Undecided("cast of an aggregate")
        if len(a) != n:
            raise Undecided("bitcast between widths")
        return a

    def gep(self, st, bt, ops):
        e = self.e
        base = self.val(st, ops[0][0], ops[0][1])
        n = e.ptr
        off = vconst(0, n)
        ty = bt
        first = True
        for t, v in ops[1:]:
            i = self.val(st, t, v)
            i = sext(i, n) if len(i) < n else i[:n]
            if first:
                sz = sizeof(ty, n)
                off, _ = e.ctx.add(off, e.ctx.mul(i, vconst(sz, n)))
                first = False
            elif ty[0] in ("s", "ps"):
                k = const(i)
                off, _ = e.ctx.add(off, vconst(offsets(ty, n)[k], n))
                ty = ty[1][k]
            else:
                ty = ty[2]
                off, _ = e.ctx.add(off, e.ctx.mul(i, vconst(sizeof(ty, n), n)))
        return e.ctx.add(base, st.facts.vnorm(off))[0]

    def binop(self, st, op, a, b):
        c = self.e.ctx
        f = st.facts
        if op == "xor":
            return c.vxor(a, b)
        if op == "and":
            return c.vand(a, b)
        if op == "or":
            return c.vor(a, b)
        if op == "add":
            return c.add(a, b)[0]
        if op == "sub":
            return c.sub(a, b)[0]
        if op == "mul":
            return c.mul(f.vnorm(a), f.vnorm(b))
        k = const(f.vnorm(b))
        n = len(a)
        if op in ("shl", "lshr", "ashr"):
            if k is None:
                ops = f.vnorm(b)
                r = a
                for i, x in enumerate(ops):
                    if x == 0:
                        continue
                    sh = 1 << i
                    if sh >= n and x != 1:
                        continue    # poison if set; value irrelevant
                    t = shl(r, sh) if op == "shl" else shr(r, sh) if op == "lshr" else sar(r, sh)
                    r = c.vmux(x, t, r)
                return r
            if k >= n:
                return c.fresh(n, "undef")
            return shl(a, k) if op == "shl" else shr(a, k) if op == "lshr" else sar(a, k)
        if k is not None and k and op in ("udiv", "urem") and k & (k - 1) == 0:
            s = k.bit_length() - 1
            return shr(a, s) if op == "udiv" else zext(a[:s], n)
        ka = const(f.vnorm(a))
        if ka is not None and k:
            if op == "udiv":
                return vconst(ka // k, n)
            if op == "urem":
                return vconst(ka % k, n)
        return tuple(c.opaque((op, a, b, i)) for i in range(n))

    def icmp(self, pred, a, b):
        c = self.e.ctx
        if pred in ("eq", "ne") and const(b) == 0:
            return c.nonzero(a) ^ (pred == "eq")
        if pred == "eq":
            return c.neq(a, b) ^ 1
        if pred == "ne":
            return c.neq(a, b)
        if pred == "ult":
            return c.ult(a, b)
        if pred == "ugt":
            return c.ult(b, a)
        if pred == "ule":
            return c.ult(b, a) ^ 1
        if pred == "uge":
            return c.ult(a, b) ^ 1
        if pred == "slt":
            return c.slt(a, b)
        if pred == "sgt":
            return c.slt(b, a)
        if pred == "sle":
            return c.slt(b, a) ^ 1
        return c.slt(a, b) ^ 1

    # memory -----------------------------------------------------------------------------
    def tobytes(self, v, ty):
        if isinstance(v, list):
            raise Undecided("store of an aggregate")
        n = sizeof(ty, self.e.ptr)
        v = zext(v, 8 * n)
        bs = [v[8 * i:8 * i + 8] for i in range(n)]
        return bs[::-1] if self.e.big else bs

    def frombytes(self, bs, ty):
        if self.e.big:
            bs = bs[::-1]
        out = ()
        for b in bs:
            out += tuple(b)
        return out[:bitsof(ty, self.e.ptr)]

    def load(self, st, ty, addr, attr=frozenset()):
        if is_agg(ty):
            return [self.load(st, t, self.e.ctx.add(addr, vconst(o, self.e.ptr))[0], attr)
                    for t, o in zip(fields(ty), offsets(ty, self.e.ptr))]
        return self.frombytes(st.load_bytes(addr, sizeof(ty, self.e.ptr), attr), ty)

    def store(self, st, ty, v, addr, attr=frozenset()):
        if is_agg(ty):
            for t, o, x in zip(fields(ty), offsets(ty, self.e.ptr), v):
                self.store(st, t, x, self.e.ctx.add(addr, vconst(o, self.e.ptr))[0], attr)
            return
        st.store_bytes(addr, self.tobytes(v, ty), attr)

    # execution ----------------------------------------------------------------------------
    def run(self, name, args, st0, depth=0):
        """All terminal (state, kind, value) of a call; kind: ret or panic."""
        if depth > 8:
            raise Undecided("recursion in %s" % name)
        fn = self.prog.get(name)
        live = LIVE[fn.text]
        e = self.e
        outer = st0.env
        st0.env = {}
        for (ty, p, at), a in zip(fn.params, args):
            st0.env[p] = a
        work = [(st0, fn.entry, None, 0)]
        seen = set()
        terms = []
        while work:
            st, blk, prev, idx = work.pop()
            try:
                self.block(fn, live, st, blk, prev, idx, work, seen, terms, depth)
            except Bad as b:
                e.find(b.tag, b.msg)
            except Infeasible:
                pass
        for t in terms:
            t[0].env = dict(outer)
        return terms

    def block(self, fn, live, st, blk, prev, idx, work, seen, terms, depth):
        e = self.e
        c = e.ctx
        while True:
            ins = fn.blocks[blk]
            if idx == 0:
                phis = []
                for i in ins:
                    if i[0] != "phi":
                        break
                    for v, p in i[3]:
                        if p == prev:
                            phis.append((i[1], self.val(st, i[2], v)))
                            break
                    else:
                        raise Undecided("phi without an entry for the predecessor")
                for d, v in phis:
                    st.env[d] = v
                idx = len(phis)
                if blk in fn.back:
                    k = (blk, st.key([st.env.get(n, 0) for n in live[blk]]))
                    if k in seen:
                        return
                    seen.add(k)
                    if len(seen) > 80:
                        raise Endless("loop does not converge", st)
            i = ins[idx]
            idx += 1
            e.tick()
            op = i[0]
            if op == "bin":
                st.env[i[1]] = self.binop(st, i[2], self.val(st, i[3], i[4]), self.val(st, i[3], i[5]))
            elif op == "cast":
                st.env[i[1]] = self.cast(i[2], self.val(st, i[3], i[4]), i[5])
            elif op == "icmp":
                a, b = self.val(st, i[3], i[4]), self.val(st, i[3], i[5])
                st.env[i[1]] = (self.icmp(i[2], a, b),)
            elif op == "alloca":
                n = sizeof(i[2], e.ptr)
                name = "stack%d%s" % (depth, i[1])
                r = e.regions.get(name)
                if r is None:
                    if n > 0x80:
                        raise Undecided("large stack object")
                    r = e.region(name, 0x40, n, "rw")
                for j in range(n):
                    st.mem[(name, j)] = c.fresh(8, "undef")
                st.env[i[1]] = e.ptr_to(r)
            elif op == "load":
                attr = frozenset(ORDATTR[i[5]] + ("llvm",)) if i[5] else frozenset(("plain",))
                v = self.load(st, i[2], self.val(st, ("ptr",), i[3]), attr)
                if i[6] and not isinstance(v, list) and any(data_vars(e, x) for x in v):
                    e.find("taint", "possibly-uninitialised contents are loaded as an initialised value")
                st.env[i[1]] = v
            elif op == "store":
                attr = frozenset(ORDATTR[i[5]] + ("llvm",)) if i[5] else frozenset(("plain",))
                self.store(st, i[1], self.val(st, i[1], i[2]), self.val(st, ("ptr",), i[3]), attr)
            elif op == "gep":
                st.env[i[1]] = self.gep(st, i[2], i[3])
            elif op == "br":
                blk, prev, idx = i[1], blk, 0
            elif op == "condbr":
                lit = self.val(st, ("i", 1), i[1])[0]
                self.taint(st, lit)
                st.branch_event(lit)
                outs = st.split(lit)
                if not outs:
                    return
                for v, s in outs[1:]:
                    work.append((s, i[2] if v else i[3], blk, 0))
                v, st = outs[0]
                blk, prev, idx = (i[2] if v else i[3]), blk, 0
            elif op == "switch":
                x = self.val(st, i[1], i[2])
                for l in x:
                    self.taint(st, l)
                rest = st
                for k, tgt in i[4]:
                    lit = c.neq(x, vconst(k, len(x))) ^ 1
                    rest.branch_event(lit)
                    nxt = None
                    for v, s in rest.split(lit):
                        if v:
                            work.append((s, tgt, blk, 0))
                        else:
                            nxt = s
                    if nxt is None:
                        return
                    rest = nxt
                st = rest
                blk, prev, idx = i[3], blk, 0
            elif op == "ret":
                terms.append((st, "ret", self.val(st, i[1], i[2]) if i[1] else None))
                return
            elif op == "unreachable":
                self.e.find("panic", "the operation reaches a point declared unreachable instead of returning or panicking")
                raise Bad("ub", "a point declared unreachable is reached")
            elif op == "select":
                cv = self.val(st, i[6], i[3])
                if i[6][0] == "vec":
                    raise Undecided("vector select")
                a, b = self.val(st, i[2], i[4]), self.val(st, i[2], i[5])
                if self.arch.MASKS and st.irq == "off" and i[2] != ("i", 1):
                    # what is about to be written may be what is already there
                    outs = st.split(cv[0])
                    if not outs:
                        return
                    for v, s in outs[1:]:
                        s.env[i[1]] = a if v else b
                        work.append((s, blk, prev, idx))
                    v, st = outs[0]
                    st.env[i[1]] = a if v else b
                else:
                    st.env[i[1]] = self.select(st, cv[0], a, b)
            elif op == "freeze":
                st.env[i[1]] = self.val(st, i[2], i[3])
            elif op == "extractvalue":
                v = self.val(st, i[2], i[3])
                for k in i[4]:
                    v = v[k]
                st.env[i[1]] = v
            elif op == "insertvalue":
                v = self.val(st, i[2], i[3])
                x = self.val(st, i[4], i[5])
                st.env[i[1]] = self.insert(v, i[6], x)
            elif op == "extractelement":
                v = self.val(st, i[2], i[3])
                k = const(st.facts.vnorm(self.val(st, ("i", 64), i[4])))
                w = bitsof(i[2][2], e.ptr)
                k = self.lane(i[2], k)
                st.env[i[1]] = v[k * w:k * w + w]
            elif op == "insertelement":
                v = self.val(st, i[2], i[3])
                x = self.val(st, i[2][2], i[4])
                k = const(st.facts.vnorm(self.val(st, ("i", 64), i[5])))
                w = len(x)
                k = self.lane(i[2], k)
                st.env[i[1]] = v[:k * w] + x + v[k * w + w:]
            elif op == "shufflevector":
                a = self.val(st, i[2], i[3])
                b = self.val(st, i[2], i[4])
                w = bitsof(i[2][2], e.ptr)
                m = self.val(st, i[5], i[6])
                if e.big:
                    raise Undecided("vector shuffle on a big-endian target")
                src = a + b
                out = ()
                for j in range(i[5][1]):
                    k = const(st.facts.vnorm(m[32 * j:32 * j + 32]))
                    out += c.fresh(w, "undef") if k is None else src[k * w:k * w + w]
                st.env[i[1]] = out
            elif op == "fence":
                if not i[2]:
                    st.ev.append(Ev("F", mask=FULL if i[1] == "seq_cst" else {
                        "acquire": frozenset(("RR", "RW")), "release": frozenset(("RW", "WW")),
                        "acq_rel": frozenset(("RR", "RW", "WW"))}[i[1]], info="llvm fence " + i[1]))
            elif op == "atomicrmw":
                self.atomicrmw(st, i)
            elif op == "cmpxchg":
                outs = self.cmpxchg(st, i)
                if not outs:
                    return
                for s in outs[1:]:
                    work.append((s, blk, prev, idx))
                st = outs[0]
            elif op == "asm":
                outs = self.asm(st, i, fn)
                if not outs:
                    return
                for s in outs[1:]:
                    work.append((s, blk, prev, idx))
                st = outs[0]
            elif op == "call":
                outs = self.call(st, i, terms, depth)
                if not outs:
                    return
                for s in outs[1:]:
                    work.append((s, blk, prev, idx))
                st = outs[0]
            else:
                raise Undecided("IR instruction %s" % op)

    def lane(self, ty, k):
        if k is None:
            raise Undecided("variable vector lane")
        return ty[1] - 1 - k if self.e.big else k

    def taint(self, st, lit):
        l = st.facts.norm(lit)
        if l > 1 and data_vars(self.e, l):
            self.e.find("taint", "control flow outside the assembly depends on possibly-uninitialised contents")

    def select(self, st, l, a, b):
        v = st.facts.eval(l)
        if v is not None:
            return a if v else b
        if isinstance(a, list):
            return [self.select(st, l, x, y) for x, y in zip(a, b)]
        return self.e.ctx.vmux(l, a, b)

    def insert(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insert(v[idx[0]], idx[1:], x)
        return v

    def atomicrmw(self, st, i):
        _, dest, rop, ty, p, a, order = i
        c = self.e.ctx
        addr = self.val(st, ("ptr",), p)
        x = self.val(st, ty, a)

        def fn(old):
            o = self.frombytes(old, ty)
            if rop == "xchg":
                n = x
            elif rop == "add":
                n = c.add(o, x)[0]
            elif rop == "sub":
                n = c.sub(o, x)[0]
            elif rop == "and":
                n = c.vand(o, x)
            elif rop == "or":
                n = c.vor(o, x)
            elif rop == "xor":
                n = c.vxor(o, x)
            else:
                raise Undecided("atomicrmw " + rop)
            return self.tobytes(n, ty)
        r = self.e.bybase.get(st.facts.vnorm(addr)[8])
        if rop != "xchg" and (r is None or not r.name.startswith("@")):
            self.e.find("taint", "arithmetic outside the assembly on possibly-uninitialised contents")
        old = st.rmw(addr, sizeof(ty, self.e.ptr), fn, frozenset(ORDATTR[order] + ("llvm",)))
        st.env[dest] = self.frombytes(old, ty)

    def cmpxchg(self, st, i):
        _, dest, ty, p, a, b, weak, so, fo = i
        addr = self.val(st, ("ptr",), p)
        r = self.e.bybase.get(st.facts.vnorm(addr)[8])
        if r is None or not r.name.startswith("@"):
            self.e.find("taint", "LLVM cmpxchg compares possibly-uninitialised contents")
        outs = []
        fattr = frozenset(ORDATTR[fo] + ("llvm",))
        n = sizeof(ty, self.e.ptr)
        if weak:
            w = st.copy()
            old = w.load_bytes(addr, n, fattr)
            w.env[dest] = [self.frombytes(old, ty), (0,)]
            outs.append(w)
        for s, ok, old in st.cmpxchg(addr, n, self.tobytes(self.val(st, ty, a), ty),
                                     self.tobytes(self.val(st, ty, b), ty),
                                     frozenset(ORDATTR[so] + ("llvm",)), fattr):
            s.env[dest] = [self.frombytes(old, ty), (ok,)]
            outs.append(s)
        return outs

    def asm(self, st, i, fn):
        _, dest, rt, templ, cons, fl, args = i
        vals = [(ty, self.val(st, ty, v)) for ty, v, at in args]
        outs = []
        for s, res in self.run_asm(self, st, templ, cons, fl, rt, vals):
            if dest is not None:
                s.env[dest] = res
            outs.append(s)
        return outs

    def memcopy(self, st, d, s, n):
        data = []
        k = n
        if k:
            data = st.load_bytes(s, k, frozenset(("plain",)))
            st.store_bytes(d, data, frozenset(("plain",)))

    def call(self, st, i, terms, depth):
        _, dest, rt, callee, args, nd = i
        e = self.e
        c = e.ctx
        if callee[0] != "g":
            # a call through a pointer: the callee may do anything with what it is given
            own = set(e.regions["DST"].base)
            for ty, v, at in args:
                if ty[0] == "ptr" and any(2 * x in own for l in self.val(st, ty, v) for x in c.supp(l)):
                    e.find("foot", "the atomic's address is passed to an unknown function")
            if not e.flags.get("foreign"):
                raise Undecided("indirect call")
            st.ev.append(Ev("LIB", info="indirect call"))
            if dest is not None:
                st.env[dest] = self.undef(rt)
            return [st]
        name = callee[1]
        if name.startswith("llvm."):
            base = name.split(".")[1]
            vals = [self.val(st, ty, v) for ty, v, at in args if ty[0] != "metadata"]
            if base == "assume":
                v = st.facts.eval(vals[0][0])
                if v != 1:
                    e.find("ub", "an assumption told to the compiler %s" %
                           ("is false on a path" if v == 0 else "does not follow"))
                    if v == 0:
                        return []
                    st.facts.assume(vals[0][0])
                return [st]
            if base == "expect":
                st.env[dest] = vals[0]
                return [st]
            if base == "memcpy" or base == "memmove":
                n = const(st.facts.vnorm(vals[2]))
                if n is None:
                    raise Undecided("memcpy of unknown length")
                self.memcopy(st, vals[0], vals[1], n)
                return [st]
            if base == "memset":
                n = const(st.facts.vnorm(vals[2]))
                if n is None:
                    raise Undecided("memset of unknown length")
                st.store_bytes(vals[0], [vals[1]] * n, frozenset(("plain",)))
                return [st]
            if base in ("bswap",):
                st.env[dest] = bswap(vals[0])
                return [st]
            if base in ("uadd", "usub", "sadd", "ssub") and ".with.overflow" in name:
                if base == "uadd":
                    r, o = c.add(vals[0], vals[1])
                elif base == "usub":
                    r, o = c.sub(vals[0], vals[1])
                    o ^= 1
                else:
                    raise Undecided(name)
                st.env[dest] = [r, (o,)]
                return [st]
            if base == "umul":
                a, b = const(st.facts.vnorm(vals[0])), const(st.facts.vnorm(vals[1]))
                if a is None or b is None:
                    raise Undecided(name)
                n = len(vals[0])
                st.env[dest] = [vconst(a * b, n), (int(a * b >> n != 0),)]
                return [st]
            if base in ("fshl", "fshr"):
                k = const(st.facts.vnorm(vals[2]))
                if k is None:
                    raise Undecided(name)
                n = len(vals[0])
                k %= n
                x = vals[1] + vals[0]
                st.env[dest] = x[2 * n - n - k:2 * n - k] if base == "fshl" else x[k:k + n]
                return [st]
            if base == "ptrmask":
                m = vals[1]
                st.env[dest] = c.vand(vals[0], m)
                return [st]
            if base == "ctpop":
                a = const(st.facts.vnorm(vals[0]))
                if a is None:
                    x = vals[0]
                    r = vconst(0, len(x))
                    for b in x:
                        r, _ = c.add(r, (b,) + (0,) * (len(x) - 1))
                    st.env[dest] = r
                else:
                    st.env[dest] = vconst(bin(a).count("1"), len(vals[0]))
                return [st]
            if base == "lifetime" or base in ("experimental", "donothing", "dbg", "sideeffect", "pseudoprobe"):
                return [st]
            if base == "is" and "constant" in name:
                st.env[dest] = (0,)
                return [st]
            if base == "launder" or base == "strip" or base == "threadlocal":
                st.env[dest] = vals[0]
                return [st]
            if base == "trap":
                terms.append((st, "abort", None))
                return []
            if base in ("cttz", "ctlz"):
                a = const(st.facts.vnorm(vals[0]))
                if a is None:
                    raise Undecided(name)
                n = len(vals[0])
                k = n if a == 0 else (a & -a).bit_length() - 1 if base == "cttz" else n - a.bit_length()
                st.env[dest] = vconst(k, n)
                return [st]
            if base in ("umin", "umax"):
                _, ge = c.sub(vals[0], vals[1])
                if base == "umin":
                    ge ^= 1
                st.env[dest] = tuple(c.mux(ge, x, y) for x, y in zip(vals[0], vals[1]))
                return [st]
            if PAUSE.match(name):
                return [st]        # core::hint::spin_loop
            raise Undecided("intrinsic " + name)
        if name.startswith("amu_closure_"):
            return self.closure(st, i)
        if name.startswith("amu_noundef_"):
            for ty, v, at in args:
                # (a register of which the assembly only set a part has definite contents)
                if all(data_vars(e, st.facts.norm(x)) for x in self.val(st, ty, v)):
                    e.find("taint", "possibly-uninitialised contents are read as, passed to or returned from a function as an "
                                    "initialised value")
            return [st]
        if PANIC.search(name) and name not in self.prog.texts or PANIC.search(name):
            terms.append((st, "panic", name))
            return []
        if name in self.prog.texts:
            vals = [self.val(st, ty, v) for ty, v, at in args]
            outs = []
            env = st.env
            for s, kind, v in self.run(name, vals, st, depth + 1):
                if kind != "ret":
                    terms.append((s, kind, v))
                    continue
                s.env = dict(env)
                if dest is not None:
                    s.env[dest] = v
                outs.append(s)
            return outs
        st.ev.append(Ev("LIB", info=name))
        return self.libcall(st, i, name)

    def libcall(self, st, i, name):
        """A function outside the crate: it may change what it is given the address of, and returns anything."""
        _, dest, rt, callee, args, nd = i
        e = self.e
        own = set(e.regions["DST"].base)
        for ty, v, at in args:
            if ty[0] != "ptr":
                continue
            a = st.facts.vnorm(self.val(st, ty, v))
            if any(2 * x in own for l in a for x in e.ctx.supp(l)):
                e.find("foot", "the atomic's address is passed to the function %s" % name)
            r = e.bybase.get(a[8])
            if r is not None and r.kind not in ("shared", "ro") and not r.name.startswith("@"):
                for k in list(st.mem):
                    if k[0] == r.name:
                        st.mem[k] = e.ctx.fresh(8, "lib")
        if dest is not None:
            st.env[dest] = self.anything(rt)
        return [st]

    def anything(self, ty):
        if is_agg(ty):
            return [self.anything(t) for t in fields(ty)]
        return self.e.ctx.fresh(bitsof(ty, self.e.ptr), "lib")

    def closure(self, st, i):
        """amu_closure(&x, &mut n) -> u8: reads x, writes arbitrary bytes to n, returns any value."""
        _, dest, rt, callee, args, nd = i
        e = self.e
        x = self.val(st, ("ptr",), args[0][1])
        n = self.val(st, ("ptr",), args[1][1])
        self.arch.settle(e, st)
        k = sum(1 for ev in st.ev if ev.kind == "CALL")
        if k >= 8:
            raise Endless("closure loop does not converge", st)
        data = st.load_bytes(x, e.size, frozenset(("plain",)))
        new = [e.ctx.atoms(("CLO", k, j), 8) for j in range(e.size)]
        st.store_bytes(n, new, frozenset(("plain",)))
        some = e.ctx.atom((("SOME", k), 0))
        other = st.copy()
        st.facts.assume(some)
        other.facts.assume(some ^ 1)
        outs = []
        for s, v in ((st, 1), (other, 0)):
            s.ev.append(Ev("CALL", old=data, new=new, info=v))
            s.env[dest] = vconst(v, 8)
            outs.append(s)
        return outs
