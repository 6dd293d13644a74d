"""The abstract value domain: per-bit provenance.

A bit is an int literal: 0 false, 1 true, 2*v / 2*v+1 the variable v / its negation. A variable is
an atom (one bit of a named origin: a byte of an operand, of one read of shared memory, of a region's
address, or an unknown), an exclusive-or of atoms, or a disjunction of literals. Everything else is an
opaque variable interned by its defining expression, so equal expressions are equal bits.

Facts about a path bind variables to literals (equalities) and record disjunctions known to hold
("the two values differ somewhere"). There is no search and no solver: a bit whose value does not
follow from its normal form and these bindings is unknown."""

import itertools


class Infeasible(Exception):
    pass


class Ctx:
    __slots__ = ("kind", "data", "intern", "names", "_supp", "fresh_no", "subs")

    def __init__(self):
        self.kind = ["const"]
        self.data = [None]
        self.intern = {}
        self._supp = {}
        self.fresh_no = itertools.count()
        self.subs = {}

    # atoms ---------------------------------------------------------------
    def atom(self, name):
        """Literal of the atom called `name` (hashable)."""
        k = ("atom", name)
        v = self.intern.get(k)
        if v is None:
            v = self.intern[k] = len(self.kind)
            self.kind.append("atom")
            self.data.append(name)
        return 2 * v

    def atoms(self, name, n):
        return tuple(self.atom((name, i)) for i in range(n))

    def fresh(self, n, why="junk"):
        return self.atoms((why, next(self.fresh_no)), n)

    def opaque(self, key):
        k = ("op", key)
        v = self.intern.get(k)
        if v is None:
            v = self.intern[k] = len(self.kind)
            self.kind.append("op")
            self.data.append(key)
        return 2 * v

    def supp(self, lit):
        """Atoms a literal is built from."""
        v = lit >> 1
        if v == 0:
            return frozenset()
        s = self._supp.get(v)
        if s is None:
            k = self.kind[v]
            if k == "atom":
                s = frozenset((v,))
            elif k == "xor":
                s = frozenset().union(*[self.supp(2 * x) for x in self.data[v]])
            elif k == "or":
                s = frozenset().union(*[self.supp(x) for x in self.data[v]])
            else:
                s = frozenset().union(*[self.supp(x) for x in flat(self.data[v]) if isinstance(x, int)]) | {v}
            self._supp[v] = s
        return s

    def name(self, v):
        return self.data[v]

    # operations ----------------------------------------------------------
    def xor(self, a, b):
        if a < 2:
            return b ^ a
        if b < 2:
            return a ^ b
        if a >> 1 == b >> 1:
            return (a ^ b) & 1
        par = (a ^ b) & 1
        va, vb = a >> 1, b >> 1
        sa = self.data[va] if self.kind[va] == "xor" else frozenset((va,))
        sb = self.data[vb] if self.kind[vb] == "xor" else frozenset((vb,))
        return self._xor(sa ^ sb) ^ par

    def _xor(self, s):
        if not s:
            return 0
        if len(s) == 1:
            return 2 * next(iter(s))
        k = ("xor", s)
        v = self.intern.get(k)
        if v is None:
            v = self.intern[k] = len(self.kind)
            self.kind.append("xor")
            self.data.append(s)
        return 2 * v

    def or_many(self, lits):
        s = set()
        for l in lits:
            if l == 1:
                return 1
            if l == 0:
                continue
            if not l & 1 and self.kind[l >> 1] == "or":
                s |= self.data[l >> 1]
            else:
                s.add(l)
        for l in s:
            if l ^ 1 in s:
                return 1
        # absorption: a | (a & b) = a ; a | (!a & b) = a | b
        drop, add = [], []
        for l in s:
            if l & 1 and self.kind[l >> 1] == "or":
                # l = AND of negated members
                mem = self.data[l >> 1]
                if any((m ^ 1) in s for m in mem):
                    drop.append(l)
                elif any(m in s for m in mem):
                    drop.append(l)
                    rest = [m for m in mem if m not in s]
                    add.append(self.or_many(rest) ^ 1)
        if drop:
            return self.or_many([l for l in s if l not in drop] + add)
        if not s:
            return 0
        if len(s) == 1:
            return next(iter(s))
        # (a ^ b) | (a & b) = a | b
        ands = [q for q in s if q & 1 and self.kind[q >> 1] == "or" and len(self.data[q >> 1]) == 2]
        for q in ands:
            a, b = [m ^ 1 for m in self.data[q >> 1]]
            x = self.xor(a, b)
            if x in s:
                return self.or_many([m for m in s if m != x and m != q] + [a, b])
            if x ^ 1 in s:
                return self.or_many([m for m in s if m != q])
        # (a & b) | (a & !b) = a, for two-member sets
        if len(s) == 2:
            x, y = s
            if x & 1 and y & 1 and self.kind[x >> 1] == "or" and self.kind[y >> 1] == "or":
                mx, my = self.data[x >> 1], self.data[y >> 1]
                if len(mx) == 2 and len(my) == 2:
                    c = mx & my
                    if len(c) == 1:
                        (p,), (q,) = mx - c, my - c
                        if p == q ^ 1:
                            return next(iter(c)) ^ 1
                    elif not c and {m ^ 1 for m in mx} == my:
                        # a&b | !a&!b = xnor
                        p, q = mx
                        return self.xor(p, q) ^ 1
        k = ("or", frozenset(s))
        v = self.intern.get(k)
        if v is None:
            v = self.intern[k] = len(self.kind)
            self.kind.append("or")
            self.data.append(k[1])
        return 2 * v

    def or_(self, a, b):
        if a < 2:
            return 1 if a else b
        if b < 2:
            return 1 if b else a
        if a == b:
            return a
        if a ^ b == 1:
            return 1
        return self.or_many((a, b))

    def and_(self, a, b):
        return self.or_(a ^ 1, b ^ 1) ^ 1

    def mux(self, c, a, b):
        """c ? a : b"""
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a < 2 and b < 2:
            return c if a else c ^ 1
        if a ^ b == 1:
            return self.xor(c, b)
        return self.or_(self.and_(c, a), self.and_(c ^ 1, b))

    # vectors (tuples of literals, least significant first) --------------------
    def vxor(self, a, b):
        return tuple(map(self.xor, a, b))

    def vand(self, a, b):
        return tuple(map(self.and_, a, b))

    def vor(self, a, b):
        r = tuple(map(self.or_, a, b))
        if (a in self.subs or b in self.subs) and r not in self.subs and any(x > 1 for x in r):
            self.subs[r] = (a, b, "or")
        return r

    def vmux(self, c, a, b):
        return tuple(self.mux(c, x, y) for x, y in zip(a, b))

    def add(self, a, b, c=0):
        """(sum, carry out)"""
        out = []
        for x, y in zip(a, b):
            out.append(self.xor(self.xor(x, y), c))
            if x == y:
                c = x
            elif x ^ y == 1:
                pass
            elif c == x or c == y:
                pass
            elif c ^ x == 1:
                c = y
            elif c ^ y == 1:
                c = x
            elif x < 2:
                c = self.and_(y, c) if x == 0 else self.or_(y, c)
            elif y < 2:
                c = self.and_(x, c) if y == 0 else self.or_(x, c)
            elif c < 2:
                c = self.and_(x, y) if c == 0 else self.or_(x, y)
            else:
                c = self.opaque(("maj", tuple(sorted((x, y, c)))))
        return tuple(out), c

    def sub(self, a, b):
        r, c = self.add(a, vnot(b), 1)
        if r not in self.subs and any(x > 1 for x in r):
            self.subs[r] = (a, b)
        return r, c

    def nonzero(self, a):
        s = self.subs.get(a)
        if s is not None:
            return self.or_(self.nonzero(s[0]), self.nonzero(s[1])) if len(s) > 2 else self.neq(*s)
        return self.or_many(a)

    def neq(self, a, b):
        return self.or_many([self.xor(x, y) for x, y in zip(a, b)])

    def ult(self, a, b):
        # a < b  <=>  no carry out of a + ~b + 1
        r, c = self.add(a, vnot(b), 1)
        return c ^ 1

    def slt(self, a, b):
        a2 = a[:-1] + (a[-1] ^ 1,)
        b2 = b[:-1] + (b[-1] ^ 1,)
        return self.ult(a2, b2)

    def mul(self, a, b):
        n = len(a)
        ca, cb = const(a), const(b)
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
        if cb is None:
            return tuple(self.opaque(("mul", a, b, i)) for i in range(n))
        r = vconst(0, n)
        for i in range(n):
            if cb >> i & 1:
                r, _ = self.add(r, shl(a, i))
        return r


def flat(x):
    for y in x:
        if isinstance(y, (tuple, list, frozenset)):
            yield from flat(y)
        else:
            yield y


def vnot(a):
    return tuple(x ^ 1 for x in a)


def vconst(k, n):
    return tuple((k >> i) & 1 for i in range(n))


def const(a):
    r = 0
    for i, x in enumerate(a):
        if x > 1:
            return None
        r |= x << i
    return r


def sconst(a):
    r = const(a)
    if r is not None and a and a[-1]:
        r -= 1 << len(a)
    return r


def shl(a, k):
    n = len(a)
    k = min(k, n)
    return (0,) * k + a[:n - k]


def shr(a, k):
    n = len(a)
    k = min(k, n)
    return a[k:] + (0,) * k


def sar(a, k):
    n = len(a)
    k = min(k, n)
    return a[k:] + (a[-1],) * k


def rotl(a, k):
    n = len(a)
    k %= n
    return a[n - k:] + a[:n - k] if k else a


def zext(a, n):
    return a[:n] + (0,) * (n - len(a))


def sext(a, n):
    return a[:n] + (a[-1],) * (n - len(a))


def bswap(a):
    out = ()
    for i in range(len(a) - 8, -1, -8):
        out += a[i:i + 8]
    return out


class Facts:
    """Bindings and known disjunctions of one path (copy on fork)."""
    __slots__ = ("ctx", "bind", "clauses", "_memo")

    def __init__(self, ctx):
        self.ctx = ctx
        self.bind = {}
        self.clauses = ()
        self._memo = {}

    def copy(self):
        f = Facts(self.ctx)
        f.bind = dict(self.bind)
        f.clauses = self.clauses
        f._memo = dict(self._memo)
        return f

    def norm(self, lit):
        if lit < 2:
            return lit
        v = lit >> 1
        r = self._memo.get(v)
        if r is None:
            r = self._norm(v)
            self._memo[v] = r
        return r ^ (lit & 1)

    def _norm(self, v):
        c = self.ctx
        b = self.bind.get(v)
        if b is not None:
            return self.norm(b)
        k = c.kind[v]
        if k == "atom":
            return 2 * v
        if k == "xor":
            r = 0
            for x in c.data[v]:
                r = c.xor(r, self.norm(2 * x))
            if r >> 1 != v and r > 1:
                return self.norm(r) if r >> 1 in self.bind or c.kind[r >> 1] != "atom" else r
            return r
        if k == "or":
            r = c.or_many([self.norm(x) for x in c.data[v]])
            if r > 1 and r >> 1 != v and (r >> 1) in self.bind:
                return self.norm(r)
            return self._known(r)
        # opaque: re-intern simple shapes over normalised arguments
        key = c.data[v]
        if key[0] == "maj":
            x, y, z = [self.norm(t) for t in key[1]]
            if x > 1 and y > 1 and z > 1 and x != y and y != z and x != z and x ^ 1 not in (y, z) and y ^ 1 != z:
                return c.opaque(("maj", tuple(sorted((x, y, z)))))
            s = c.or_(c.and_(x, y), c.and_(z, c.xor(x, y)))
            return s
        return 2 * v

    def _known(self, r):
        if r < 2 or not self.clauses or r & 1 or self.ctx.kind[r >> 1] != "or":
            if r > 1 and r & 1 and self.ctx.kind[r >> 1] == "or" and self.clauses:
                return self._known(r ^ 1) ^ 1
            return r
        mem = self.ctx.data[r >> 1]
        for cl in self.clauses:
            if cl <= mem:
                return 1
        return r

    def vnorm(self, bits):
        n = self.norm
        return tuple([n(x) for x in bits])

    def eval(self, lit):
        """0, 1 or None."""
        r = self.norm(lit)
        return r if r < 2 else None

    def equal(self, a, b):
        """Whether two vectors are known to be equal."""
        n = self.norm
        if len(a) != len(b):
            return False
        return all(x == y or n(x) == n(y) for x, y in zip(a, b))

    def differ(self, a, b):
        """Whether two vectors are known to differ."""
        return self.eval(self.ctx.neq(self.vnorm(a), self.vnorm(b))) == 1

    def assume(self, lit):
        """Add lit = true. Raises Infeasible."""
        self._assume([lit])

    def _assume(self, work):
        c = self.ctx
        dirty = set()          # variables bound since the memo was last valid
        while True:
            while work:
                l = self.norm(work.pop())
                if l > 1 and dirty and not dirty.isdisjoint(c.supp(l)):
                    self._memo.clear()
                    dirty.clear()
                    l = self.norm(l)
                if l == 1:
                    continue
                if l == 0:
                    raise Infeasible()
                v, neg = l >> 1, l & 1
                k = c.kind[v]
                if k == "xor":
                    # youngest atom := xor of the others (^ neg ^ 1)
                    s = c.data[v]
                    y = max(s)
                    self.bind[y] = c._xor(s - {y}) ^ (0 if neg else 1)
                    dirty.add(y)
                    if c.kind[y] != "atom":
                        dirty |= c.supp(2 * y)
                elif k == "or":
                    if neg:
                        work.extend(m ^ 1 for m in c.data[v])
                    else:
                        self.clauses = self.clauses + (c.data[v],)
                        self._memo.clear()
                        dirty.clear()
                else:
                    self.bind[v] = 0 if neg else 1
                    dirty.add(v)
            if dirty:
                self._memo.clear()
                dirty.clear()
            # renormalise clauses
            old, self.clauses = self.clauses, ()
            if not old:
                return
            self._memo.clear()
            new = []
            for cl in old:
                r = c.or_many([self.norm(m) for m in cl])
                if r == 1:
                    continue
                if r == 0:
                    raise Infeasible()
                if c.kind[r >> 1] == "or" and not r & 1:
                    if c.data[r >> 1] not in new:
                        new.append(c.data[r >> 1])
                else:
                    work.append(r)
            self.clauses = tuple(new)
            self._memo.clear()
            if not work:
                return

    def assume_eq(self, a, b):
        c = self.ctx
        n = self.norm
        self._assume([c.xor(n(x), n(y)) ^ 1 for x, y in zip(a, b)])

    def assume_neq(self, a, b):
        self.assume(self.ctx.neq(self.vnorm(a), self.vnorm(b)))
