"""Reinterpretations of possibly-uninitialised values as initialised types, in the crate's own MIR.

A transmute between a `MaybeUninit` and an integer of the same size leaves no trace in LLVM IR, but producing an
integer from uninitialised bytes is undefined behaviour all the same. In each function body, the values that may be
uninitialised are the by-value arguments and results whose type contains `MaybeUninit`, what is read through pointers
to such types, and assembly outputs of such types; they are followed through assignments."""

import re

FN = re.compile(r"^(?:const )?fn (.*?)\((.*)\) -> (.*) \{$")
LOCAL = re.compile(r"^\s+let (?:mut )?(_\d+): (.*);$")
ARG = re.compile(r"(_\d+): ((?:[^,<(\[]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>|\([^()]*\)|\[[^\]]*\])+)")
ASSIGN = re.compile(r"^\s+(\(*\*?(_\d+)[^=]*?) = (.*?)(?: -> .*)?;$")
CAST = re.compile(r"^(?:move|copy) (.*) as (.*) \(Transmute\)$")
ASM = re.compile(r"^\s+asm!\(")
OUT = re.compile(r"\b(?:late)?out\([^)]*\) (_\d+)|=> (_\d+)")
NEW = re.compile(r"^(?:core::mem::)?MaybeUninit::<.*>::(?:new|zeroed)\(")
CALL = re.compile(r"^[\w<:(].*\(.*\)$")
# a type none of whose values may have uninitialised bytes
INIT = re.compile(r"(?:[\s,;()\[\]]|\b(?:[iu](?:8|16|32|64|128|size)|f32|f64|bool|char|\d+|"
                  r"(?:core::arch::\w+::)?__m\d+[di]?)\b)+")


SHARED = re.compile(r"^&(?:'\w+ )?(?!mut\b)(?:[\w:]+::)?AtomicMaybeUninit<")
POINTER = re.compile(r"^(?:\*(?:const|mut) |&|(?:[\w:]+::)?NonNull<)")
# core's ways of accessing memory through a pointer as a call
PLAIN = re.compile(r"^(?:(?:core|std)::)?(?:(?:ptr|intrinsics|mem)::)?(?:(?:const_ptr|mut_ptr|non_null)::<impl [^>]*>+::|"
                   r"NonNull::<.*>::)?(read|read_volatile|read_unaligned|write|write_volatile|write_unaligned|write_bytes|"
                   r"replace|swap|copy|copy_nonoverlapping|copy_to|copy_from|copy_to_nonoverlapping|"
                   r"copy_from_nonoverlapping|transmute_copy|drop_in_place)(?:::<.*>)?\(")
DEREF = re.compile(r"\(\*(_\d+)\)")


def shared_accesses(ty, args, stm):
    """Ordinary (non-atomic) accesses through a `&AtomicMaybeUninit` argument."""
    ptr = {a for a in args if SHARED.match(ty[a])}
    if not ptr:
        return None
    while True:
        n = len(ptr)
        for whole, dst, src in stm:
            if src and dst in ty and dst not in ptr and not whole.startswith("(*") and \
                    POINTER.match(ty[dst]) and set(re.findall(r"_\d+\b", src)) & ptr:
                ptr.add(dst)
        if len(ptr) == n:
            break
    bad = []
    for whole, dst, src in stm:
        d = DEREF.search(whole)
        if d and d[1] in ptr:
            bad.append("the contents of the atomic are written by an ordinary store through a shared reference")
        if not src:
            continue
        d = DEREF.search(src)
        if d and d[1] in ptr and src.startswith(("copy ", "move ")) and not POINTER.match(ty.get(dst, "")):
            bad.append("the contents of the atomic are read by an ordinary load through a shared reference")
        c = PLAIN.match(src)
        if c and set(re.findall(r"_\d+\b", src[c.end():])) & ptr:
            bad.append("the contents of the atomic are accessed by ptr::%s through a shared reference" % c[1])
    return bad


def holds(ty):
    """Does a value of this type (not what it points to) contain a MaybeUninit?"""
    return "MaybeUninit<" in ty and not ty.lstrip().startswith(("&", "*"))


def lint(path):
    """([(function, text)] reinterpretations, functions read, transmutes judged,
    [(function, text)] ordinary accesses through shared references, functions with such references)"""
    bad, nfn, ncast, plain, nshared = [], 0, 0, [], 0
    with open(path) as f:
        text = f.read()
    for body in re.split(r"\n(?=\S)", text):
        lines = body.split("\n")
        m = FN.match(lines[0])
        if m is None:
            continue
        nfn += 1
        if "(Transmute)" not in body and "AtomicMaybeUninit<" not in lines[0]:
            continue
        name = re.sub(r"<impl at \S*?/src/", "<impl at src/", m[1])
        ty = {a[1]: a[2].strip() for a in ARG.finditer(m[2])}
        args = set(ty)
        stm, full = [], []
        for l in lines[1:]:
            d = LOCAL.match(l)
            if d:
                ty[d[1]] = d[2]
                continue
            if ASM.match(l):
                stm += [(a[1] or a[2], None) for a in OUT.finditer(l)]
                continue
            a = ASSIGN.match(l)
            if a:
                full.append((a[1], a[2], a[3]))
            if a and not (a[1].startswith("(*") or a[1].startswith("*")):
                stm.append((a[2], a[3]))
        r = shared_accesses(ty, args, full)
        if r is not None:
            nshared += 1
            plain += [(name, t) for t in dict.fromkeys(r)]
        taint = {a for a in args if holds(ty[a])}
        while True:
            n = len(taint)
            for dst, src in stm:
                if dst in taint or dst not in ty or INIT.fullmatch(ty[dst]):
                    continue
                if src is None:
                    if holds(ty[dst]):
                        taint.add(dst)
                    continue
                used = set(re.findall(r"_\d+\b", src))
                if CALL.match(src) and not src.startswith(("move ", "copy ", "const ", "(", "[", "&")):
                    if holds(ty[dst]) and not NEW.match(src):
                        taint.add(dst)
                elif used & taint and not src.startswith("&"):
                    taint.add(dst)
                elif holds(ty[dst]) and "(*_" in src:
                    taint.add(dst)
            if len(taint) == n:
                break
        for dst, src in stm:
            c = CAST.match(src) if src else None
            if c is None:
                continue
            ncast += 1
            base = re.search(r"_\d+", c[1])
            if base and base[0] in taint and INIT.fullmatch(c[2]):
                bad.append((name, "a possibly-uninitialised `%s` is transmuted to `%s`" % (ty.get(base[0]), c[2])))
    return bad, nfn, ncast, plain, nshared


SINK = re.compile(r"::atomic_(?:store|swap|compare_exchange|compare_exchange_weak)$")
CALLEE = re.compile(r"^((?:[\w<][^()]*?))\((.*)\)$")
PUBLIC = ("store", "swap", "compare_exchange", "compare_exchange_weak")


def opaque_arguments(path):
    """LLVM before 20 may fold an undefined assembly operand to different values; on such compilers every
    possibly-uninitialised argument of the safe operations has to pass `black_box` before it reaches the assembly.
    ([(function, text)], functions followed)"""
    with open(path) as f:
        text = f.read()
    fns = []
    for body in re.split(r"\n(?=\S)", text):
        lines = body.split("\n")
        m = FN.match(lines[0])
        if m is None:
            continue
        ty = {a[1]: a[2].strip() for a in ARG.finditer(m[2])}
        params = list(ty)
        flow, calls = [], []
        for l in lines[1:]:
            a = ASSIGN.match(l)
            if not a or ASM.match(l):
                continue
            c = CALLEE.match(a[3])
            if c and not a[3].startswith(("move ", "copy ", "const ", "(", "[", "&")):
                calls.append((c[1], [re.findall(r"_\d+\b", x) for x in split(c[2])]))
            else:
                flow.append((a[2], re.findall(r"_\d+\b", a[3])))
        src = {p: {k} for k, p in enumerate(params) if holds(ty[p])}
        while True:
            n = sum(map(len, src.values()))
            for d, us in flow:
                for u in us:
                    if u in src:
                        src.setdefault(d, set()).update(src[u])
            if sum(map(len, src.values())) == n:
                break
        fns.append((m[1], params, ty, src, calls))
    need = {}
    while True:
        n = sum(map(len, need.values()))
        for name, params, ty, src, calls in fns:
            for callee, ops in calls:
                last = re.sub(r"::<.*>$", "", callee).rsplit("::", 1)[-1]
                for k, us in enumerate(ops):
                    if SINK.search(callee) or k in need.get(last, ()):
                        for u in us:
                            need.setdefault(name.rsplit("::", 1)[-1], set()).update(src.get(u, ()))
        if sum(map(len, need.values())) == n:
            break
    bad = []
    for name, params, ty, src, calls in fns:
        last = name.rsplit("::", 1)[-1]
        if last in PUBLIC and params and SHARED.match(ty[params[0]]):
            bad += [(re.sub(r"<impl at \S*?/src/", "<impl at src/", name),
                     "its argument %d reaches the assembly without passing `black_box` although the compiler's LLVM is older "
                     "than 20" % k) for k in sorted(need.get(last, ()))]
    return bad, len(fns)


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += (ch in "(<[{") - (ch in ")>]}")
        cur += ch
    return out + [cur]
