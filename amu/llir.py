"""A reader for the textual LLVM IR of the probes."""

import re

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@][-\w.$]+|![\w.]*|#\d+'
                 r'|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|0x[0-9A-Fa-f]+|[A-Za-z_][\w.]*|\.\.\.|[(){}\[\]<>,=*:|]')


class ParseError(Exception):
    pass


class Undecided(Exception):
    """A construct outside what the analysis models."""
    partial = ()     # findings made before it was reached


class Endless(Undecided):
    """A loop none of whose abstract states recur."""

    def __init__(self, msg, st):
        Undecided.__init__(self, msg)
        self.st = st


META = re.compile(r', ![\w.]+ (?:![\w.]+(?:\([^)]*\))?|!\{[^}]*\})')
ATTRNO = re.compile(r' #\d+')
NAME = re.compile(r'%"[^"]*"|%[-\w.$]+')
SKIP = re.compile(r'^\s*(?:call void @llvm\.(?:experimental\.noalias\.scope\.decl|lifetime\.(?:start|end))'
                  r'|call void @llvm\.assume\(i1 true\)|;)')


WEAK = re.compile(r"memory\([^)]*\)|\b(?:readnone|readonly|writeonly|nosync|speculatable|argmemonly|inaccessiblememonly)\b")


def split_module(text):
    """name -> (header line, body lines)"""
    fns = {}
    cur = None
    weak = {}
    for m in re.finditer(r'^attributes #(\d+) = \{(.*)\}', text, re.M):
        w = set(WEAK.findall(re.sub(r'"[^"]*"', "", m[2]))) - {"memory(readwrite)"}
        if w:
            weak[m[1]] = " asm " + " ".join("weak_" + re.sub(r"\W+", "_", x) for x in sorted(w)) + " "
    glob = {m[1] for m in re.finditer(r'^@("[^"]*"|[-\w.$]+) = (?:[a-z_]+(?:\([^)]*\))? )*global ', text, re.M)}
    mut = re.compile("@(%s)(?![-\\w.$\"])" % "|".join(re.escape(x) for x in sorted(glob))) if glob else None
    for line in text.split("\n"):
        if mut and cur is not None and "@" in line:
            # memory other than the atomic that outlives the call
            line = mut.sub(lambda m: "@mut." + re.sub(r"[^-\w.$]", "_", m[1]), line)
        if " asm " in line and weak:
            # attributes that let the compiler assume the assembly does less than anything at all
            m = re.search(r'\) #(\d+)', line[line.rindex('"'):])
            if m and m[1] in weak:
                line = line.replace(" asm ", weak[m[1]], 1)
        if cur is None:
            if line.startswith("define "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                cur = (line, [])
                name = m[1].strip('"')
        elif line == "}":
            fns[name] = cur
            cur = None
        else:
            cur[1].append(line)
    return fns


ASMTEXT = re.compile(r' asm (?:[a-z_]+ )*("[^"]*", "[^"]*")')


def canon(fn):
    """Body text with local names renumbered and metadata dropped: equal texts mean equal code."""
    head, body = fn
    names = {}

    def sub(m):
        k = m[0]
        if k not in names:
            names[k] = "%%v%d" % len(names)
        return names[k]
    out = []
    h = head[:head.rindex("{")]
    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
    h = h[m.end():]
    out.append(NAME.sub(sub, ATTRNO.sub("", re.sub(r'!guid !\d+', "", h))))
    for line in body:
        if not line or SKIP.match(line):
            continue
        # keep the semantic metadata (noundef/range assertions on loads)
        nd = "!noundef" in line and " load " in line
        text = None
        if " asm " in line:
            m = ASMTEXT.search(line)
            if m:
                text = m[1]
                line = line[:m.start(1)] + "\0" + line[m.end(1):]
        line = META.sub("", line)
        line = ATTRNO.sub("", line)
        i = line.find(" ; preds")
        if i >= 0 or line[0] != " ":
            j = line.find(";")
            if j >= 0:
                line = line[:j].rstrip()
            if line.endswith(":"):
                line = sub(["%" + line[:-1].strip('"')] and re.match(r'.*', "%" + line[:-1].strip('"'))) + ":"
                out.append(line)
                continue
        line = NAME.sub(sub, line)
        if text is not None:
            line = line.replace("\0", text)
        if nd:
            line += ", !noundef"
        out.append(line)
    return "\n".join(out)


class P:
    """Token cursor over one line."""

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise ParseError("expected %r at %r" % (x, self.t[max(0, self.i - 3):self.i + 5]))

    def type(self):
        t = self.next()
        if t == "{":
            el = []
            if not self.accept("}"):
                el.append(self.type())
                while self.accept(","):
                    el.append(self.type())
                self.expect("}")
            ty = ("s", tuple(el))
        elif t == "<":
            if self.peek() == "{":
                ty = ("ps", self.type()[1])
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                ty = ("vec", n, self.type())
                self.expect(">")
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            ty = ("a", n, self.type())
            self.expect("]")
        elif t in ("ptr", "void", "float", "double", "half", "fp128", "metadata", "label", "token", "bfloat",
                   "x86_fp80", "opaque"):
            ty = (t,)
            if t == "ptr" and self.peek() == "addrspace":
                self.next()
                self.expect("(")
                self.next()
                self.expect(")")
        elif re.fullmatch(r"i\d+", t):
            ty = ("i", int(t[1:]))
        elif t[0] == "%":
            ty = ("named", t)
        else:
            raise ParseError("type %r in %r" % (t, self.t))
        # function types: `i1 (ptr, i32)`
        if self.peek() == "(" and ty[0] != "label":
            d = 0
            j = self.i
            save = self.i
            while j < len(self.t):
                if self.t[j] == "(":
                    d += 1
                elif self.t[j] == ")":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            nxt = self.t[j + 1] if j + 1 < len(self.t) else None
            if nxt and (nxt[0] in "%@" or nxt == "asm"):
                self.i = j + 1
                return ty
            self.i = save
        return ty

    ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "captures", "range", "memory", "initializes",
                 "nofpclass", "sret", "byval", "elementtype", "inalloca", "preallocated", "alignstack", "byref"}
    VALUE_KW = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr",
                "ptrtoint", "bitcast", "add", "sub", "xor", "trunc", "addrspacecast", "splat"}

    def attrs(self):
        a = []
        while True:
            t = self.peek()
            if t is None or t in self.VALUE_KW or t[0] in '%@"' or t in ",){}<[]":
                return a
            if re.fullmatch(r"-?\d.*|0x.*|c\".*", t):
                return a
            if t == "asm":
                return a
            self.next()
            if t in self.ATTRS_ARG and self.peek() == "(":
                d = 0
                while True:
                    u = self.next()
                    if u == "(":
                        d += 1
                    elif u == ")":
                        d -= 1
                        if d == 0:
                            break
            elif t == "align" or t == "alignstack":
                self.next()
            a.append(t)

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("v", t)
        if t[0] == "@":
            return ("g", t[1:].strip('"'))
        if t == "true":
            return ("c", 1)
        if t == "false":
            return ("c", 0)
        if t in ("null", "zeroinitializer"):
            return ("zero",)
        if t in ("undef", "poison"):
            return ("undef",)
        if re.fullmatch(r"-?\d+", t):
            return ("c", int(t))
        if re.fullmatch(r"0x[0-9A-Fa-f]+|-?\d+\.\d+.*", t):
            return ("undef_float", t)
        if t[0] == "c" and len(t) > 1 and t[1] == '"':
            return ("str", t)
        if t in "{[<":
            close = {"{": "}", "[": "]", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                v = self.value(ty)
                self.expect(">")
                return v
            el = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if not self.accept(","):
                        break
                self.expect(close)
            return ("agg", el)
        if t == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return ("agg", [(et, v)] * ty[1])
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "addrspacecast"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return ("cast", t, ft, v, tt)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange" and self.accept("("):
                    while self.next() != ")":
                        pass
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                et = self.type()
                ops.append((et, self.value(et)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("gep", bt, ops)
        if t in ("add", "sub", "xor"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t1 = self.type()
            a = self.value(t1)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("bin", t, t1, a, b)
        raise ParseError("value %r in %r" % (t, " ".join(self.t)))

    def tv(self):
        ty = self.type()
        at = self.attrs()
        return ty, self.value(ty), at


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "ptrtoaddr", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan"}
ORDERS = {"unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"}


def unescape(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m[1], 16)), s)


def parse_call(p, dest, tail=""):
    while p.peek() in ("tail", "musttail", "notail", "fastcc", "ccc", "coldcc", "call"):
        p.next()
    m = p.peek()
    while m and re.fullmatch(r"(cc\d*|\w+cc|amdgpu_\w+|cc)", m) and m not in ("ccc",):
        p.next()
        m = p.peek()
    rattrs = []
    # return attributes precede the type
    while True:
        t = p.peek()
        if t in ("{", "<", "[") or re.fullmatch(r"i\d+|ptr|void|float|double|half|fp128|%.*", t):
            break
        p.next()
        rattrs.append(t)
        if t in P.ATTRS_ARG and p.peek() == "(":
            d = 0
            while True:
                u = p.next()
                if u == "(":
                    d += 1
                elif u == ")":
                    d -= 1
                    if d == 0:
                        break
        elif t == "align":
            p.next()
    rt = p.type()
    if p.peek() == "asm":
        p.next()
        fl = []
        while p.peek()[0] != '"':
            fl.append(p.next())
        templ = unescape(p.next()[1:-1])
        p.expect(",")
        cons = p.next()[1:-1]
        args = parse_args(p)
        return ("asm", dest, rt, templ, cons, tuple(fl), args)
    if p.peek()[0] == "@":
        callee = ("g", p.next()[1:].strip('"'))
    else:
        callee = p.value(("ptr",))
    args = parse_args(p)
    return ("call", dest, rt, callee, args, "noundef" in rattrs)


def parse_args(p):
    p.expect("(")
    args = []
    if not p.accept(")"):
        while True:
            if p.peek() == "metadata":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    t = p.next()
                    d += t in "({["
                    d -= t in ")}]"
                args.append((("metadata",), ("undef",), []))
            else:
                args.append(p.tv())
            if not p.accept(","):
                break
        p.expect(")")
    return args


def parse_instr(s):
    noundef = s.endswith(", !noundef")
    p = P(s)
    dest = None
    if p.peek(1) == "=":
        dest = p.next()
        p.next()
    op = p.next()
    if op in BINOPS:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return ("bin", dest, op, ty, a, b)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        ft = p.type()
        v = p.value(ft)
        p.expect("to")
        return ("cast", dest, op, ft, v, p.type())
    if op == "icmp":
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return ("icmp", dest, pred, ty, a, b)
    if op == "br":
        if p.accept("label"):
            return ("br", p.next())
        p.type()
        c = p.value(("i", 1))
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return ("condbr", c, a, p.next())
    if op == "switch":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], p.next()))
        return ("switch", ty, v, d, cases)
    if op == "ret":
        ty = p.type()
        if ty == ("void",):
            return ("ret", None, None)
        return ("ret", ty, p.value(ty))
    if op == "unreachable":
        return ("unreachable",)
    if op == "phi":
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            inc.append((v, p.next()))
            p.expect("]")
            if not p.accept(","):
                break
        return ("phi", dest, ty, inc)
    if op == "select":
        while p.peek() in FLAGS:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        p.type()
        return ("select", dest, ty, c, a, p.value(ty), ct)
    if op == "freeze":
        ty = p.type()
        return ("freeze", dest, ty, p.value(ty))
    if op == "alloca":
        p.accept("inalloca")
        ty = p.type()
        return ("alloca", dest, ty)
    if op == "load":
        atomic = p.accept("atomic")
        vol = p.accept("volatile")
        ty = p.type()
        p.expect(",")
        p.type()
        v = p.value(("ptr",))
        order = None
        ss = False
        if atomic:
            if p.accept("syncscope"):
                p.expect("(")
                ss = p.next().strip('"') == "singlethread"
                p.expect(")")
            order = p.next()
        return ("load", dest, ty, v, vol, order, noundef)
    if op == "store":
        atomic = p.accept("atomic")
        vol = p.accept("volatile")
        ty = p.type()
        x = p.value(ty)
        p.expect(",")
        p.type()
        v = p.value(("ptr",))
        order = None
        if atomic:
            if p.accept("syncscope"):
                p.expect("(")
                p.next()
                p.expect(")")
            order = p.next()
        return ("store", ty, x, v, vol, order)
    if op == "fence":
        single = False
        if p.accept("syncscope"):
            p.expect("(")
            single = p.next().strip('"') == "singlethread"
            p.expect(")")
        return ("fence", p.next(), single)
    if op == "cmpxchg":
        weak = p.accept("weak")
        p.accept("volatile")
        p.type()
        ptr = p.value(("ptr",))
        p.expect(",")
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        p.type()
        b = p.value(ty)
        return ("cmpxchg", dest, ty, ptr, a, b, weak, p.next(), p.next())
    if op == "atomicrmw":
        p.accept("volatile")
        rop = p.next()
        p.type()
        ptr = p.value(("ptr",))
        p.expect(",")
        ty = p.type()
        a = p.value(ty)
        return ("atomicrmw", dest, rop, ty, ptr, a, p.next())
    if op == "getelementptr":
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(",")
        ops = []
        while True:
            et = p.type()
            ops.append((et, p.value(et)))
            if not p.accept(","):
                break
        return ("gep", dest, bt, ops)
    if op == "extractvalue":
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return ("extractvalue", dest, ty, v, idx)
    if op == "insertvalue":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return ("insertvalue", dest, ty, v, et, e, idx)
    if op == "extractelement":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        it = p.type()
        return ("extractelement", dest, ty, v, p.value(it))
    if op == "insertelement":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        p.expect(",")
        it = p.type()
        return ("insertelement", dest, ty, v, e, p.value(it))
    if op == "shufflevector":
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        p.type()
        b = p.value(ty)
        p.expect(",")
        mt = p.type()
        return ("shufflevector", dest, ty, a, b, mt, p.value(mt))
    if op in ("call", "tail", "musttail", "notail"):
        p.i -= 1
        return parse_call(p, dest)
    raise Undecided("IR instruction `%s`" % s.strip())


class Function:
    __slots__ = ("params", "blocks", "entry", "text", "back")

    def __init__(self, text):
        lines = text.split("\n")
        self.text = text
        p = P("(" + lines[0])
        self.params = []
        p.expect("(")
        if not p.accept(")"):
            while True:
                ty = p.type()
                at = p.attrs()
                self.params.append((ty, p.next(), at))
                if not p.accept(","):
                    break
        self.blocks = {}
        cur = None
        self.entry = None
        i = 1
        n = len(lines)
        while i < n:
            line = lines[i]
            i += 1
            if line[0] != " ":
                cur = []
                name = line[:-1]
                if self.entry is None:
                    self.entry = name
                self.blocks[name] = cur
                continue
            if line.lstrip().startswith("switch") and "]" not in line:
                while "]" not in lines[i]:
                    line += " " + lines[i].strip()
                    i += 1
                line += " " + lines[i].strip()
                i += 1
            if cur is None:
                self.entry = "%entry"
                cur = self.blocks["%entry"] = []
            try:
                cur.append(parse_instr(line))
            except ParseError as e:
                raise Undecided("IR line not understood: %s (%s)" % (line.strip(), e))
        self.back = self._back_targets()

    def _back_targets(self):
        """Targets of back edges (loop headers)."""
        succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t[0] == "br":
                succ[b] = [t[1]]
            elif t[0] == "condbr":
                succ[b] = [t[2], t[3]]
            elif t[0] == "switch":
                succ[b] = [t[3]] + [c[1] for c in t[4]]
            else:
                succ[b] = []
        back, color = set(), {}
        stack = [(self.entry, iter(succ[self.entry]))]
        color[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s)
                if c is None:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                if c == 1:
                    back.add(s)
            else:
                color[b] = 2
                stack.pop()
        return back
