"""Rules decided on the compiler's own artefacts: layout constants, trait implementations, type-level
witnesses, IR attributes, and the assembler's view of every instruction."""

import json
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import build as bld
from . import configs, engine, probe, surface
from . import toolchain as tc

HERE = os.path.dirname(os.path.abspath(__file__))
T = probe.TYPES
OPS = ("load", "store", "swap", "cas")


def all_configs(thorough):
    return [c for c in configs.CONFIGS.values() if thorough or c.tier == "quick"]


def built(thorough, o, want=None, needs_probe=False):
    """[(config, meta)] of the configurations that compile."""
    cs = [c for c in all_configs(thorough) if want is None or want(c)]
    res = engine.run(cs, (), fresh=False)
    out = []
    for c in cs:
        meta = res[c.name][0]
        if meta["status"] == "crate":
            o.notes.append("%s: the crate does not compile there (decided by C21)" % c.name)
            continue
        if meta["status"] == "probe" and (needs_probe or not meta["consts"]):
            o.undecided.append("%s: the API calls do not compile: %s" % (c.name, meta["error"][-1500:]))
            continue
        out.append((c, meta))
    return out


# C17 -----------------------------------------------------------------------------

CONST_WITNESS = """#![no_std]
#![allow(dead_code, unused)]
use core::mem::MaybeUninit as MU;
use atomic_maybe_uninit::AtomicMaybeUninit as A;
"""


def layout(p, thorough):
    from .check import Finding, Outcome
    o = Outcome()
    n = 0
    cs = built(thorough, o)
    for c, meta in cs:
        q = meta["consts"]
        for t in T:
            size = probe.size_of(t, c.ptr)
            for what, have, want in (("size_of", q["size_" + t], size), ("align_of", q["align_" + t], size),
                                     ("size_of::<MaybeUninit>", q["msize_" + t], size)):
                n += 1
                if have != want:
                    o.findings.append(Finding(c.name, "AtomicMaybeUninit<%s>" % t, "layout",
                                              "%s is %d, not %d" % (what, have, want), "src/lib.rs"))
            n += 1
            if q["align_" + t] < q["malign_" + t]:
                o.findings.append(Finding(c.name, "AtomicMaybeUninit<%s>" % t, "layout",
                                          "align_of is smaller than that of the value type", "src/lib.rs"))
    o.coverage = {"configurations": len(cs), "layout_facts": n}
    o.samples = [{"configuration": c.name, "type": "u64", "size": m["consts"]["size_u64"], "align": m["consts"]["align_u64"],
                  "value_align": m["consts"]["malign_u64"]} for c, m in cs[:4]]
    return o


# C20 -----------------------------------------------------------------------------

EXPECTED = os.path.join(HERE, "expected_avail.json")


def avail_row(q):
    return {"types": {t: "".join(k for k, op in zip("lswc", OPS) if q["avail_%s_%s" % (op, t)]) for t in T},
            "has": [w for w in probe.WIDTHS + ["cas"] if q.get("has_" + w)]}


def availability(p, thorough):
    from .check import Finding, Outcome
    o = Outcome()
    with open(EXPECTED) as f:
        exp = json.load(f)
    n = 0
    cs = all_configs(thorough)
    res = engine.run(cs, ())
    got = 0
    for c in cs:
        meta = res[c.name][0]
        if meta["status"] == "crate":
            o.notes.append("%s: the crate does not compile there (decided by C21)" % c.name)
            continue
        if meta["status"] == "probe" and not meta["consts"]:
            o.findings.append(Finding(c.name, "macros", "avail", "the availability macros or traits cannot be used: "
                                      + meta["error"][-300:].strip(), "src/"))
            continue
        if meta["status"] == "probe":
            o.findings.append(Finding(c.name, "API", "avail", "an operation the traits promise cannot be called: "
                                      + meta["error"][-600:].strip(), "src/"))
            continue
        got += 1
        q = meta["consts"]
        row = avail_row(q)
        where = "src/arch"

        def bad(what, msg):
            o.findings.append(Finding(c.name, what, "avail", msg, where))
        e = exp.get(c.name.replace("+debug", "").replace("+prellvm20", ""))
        if e is None:
            o.undecided.append("%s: no expected table entry" % c.name)
            continue
        for t in T:
            n += 1
            lost = set(e["types"][t]) - set(row["types"][t])
            if lost:
                bad("%s" % t, "documented operations are not implemented: " +
                    ", ".join(x for k, x in zip("lswc", ("load", "store", "swap", "compare_exchange")) if k in lost))
            n += 1
            if ("c" in row["types"][t] or "w" in row["types"][t]) and not set("ls") <= set(row["types"][t]):
                bad(t, "read-modify-write without load and store")
            if not q["prim_" + t]:
                bad(t, "not a Primitive")
            n += 1
        for a, b in (("i8", "u8"), ("i16", "u16"), ("i32", "u32"), ("i64", "u64"), ("i128", "u128"),
                     ("isize", "usize"), ("usize", "u%d" % c.ptr)):
            n += 1
            if row["types"][a] != row["types"][b]:
                bad(a, "operations differ from those of %s" % b)
        for w in probe.WIDTHS + ["cas"]:
            n += 1
            h, no = bool(q.get("has_" + w)), bool(q.get("no_" + w))
            if h == no:
                bad("cfg_has_atomic_%s!/cfg_no_atomic_%s!" % (w, w),
                    "both expand their contents" if h else "neither expands its contents")
            if w in e["has"] and not h:
                bad("cfg_has_atomic_%s!" % w, "no longer expands although the operations are implemented")
            if h and w not in e["has"] and w != "cas" and not all(set("ls") <= set(row["types"][t]) for t in width_types(w)):
                bad("cfg_has_atomic_%s!" % w, "expands although load and store are not implemented at this width")
            elif h and w != "cas" and not all(set("ls") <= set(row["types"][t]) for t in width_types(w)):
                bad("cfg_has_atomic_%s!" % w, "expands although load and store are not implemented at this width")
            elif h and w == "cas" and not all("w" in x and "c" in x for x in row["types"].values() if x):
                bad("cfg_has_atomic_cas!", "expands although swap or compare_exchange is missing for a supported type")
        n += 1
        pw = str(c.ptr)
        if bool(q.get("has_ptr")) != bool(q.get("has_" + pw)):
            bad("cfg_has_atomic_ptr!", "differs from cfg_has_atomic_%s!" % pw)
        # 64-bit tables are conservative on pre-v6 Arm Linux (a run-time helper is needed)
    o.coverage = {"configurations": got, "availability_facts": n}
    o.samples = [{"configuration": c.name, "row": avail_row(res[c.name][0]["consts"])} for c in cs[:2]
                 if res[c.name][0]["status"] == "ok"]
    return o


def width_types(w):
    return ("isize", "usize") if w == "ptr" else ("i" + w, "u" + w)


# C21 -----------------------------------------------------------------------------

LLC = "llc"
ASMRE = re.compile(r'( asm [a-z ]*")((?:[^"\\]|\\.)*)(")')
ISA = re.compile(r"\.(arch|arch_extension|cpu|fpu|machine|option\s+(?!push|pop|norelax|relax|norvc|nopic|pic)|"
                 r"set\s+(?!push|pop|noat|at\b|noreorder|reorder|nomacro|macro)|code16|code32|code64|thumb|arm|insn|"
                 r"byte|2byte|4byte|8byte|short|hword|half|word|long|quad|inst)\b")

X86_NEED = {}
for _m in ("cmpxchg16b",):
    X86_NEED[_m] = "cmpxchg16b"
X86_NEED.update({"cmpxchg8b": "cx8", "mfence": "sse2", "lfence": "sse2", "sfence": "sse", "cmpxchg": "i486", "xadd": "i486",
                 "bswap": "i486"})
for _m in ("fild", "fistp", "fld", "fstp", "fist", "fst", "fxch"):
    X86_NEED[_m] = "x87"
for _m in ("movlps", "movaps", "movups", "xorps", "movss", "shufps", "movhps", "andps", "orps", "movntps"):
    X86_NEED[_m] = "sse"
for _m in ("movq", "movd", "movdqa", "movdqu", "movlpd", "pxor", "movsd", "movapd", "punpckldq", "punpcklqdq", "pshufd",
           "movntdq", "movnti", "movhpd"):
    X86_NEED[_m] = "sse2"
for _m in ("pextrd", "pinsrd", "pextrq", "pinsrq"):
    X86_NEED[_m] = "sse4.1"
for _m in ("vmovdqa", "vmovdqu", "vmovq", "vmovaps", "vmovups", "vmovlps"):
    X86_NEED[_m] = "avx"
X86_BASE = set("""mov movzx movsx xchg lock and or xor add sub cmp test not neg inc dec lea push pop jmp nop rep cld
adc sbb shl shr sar rol ror""".split())


def x86_features(cfg):
    out = set()
    for line in tc.run([tc.rustc(), "--print", "cfg", *tc.target_flags(cfg)]).stdout.splitlines():
        m = re.fullmatch(r'target_feature="(.*)"', line.strip())
        if m:
            out.add(m[1])
    f = set(cfg.cfgs)
    if cfg.arch == "x86_64":
        out.add("x87")
    if not any("no_cmpxchg8b" in x for x in f):
        out.add("cx8")
    if not any(x.endswith("no_cmpxchg") for x in f):
        out.add("i486")
    return out


PROBE = re.compile(r"(?!_R|_ZN)[a-z]+__")


def assemble(cfg, meta):
    """Problems the assembler or the feature tables have with the code of one configuration."""
    d = engine.cfg_dir(cfg)
    path = os.path.join(d, "asm.json")
    old = engine.read_json(path)
    key = engine.sha(json.dumps([meta["ir"], engine.tool_hash(["statics.py"]), engine.build_hash()]))
    if old and old["key"] == key:
        return old
    with open(os.path.join(d, "opt.ll")) as f:
        text = f.read()
    from . import llir
    fns = llir.split_module(text)
    templates, per = {}, {}
    problems = []
    # each distinct body once; functions without assembly are the compiler's own business
    seen, drop = {}, []
    for k, fn in fns.items():
        v = "\n".join(fn[1])
        if " asm " not in v:
            if PROBE.match(k):
                drop.append(k)
            continue
        cn = llir.canon(fn)
        if cn in seen and PROBE.match(k):
            drop.append(k)
        else:
            seen[cn] = k
        for m in ASMRE.finditer(v):
            templates.setdefault(m[2], k)
    isa = {}
    for t, k in templates.items():
        for l in lines(t):
            if ISA.match(l):
                isa.setdefault(t, l)
    body = re.sub(r"(?ms)^define (?:[^@\n]*)@(\"[^\"]*\"|[-\w.$]+)\(.*?^}\n",
                  lambda m: "" if m[1].strip('"') in set_drop else m[0], text) if (set_drop := set(drop)) else text
    if isa:
        # assembled without the directives that would raise the ISA level
        body = ASMRE.sub(lambda m: m[1] + strip_isa(m[2]) + m[3], body)
    tmp = tempfile.mkdtemp(prefix="amu-llc-")
    try:
        src = os.path.join(tmp, "x.ll")
        with open(src, "w") as f:
            f.write(body)
        llc = os.path.join(os.path.dirname(bld.opt_bin()), LLC)
        err = ""
        for lvl in ("-O0", "-O2"):
            p = subprocess.run([llc, lvl, "-filetype=obj", "-o", os.path.join(tmp, "x.o"), src],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            err = p.stderr
            if p.returncode == 0 or "ran out of registers" not in err:
                break
        if p.returncode:
            if re.search(r"\.ll:\d+:\d+: error:", err):
                raise tc.ToolError("llc does not accept the module of %s: %s" % (cfg.name, err[-1500:]))
            msgs = {}
            ls = err.splitlines()
            for i, l in enumerate(ls):
                m = re.search(r"error: (.*)", l)
                if m:
                    src_line = ls[i + 1].strip() if i + 1 < len(ls) else ""
                    msgs.setdefault((m[1], re.sub(r"\s+", " ", src_line)), 1)
            if not msgs:
                raise tc.ToolError("llc %s: %s" % (cfg.name, err[-1500:]))
            for m, s in msgs:
                fn = re.search(r"function '([^']*)'", m)
                mn = s.split(" ")[0] if s else ""
                k = fn[1] if fn else next((k for t, k in templates.items() if any(x.split(" ")[0] == mn for x in lines(t))),
                                          "assembly")
                problems.append((k, "the assembler rejects `%s` for this target: %s" % (s, m)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    insns = set()
    x86 = cfg.arch in ("x86", "x86_64")
    feats = x86_features(cfg) if x86 else set()
    und = []
    for t, k in templates.items():
        for l in lines(t):
            if not l or l.startswith((".", "//", "#")) or re.fullmatch(r"[\w.$%{}:]+:", l):
                continue
            w = re.sub(r"^[\w.$%{}:]*\d+:\s*", "", l).split()
            if not w:
                continue
            insns.add(w[0])
            if not x86:
                continue
            for mn in (w[:2] if w[0] in ("lock", "rep") else w[:1]):
                need = X86_NEED.get(mn)
                if need is None:
                    if mn not in X86_BASE and not re.fullmatch(r"(set|j)(n?[abceglopsz]e?|p[eo])", mn):
                        if mn.startswith("cmov"):
                            need = "cmov"
                        else:
                            und.append("[%s] instruction `%s` is not in the feature table" % (cfg.name, mn))
                if need and need not in feats and not (need == "cmov" and cfg.arch == "x86_64"):
                    problems.append((k, "`%s` needs `%s`, which this configuration does not guarantee" % (l, need)))
    r = {"key": key, "problems": sorted(set(problems)), "und": sorted(set(und)), "functions": len(seen),
         "templates": len(templates), "mnemonics": len(insns)}
    engine.write_json(path, r)
    return r


def lines(t):
    t = t.replace("\\0A", "\n").replace("\\09", " ").replace("\\22", '"')
    return [x.strip() for x in re.split(r"[\n;]", t)]


def strip_isa(t):
    return "\\0A".join(x for x in t.split("\\0A") if not ISA.match(x.replace("\\09", " ").strip()))


def instructions(p, thorough):
    from .check import Finding, Outcome, arch_files
    o = Outcome()
    cs = all_configs(thorough)
    res = engine.run(cs, ())
    n = {"configurations": 0, "function_bodies_assembled": 0, "assembly_blocks": 0, "distinct_mnemonics": 0}
    oks = []
    for c in cs:
        meta = res[c.name][0]
        n["configurations"] += 1
        if meta["status"] == "crate":
            err = re.findall(r"^error.*", meta["error"], re.M)
            o.findings.append(Finding(c.name, "crate", "build", "the crate does not compile for this target: %s"
                                      % "; ".join(err[:3]), "src/"))
        elif meta["status"] == "probe":
            o.undecided.append("%s: the API calls do not compile: %s" % (c.name, meta["error"][-800:]))
        else:
            oks.append((c, meta))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda x: assemble(*x), oks))
    for (c, meta), r in zip(oks, rs):
        n["function_bodies_assembled"] += r["functions"]
        n["assembly_blocks"] += r["templates"]
        n["distinct_mnemonics"] += r["mnemonics"]
        o.undecided += r["und"]
        for k, msg in r["problems"]:
            o.findings.append(Finding(c.name, k, "isa", msg, arch_files(meta)))
        if len(o.samples) < 5:
            o.samples.append({"configuration": c.name, "bodies": r["functions"], "blocks": r["templates"]})
    o.coverage = n
    return o


# C19 -----------------------------------------------------------------------------

WHEAD = """#![no_std]
#![allow(dead_code, unused)]
use core::{mem::MaybeUninit as MU, sync::atomic::Ordering::*};
use atomic_maybe_uninit::{AtomicMaybeUninit as A, raw::*};
"""

# (name, rule, failing code, compiling twin)
NEGATIVE = [
    ("seal-primitive", "Primitive cannot be implemented outside the crate",
     "#[derive(Clone, Copy)] struct My(u32); impl Primitive for My {} fn f<T: Primitive>() {} fn g() { f::<My>() }",
     "#[derive(Clone, Copy)] struct My(u32); fn f<T: Primitive>() {} fn g() { f::<u32>() }"),
    ("seal-private", "the sealing trait is not nameable",
     "#[derive(Clone, Copy)] struct My(u32); unsafe impl atomic_maybe_uninit::private::PrimitivePriv for My { type Align = u32; }",
     "#[derive(Clone, Copy)] struct My(u32);"),
    ("seal-load", "AtomicLoad cannot be implemented outside the crate",
     "#[derive(Clone, Copy)] struct My(u32); impl AtomicLoad for My { unsafe fn atomic_load(s: *const MU<Self>, "
     "o: core::sync::atomic::Ordering) -> MU<Self> { unsafe { s.read() } } }",
     "#[derive(Clone, Copy)] struct My(u32); impl My { unsafe fn atomic_load(s: *const MU<Self>, "
     "o: core::sync::atomic::Ordering) -> MU<Self> { unsafe { s.read() } } }"),
    ("seal-store", "AtomicStore cannot be implemented outside the crate",
     "#[derive(Clone, Copy)] struct My(u32); impl AtomicStore for My { unsafe fn atomic_store(d: *mut MU<Self>, v: MU<Self>, "
     "o: core::sync::atomic::Ordering) { unsafe { d.write(v) } } }",
     "#[derive(Clone, Copy)] struct My(u32); impl My { unsafe fn atomic_store(d: *mut MU<Self>, v: MU<Self>, "
     "o: core::sync::atomic::Ordering) { unsafe { d.write(v) } } }"),
    ("only-primitive", "the atomic cannot be instantiated with other types",
     "fn f(a: &A<bool>) {}", "fn f(a: &A<u8>) {}"),
    ("only-primitive-ptr", "the atomic cannot be instantiated with pointers",
     "fn f(a: &A<*mut u8>) {}", "fn f(a: &A<usize>) {}"),
    ("only-primitive-ref", "the atomic cannot be instantiated with references",
     "fn f(a: &A<&'static u8>) {}", "fn f(a: &A<usize>) {}"),
    ("only-primitive-nonzero", "the atomic cannot be instantiated with types that have invalid values",
     "fn f(a: &A<core::num::NonZeroU32>) {}", "fn f(a: &A<u32>) {}"),
    ("raw-load-unsafe", "the raw load is unsafe to call",
     "fn f(p: *const MU<u32>) -> MU<u32> { <u32 as AtomicLoad>::atomic_load(p, Relaxed) }",
     "fn f(p: *const MU<u32>) -> MU<u32> { unsafe { <u32 as AtomicLoad>::atomic_load(p, Relaxed) } }"),
    ("raw-store-unsafe", "the raw store is unsafe to call",
     "fn f(p: *mut MU<u32>, v: MU<u32>) { <u32 as AtomicStore>::atomic_store(p, v, Relaxed) }",
     "fn f(p: *mut MU<u32>, v: MU<u32>) { unsafe { <u32 as AtomicStore>::atomic_store(p, v, Relaxed) } }"),
    ("raw-swap-unsafe", "the raw swap is unsafe to call",
     "fn f(p: *mut MU<u32>, v: MU<u32>) -> MU<u32> { <u32 as AtomicSwap>::atomic_swap(p, v, Relaxed) }",
     "fn f(p: *mut MU<u32>, v: MU<u32>) -> MU<u32> { unsafe { <u32 as AtomicSwap>::atomic_swap(p, v, Relaxed) } }"),
    ("raw-cas-unsafe", "the raw compare-exchange is unsafe to call",
     "fn f(p: *mut MU<u32>, v: MU<u32>) { <u32 as AtomicCompareExchange>::atomic_compare_exchange(p, v, v, Relaxed, Relaxed); }",
     "fn f(p: *mut MU<u32>, v: MU<u32>) { unsafe { <u32 as AtomicCompareExchange>::atomic_compare_exchange(p, v, v, Relaxed, "
     "Relaxed); } }"),
    ("raw-casw-unsafe", "the raw weak compare-exchange is unsafe to call",
     "fn f(p: *mut MU<u32>, v: MU<u32>) { <u32 as AtomicCompareExchange>::atomic_compare_exchange_weak(p, v, v, Relaxed, "
     "Relaxed); }",
     "fn f(p: *mut MU<u32>, v: MU<u32>) { unsafe { <u32 as AtomicCompareExchange>::atomic_compare_exchange_weak(p, v, v, "
     "Relaxed, Relaxed); } }"),
    ("from-ptr-unsafe", "from_ptr is unsafe to call",
     "fn f(p: *mut MU<u32>) { let _ = A::<u32>::from_ptr(p); }",
     "fn f(p: *mut MU<u32>) { let _ = unsafe { A::<u32>::from_ptr(p) }; }"),
    ("get-mut-shared", "get_mut needs exclusive access",
     "fn f(a: &A<u32>) { let _ = a.get_mut(); }", "fn f(a: &mut A<u32>) { let _ = a.get_mut(); }"),
    ("get-mut-alias", "two get_mut borrows cannot overlap",
     "fn f(a: &mut A<u32>) { let x = a.get_mut(); let y = a.get_mut(); *x = MU::new(1); *y = MU::new(2); }",
     "fn f(a: &mut A<u32>) { let x = a.get_mut(); *x = MU::new(1); let y = a.get_mut(); *y = MU::new(2); }"),
    ("get-mut-atomic", "no atomic operation while a get_mut borrow lives",
     "fn f(a: &mut A<u32>) { let x = a.get_mut(); a.store(MU::new(3), Relaxed); *x = MU::new(1); }",
     "fn f(a: &mut A<u32>) { let x = a.get_mut(); *x = MU::new(1); a.store(MU::new(3), Relaxed); }"),
    ("get-mut-outlive", "a get_mut borrow cannot outlive the atomic",
     "fn f<'a>() -> &'a mut MU<u32> { let mut a = A::<u32>::new(MU::new(1)); a.get_mut() }",
     "fn f<'a>(a: &'a mut A<u32>) -> &'a mut MU<u32> { a.get_mut() }"),
    ("into-inner-shared", "into_inner needs ownership",
     "fn f(a: &A<u32>) -> MU<u32> { a.into_inner() }", "fn f(a: A<u32>) -> MU<u32> { a.into_inner() }"),
    ("into-inner-move", "the atomic is gone after into_inner",
     "fn f(a: A<u32>) { let x = a.into_inner(); a.store(x, Relaxed); }",
     "fn f(a: A<u32>) { let x = MU::new(1); a.store(x, Relaxed); }"),
    ("not-copy", "the atomic cannot be copied",
     "fn f(a: A<u32>) { let b = a; let c = a; }", "fn f(a: A<u32>) { let b = a; let c = b; }"),
    ("field-private", "the storage is not reachable except through the API",
     "fn f(a: &A<u32>) { let _ = &a.v; }", "fn f(a: &A<u32>) { let _ = &a; }"),
    ("load-maybe-uninit", "load does not claim the value is initialised",
     "fn f(a: &A<u32>) -> u32 { a.load(Relaxed) }", "fn f(a: &A<u32>) -> MU<u32> { a.load(Relaxed) }"),
    ("swap-maybe-uninit", "swap does not claim the value is initialised",
     "fn f(a: &A<u32>) -> u32 { a.swap(MU::uninit(), Relaxed) }", "fn f(a: &A<u32>) -> MU<u32> { a.swap(MU::uninit(), Relaxed) }"),
    ("cas-maybe-uninit", "compare_exchange does not claim the value is initialised",
     "fn f(a: &A<u32>) -> Result<u32, u32> { a.compare_exchange(MU::uninit(), MU::uninit(), Relaxed, Relaxed) }",
     "fn f(a: &A<u32>) -> Result<MU<u32>, MU<u32>> { a.compare_exchange(MU::uninit(), MU::uninit(), Relaxed, Relaxed) }"),
    ("get-mut-maybe-uninit", "get_mut does not claim the value is initialised",
     "fn f(a: &mut A<u32>) -> &mut u32 { a.get_mut() }", "fn f(a: &mut A<u32>) -> &mut MU<u32> { a.get_mut() }"),
    ("into-inner-maybe-uninit", "into_inner does not claim the value is initialised",
     "fn f(a: A<u32>) -> u32 { a.into_inner() }", "fn f(a: A<u32>) -> MU<u32> { a.into_inner() }"),
    ("closure-maybe-uninit", "fetch_update's closure sees a possibly uninitialised value",
     "fn f(a: &A<u32>) { let _ = a.fetch_update(Relaxed, Relaxed, |x: u32| None); }",
     "fn f(a: &A<u32>) { let _ = a.fetch_update(Relaxed, Relaxed, |x: MU<u32>| None); }"),
    ("invariant", "no coercion of a reference to the atomic into a reference to a plain value",
     "fn f<'a>(a: &'a A<u32>) -> &'a MU<u32> { a }", "fn f<'a>(a: &'a mut A<u32>) -> &'a MU<u32> { a.get_mut() }"),
    ("interior-const", "the compiler knows the atomic has interior mutability (no promotion to a constant)",
     "const X: &'static A<u32> = &A::<u32>::const_new(MU::uninit());",
     "const X: A<u32> = A::<u32>::const_new(MU::uninit());"),
    ("interior-promote", "the compiler knows the atomic has interior mutability (no static promotion)",
     "const Z: A<u32> = A::<u32>::const_new(MU::uninit()); fn f() -> &'static A<u32> { &Z }",
     "static Z: A<u32> = A::<u32>::const_new(MU::uninit()); fn f() -> &'static A<u32> { &Z }"),
]

_EACH = "".join("f::<A<%s>>();" % t for t in T)
POSITIVE = [
    ("send-sync", "every atomic is Send and Sync", "fn f<X: Send + Sync>() {} fn g() { %s }" % _EACH),
    ("unwind-safe", "every atomic is UnwindSafe and RefUnwindSafe",
     "fn f<X: core::panic::UnwindSafe + core::panic::RefUnwindSafe>() {} fn g() { %s }" % _EACH),
    ("unpin", "every atomic is Unpin", "fn f<X: Unpin>() {} fn g() { %s }" % _EACH),
    ("static", "every atomic can be a static, uninitialised", "".join(
        "static S_%s: A<%s> = A::<%s>::const_new(MU::uninit()); static N_%s: A<%s> = A::new(MU::uninit());"
        % (t, t, t, t, t) for t in T)),
    ("const-fns", "the constructors and accessors work in const contexts", "".join(
        "const C_%s: MU<%s> = { let mut a = A::<%s>::new(MU::new(7)); *a.get_mut() = MU::new(9); let p = a.as_ptr(); "
        "let r = unsafe { A::<%s>::from_ptr(p) }; let q = r.as_ptr(); unsafe { *q = MU::new(11); } a.into_inner() }; "
        "const _: () = assert!(unsafe { C_%s.assume_init() } == 11); "
        "const D_%s: MU<%s> = A::<%s>::const_new(MU::uninit()).into_inner();"
        % (t, t, t, t, t, t, t, t) for t in T)),
    ("traits", "From<T>, From<MaybeUninit<T>> and Debug are implemented for every type",
     "fn f<T: Primitive>() where A<T>: From<T> + From<MU<T>> + core::fmt::Debug {} fn g() { %s }"
     % "".join("f::<%s>();" % t for t in T)),
    ("generic", "operations can be used through the trait bounds",
     "fn f<T: AtomicCompareExchange + AtomicSwap>(a: &A<T>, v: MU<T>) { a.store(a.load(Relaxed), Relaxed); a.swap(v, SeqCst); "
     "let _ = a.compare_exchange(v, v, AcqRel, Acquire); let _ = a.compare_exchange_weak(v, v, AcqRel, Acquire); "
     "let _ = a.fetch_update(AcqRel, Acquire, |x| Some(x)); }"),
    ("ref-lifetime", "from_ptr yields a shared reference of any lifetime",
     "unsafe fn f<'a>(p: *mut MU<u64>) -> &'a A<u64> { unsafe { A::from_ptr(p) } }"),
]

WITNESS_CONFIGS = ["x86_64", "x86_64+legacy", "i686", "aarch64"]

# IR-level facts about a function taking `&AtomicMaybeUninit<T>`: the compiler must not assume that
# the referent is immutable or unaliased, and a static must live in writable memory.
INTERIOR = """#![no_std]
use core::mem::MaybeUninit as MU;
use atomic_maybe_uninit::AtomicMaybeUninit as A;
extern "Rust" { fn ext(); }
%s
"""


def interior_src():
    s = []
    for t in T:
        s.append("#[no_mangle] pub static ST_%s: A<%s> = A::<%s>::const_new(MU::uninit());" % (t, t, t))
        s.append("#[no_mangle] pub static PL_%s: MU<%s> = MU::uninit();" % (t, t))
        s.append("#[no_mangle] pub unsafe fn rf_%s(a: &A<%s>) -> usize { a as *const _ as usize }" % (t, t))
        s.append("#[no_mangle] pub unsafe fn pl_%s(a: &MU<%s>) -> usize { a as *const _ as usize }" % (t, t))
    return INTERIOR % "\n".join(s)


def compile_witness(cfg, cfgs, code, tag):
    d = engine.cfg_dir(cfg)
    tmp = tempfile.mkdtemp(prefix="amu-w-")
    try:
        src = os.path.join(tmp, "w.rs")
        with open(src, "w") as f:
            f.write(WHEAD + code + "\n")
        p = tc.run(tc._common(cfg, cfgs) + ["--crate-name", "w", "--emit=metadata", "--error-format=short", "--extern",
                                            "atomic_maybe_uninit=" + os.path.join(d, "libatomic_maybe_uninit.rmeta"),
                                            src, "--out-dir", tmp])
        codes = sorted(set(re.findall(r"error\[(E\d+)\]", p.stderr)))
        return p.returncode == 0, codes, p.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def witnesses(p, thorough):
    from .check import Finding, Outcome
    o = Outcome()
    names = WITNESS_CONFIGS if not thorough else [c.name for c in all_configs(True)]
    cs = built(thorough, o, want=lambda c: c.name in names)
    jobs = []
    for c, meta in cs:
        q = meta["consts"]
        cas = q["avail_cas_u32"]
        for n, rule, bad, good in NEGATIVE:
            if ("cas" in n or "closure" in n) and not q["avail_cas_u32"] or "swap" in n and not q["avail_swap_u32"] or \
                    not q["avail_load_u32"] and ("load" in n or "store" in good or "store" in bad):
                continue
            jobs.append((c, meta, n, rule, bad, good))
        for n, rule, good in POSITIVE:
            jobs.append((c, meta, n, rule, None, good))

    def run(j):
        c, meta, n, rule, bad, good = j
        return (compile_witness(c, meta["cfgs"], bad, n) if bad else None, compile_witness(c, meta["cfgs"], good, n))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(run, jobs))
    neg = pos = 0
    for (c, meta, n, rule, bad, good), (rb, rg) in zip(jobs, rs):
        if not rg[0]:
            if bad is None:
                o.findings.append(Finding(c.name, n, "type", "%s: this no longer compiles: %s"
                                          % (rule, first_error(rg[2])), "src/lib.rs, src/raw.rs", {"program": good}))
            else:
                o.undecided.append("[%s] witness %s: the valid twin does not compile: %s" % (c.name, n, first_error(rg[2])))
            continue
        if bad is None:
            pos += 1
            continue
        neg += 1
        if rb[0]:
            o.findings.append(Finding(c.name, n, "type", "%s: a violating program compiles" % rule,
                                      "src/lib.rs, src/raw.rs", {"program": bad}))
        elif not rb[1]:
            o.undecided.append("[%s] witness %s: rejected without an error code: %s" % (c.name, n, first_error(rb[2])))
        if len(o.samples) < 6:
            o.samples.append({"configuration": c.name, "witness": n, "rule": rule, "rejected_with": rb[1]})
    facts = 0
    for c, meta in cs:
        for t in probe.TYPES:
            for k, v in [(k, v) for k, v in meta["consts"].items() if k.startswith("nprim_")]:
                pass
        for k, v in meta["consts"].items():
            if k.startswith("nprim_"):
                facts += 1
                if v:
                    o.findings.append(Finding(c.name, k[6:], "type", "a type other than the integers is Primitive", "src/lib.rs"))
        facts += interior(c, meta, o, Finding)
    sigs = unsafe = shared = 0

    def doc(x):
        try:
            return surface.survey(surface.document(x[0], x[1]["cfgs"]))
        except tc.BuildError as e:
            return str(e)
    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(doc, cs))
    for (c, meta), d in zip(cs, ds):
        if isinstance(d, str):
            o.undecided.append("[%s] public signatures: %s" % (c.name, d))
            continue
        sigs, unsafe = sigs + d[1], unsafe + d[2]
        o.findings += [Finding(c.name, n, "surface", t, "src/lib.rs, src/raw.rs") for n, t in d[0]]
    for c, meta in cs:
        shared += meta["mir"][4]
        o.findings += [Finding(c.name, n, "plain", t, "src/lib.rs") for n, t in meta["mir"][3]]
    o.coverage = {"configurations": len(cs), "rejected_programs": neg, "accepted_programs": pos, "type_and_ir_facts": facts,
                  "safe_signatures_judged": sigs, "unsafe_functions_seen": unsafe, "shared_reference_functions": shared}
    return o


def first_error(s):
    m = re.search(r"error.*", s)
    return m[0][:300] if m else s[:300]


def interior(c, meta, o, Finding):
    d = engine.cfg_dir(c)
    tmp = tempfile.mkdtemp(prefix="amu-i-")
    n = 0
    try:
        src = os.path.join(tmp, "interior.rs")
        with open(src, "w") as f:
            f.write(interior_src())
        try:
            os.symlink(os.path.join(d, "libatomic_maybe_uninit.rmeta"), os.path.join(tmp, "libatomic_maybe_uninit.rmeta"))
            ll = tc.compile_probe(c, meta["cfgs"], src, tmp, "interior", flags=["-Copt-level=3", "-Cno-prepopulate-passes"])
        except tc.BuildError as x:
            o.undecided.append("[%s] %s" % (c.name, str(x)[-600:]))
            return 0
        with open(ll) as f:
            text = f.read()
        for t in T:
            g = re.search(r"^@ST_%s = (.*)$" % t, text, re.M)
            f1 = re.search(r"^define [^\n]*@rf_%s\(ptr([^%%]*)%%" % t, text, re.M)
            f2 = re.search(r"^define [^\n]*@pl_%s\(ptr([^%%]*)%%" % t, text, re.M)
            g2 = re.search(r"^@PL_%s = (.*)$" % t, text, re.M)
            if not (g and f1 and f2 and g2) or " constant " not in " " + g2[1] or "readonly" not in f2[1]:
                o.undecided.append("[%s] interior mutability of %s cannot be read off the IR" % (c.name, t))
                continue
            n += 2
            if re.search(r"\bconstant\b", g[1]):
                o.findings.append(Finding(c.name, "static AtomicMaybeUninit<%s>" % t, "interior",
                                          "a static atomic is placed in read-only memory", "src/lib.rs"))
            bad = [a for a in ("readonly", "noalias") if re.search(r"\b%s\b" % a, f1[1])]
            if bad:
                o.findings.append(Finding(c.name, "&AtomicMaybeUninit<%s>" % t, "interior",
                                          "the compiler may assume that nobody writes the atomic behind a shared "
                                          "reference (%s)" % ", ".join(bad), "src/lib.rs"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return n
