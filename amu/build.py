"""From a configuration to IR: build.rs cfgs -> crate metadata -> availability -> probe IR."""

import os
import re
import subprocess

from . import mirlint, probe
from . import toolchain as tc

# MIR is kept close to the source and LLVM only inlines, promotes to SSA and folds constants: no
# pass that could exploit undefined behaviour, reorder memory accesses or merge functions runs.
PRE20 = "portable_atomic_pre_llvm_20"
RAW = ["-Zmir-opt-level=1", "-Zinline-mir=no", "-Copt-level=3", "-Cno-prepopulate-passes", "-Zub-checks=no"]
PASSES = "cgscc(inline,function(sroa<modify-cfg>,sccp)),globaldce"


def opt_bin():
    return os.path.join(tc.nightly_sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")


_QRE = re.compile(r'^@Q_(\w+) = .*?constant (?:<\{ )?\[4 x i8\](?: \}>)?(?: <\{ \[4 x i8\])? '
                  r'(?:c"((?:\\..|[^"])*)"|(zeroinitializer))', re.M)


def parse_consts(text, endian):
    out = {}
    for m in _QRE.finditer(text):
        if m[3]:
            out[m[1]] = 0
            continue
        b, i, x = [], 0, m[2]
        while i < len(x):
            if x[i] == "\\":
                b.append(int(x[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(x[i]))
                i += 1
        out[m[1]] = int.from_bytes(bytes(b), endian)
    return out


_CALL = re.compile(r'^\s+(?:(%[^ ]+) = )?(?:(?:tail|musttail|notail) )?call (.*?)@(?!llvm\.)("[^"]*"|[-\w.$]+)\((.*)\)')
_LOAD = re.compile(r'^\s+(%[^ ]+) = load (i(?!1,)\d+), .*!noundef')
_ARG = re.compile(r'(?:^|, )(i(?!1 )\d+) ([^,()]*\b)?noundef ([^,()]*?)(%[^ ,()]+)(?=,|$)')


_FMT = re.compile(r"^define (.*?)@(_RI?Nv(?:[MX](?:s[0-9A-Za-z]*_)?)?(?:Nt)+Cs[0-9A-Za-z]+_4core3fmt\w*)(\(.*)\{$")
_LINK = re.compile(r"\b(?:internal|private|linkonce_odr|weak_odr|available_externally|hidden|protected) ")


def drop_formatting(lines):
    """core::fmt stays outside: it only ever sees what it is handed (and the closures and impls it is given)."""
    skip = False
    for line in lines:
        if skip:
            skip = line != "}\n"
            continue
        m = _FMT.match(line) if line.startswith("define ") and "4core3fmt" in line else None
        if m is None:
            yield line
            continue
        skip = True
        args = re.sub(r" %[-\w.$]+(?=[,)])", "", re.sub(r"\b(?:personality|comdat|!\w+ !\d+).*$", "", m[3]).strip())
        yield "declare %s@%s%s\n" % (_LINK.sub("", m[1]), m[2], re.sub(r"( #\d+)?( ![a-z]+ !\d+)*$", "", args))


def mark_noundef(ll):
    """rustc promises LLVM that an integer read from memory, passed to or returned from a function is initialised
    (`noundef`). Inlining and promotion to SSA forget the promise, so record each one as a call to a marker before inlining."""
    out = []
    used = set()
    with open(ll) as f:
        for line in drop_formatting(f):
            m = _CALL.match(line) if " call " in line and "noundef" in line and " asm " not in line else None
            if m is None:
                out.append(line)
                m = _LOAD.match(line) if "!noundef" in line else None
                if m:
                    used.add(m[2])
                    out.append("  call void @amu_noundef_%s(%s %s)\n" % (m[2], m[2], m[1]))
                continue
            for a in _ARG.finditer(m[4]):
                used.add(a[1])
                out.append("  call void @amu_noundef_%s(%s %s)\n" % (a[1], a[1], a[4]))
            out.append(line)
            r = re.search(r'\bnoundef (?:[a-z]+ |range\([^)]*\) )*(i(?!1 )\d+) $', m[2])
            if m[1] and r:
                used.add(r[1])
                out.append("  call void @amu_noundef_%s(%s %s)\n" % (r[1], r[1], m[1]))
    out += ["\ndeclare void @amu_noundef_%s(%s) nounwind willreturn memory(inaccessiblemem: readwrite)\n" % (t, t)
            for t in sorted(used)]
    with open(ll, "w") as f:
        f.write("".join(out))


class CrateError(Exception):
    pass


class ProbeError(Exception):
    pass


def build(cfg, cfgs, d):
    """(constants, path of the optimised probe IR, MIR findings); the crate's dependency file is left in d."""
    try:
        tc.compile_crate(cfg, cfgs, d, extra=["-Zmir-opt-level=1", "-Zinline-mir=no", "-Copt-level=3"])
    except tc.BuildError as x:
        raise CrateError(str(x))
    mir = os.path.join(d, "atomic_maybe_uninit.mir")
    lint = mirlint.lint(mir)
    if PRE20 in cfgs:
        lint[0].extend(mirlint.opaque_arguments(mir)[0])
    os.unlink(mir)
    try:
        src = os.path.join(d, "avail.rs")
        with open(src, "w") as f:
            f.write(probe.avail_src())
        ll = tc.compile_probe(cfg, cfgs, src, d, "avail")
        with open(ll) as f:
            q = parse_consts(f.read(), cfg.endian)
        av = {(op, t): q["avail_%s_%s" % (op, t)] for t in probe.TYPES for op, _ in probe.TRAITS}
        src = os.path.join(d, "probe.rs")
        with open(src, "w") as f:
            f.write(probe.probe_src(av, cfg.ptr))
        ll = tc.compile_probe(cfg, cfgs, src, d, "probe", flags=RAW)
    except tc.BuildError as x:
        raise ProbeError(str(x))
    mark_noundef(ll)
    out = os.path.join(d, "opt.ll")
    p = subprocess.run([opt_bin(), "-S", "-passes=" + PASSES, "-inline-threshold=100000",
                        "-inline-cold-callsite-threshold=100000", "-inlinehint-threshold=100000", ll, "-o", out],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.unlink(ll)
    if p.returncode:
        raise tc.ToolError("opt %s: %s" % (cfg.name, p.stderr[-2000:]))
    return q, out, lint
