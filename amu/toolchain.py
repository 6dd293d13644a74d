"""Toolchain discovery, the per-target `core` metadata, and compilation of /repo for a config.

Nothing here executes code of /repo except its build script (the step of the ordinary build
that decides which `cfg`s the source is compiled with)."""

import fcntl
import hashlib
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AMU_REPO", "/repo")
CACHE = os.environ.get("AMU_CACHE", os.path.join(ROOT, ".cache"))
SYSROOT = os.path.join(CACHE, "sysroot")
TOOLCHAIN = "nightly"


class BuildError(Exception):
    pass


class ToolError(Exception):
    """Our own machinery failed (exit 2), as opposed to /repo not compiling."""


def run(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO", "RUSTFLAGS", "RUSTC", "RUSTDOC")) and k != "CARGO_HOME":
            del e[k]
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace")
    return p


_rustc = None


def rustc():
    """Absolute path of the nightly rustc (avoids the rustup proxy per invocation)."""
    global _rustc
    if _rustc is None:
        p = run(["rustup", "which", "rustc", "--toolchain", TOOLCHAIN])
        if p.returncode:
            raise ToolError("no nightly rustc: " + p.stderr)
        _rustc = p.stdout.strip()
    return _rustc


_nsys = None


def nightly_sysroot():
    global _nsys
    if _nsys is None:
        _nsys = run([rustc(), "--print", "sysroot"]).stdout.strip()
    return _nsys


_ver = None


def version_key():
    global _ver
    if _ver is None:
        _ver = hashlib.sha256(run([rustc(), "-vV"]).stdout.encode()).hexdigest()[:16]
    return _ver


CORE_FLAGS = {"avr-none": ["-Ctarget-cpu=atmega2560"]}


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.path = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _core_one(t):
    lib = os.path.join(SYSROOT, "lib", "rustlib", t, "lib")
    stamp = os.path.join(lib, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == version_key():
        return
    os.makedirs(lib, exist_ok=True)
    src = os.path.join(nightly_sysroot(), "lib/rustlib/src/rust/library/core/src/lib.rs")
    out = os.path.join(lib, "libcore.rmeta")
    p = run([rustc(), "--target", *target_arg(t), "--edition", "2024", "--crate-type", "lib", "--crate-name", "core",
             "-Cpanic=abort", "--cap-lints", "allow", "--emit=metadata", "-Zalways-encode-mir",
             "-Zforce-unstable-if-unmarked", *CORE_FLAGS.get(t, []), src, "-o", out])
    if p.returncode:
        raise ToolError("core for %s: %s" % (t, p.stderr[-2000:]))
    cb = os.path.join(CACHE, "cb-%s.rs" % t)
    with open(cb, "w") as f:
        f.write('#![feature(compiler_builtins, staged_api)]\n#![compiler_builtins]\n#![no_std]\n'
                '#![unstable(feature = "compiler_builtins_lib", reason = "", issue = "none")]\n')
    p = run([rustc(), "--target", *target_arg(t), "--edition", "2024", "--crate-type", "lib", "--crate-name",
             "compiler_builtins", "-Cpanic=abort", "--cap-lints", "allow", "--emit=metadata", "--sysroot", SYSROOT,
             "-Zforce-unstable-if-unmarked", *CORE_FLAGS.get(t, []), cb, "-o",
             os.path.join(lib, "libcompiler_builtins.rmeta")])
    if p.returncode:
        raise ToolError("compiler_builtins for %s: %s" % (t, p.stderr[-2000:]))
    os.unlink(cb)
    with open(stamp, "w") as f:
        f.write(version_key())


def ensure_sysroot(targets):
    with Lock("sysroot"):
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(_core_one, sorted(set(targets))))


_cfgs = {}


def target_arg(t):
    """Custom targets are described in /verif/targets."""
    j = os.path.join(ROOT, "targets", t + ".json")
    return [j, "-Zunstable-options"] if os.path.exists(j) else [t]


def target_flags(cfg):
    f = ["--target", *target_arg(cfg.target)]
    if cfg.cpu:
        f.append("-Ctarget-cpu=" + cfg.cpu)
    if cfg.features:
        f.append("-Ctarget-feature=" + cfg.features)
    return f


def target_env(cfg):
    """CARGO_CFG_* as cargo sets them for a build script."""
    key = (cfg.target, cfg.cpu, cfg.features)
    if key not in _cfgs:
        p = run([rustc(), "--print", "cfg", *target_flags(cfg)])
        if p.returncode:
            raise ToolError("--print cfg %s: %s" % (cfg.name, p.stderr))
        d = {}
        for line in p.stdout.splitlines():
            k, eq, v = line.strip().partition("=")
            if eq:
                d.setdefault(k, []).append(v.strip('"'))
            else:
                d.setdefault(k, [])
        _cfgs[key] = d
    return {"CARGO_CFG_" + k.upper().replace("-", "_"): ",".join(v) for k, v in _cfgs[key].items()}


def compile_build_script(work):
    out = os.path.join(work, "build_script")
    p = run([rustc(), "--edition", "2021", os.path.join(REPO, "build.rs"), "--crate-name", "build_script",
             "--cap-lints", "allow", "--emit=dep-info,link", "--out-dir", work],
            env={"CARGO_PKG_NAME": "atomic-maybe-uninit", "CARGO_MANIFEST_DIR": REPO})
    if p.returncode:
        raise BuildError("build.rs does not compile:\n" + p.stderr[-3000:])
    return out


def build_cfgs(cfg, script):
    """The cfgs build.rs emits for this configuration (as a list of strings)."""
    env = target_env(cfg)
    flags = []
    if cfg.cpu:
        flags.append("-Ctarget-cpu=" + cfg.cpu)
    if cfg.features:
        flags.append("-Ctarget-feature=" + cfg.features)
    env.update({"TARGET": cfg.target, "HOST": "x86_64-unknown-linux-gnu", "RUSTC": rustc(),
                "CARGO_ENCODED_RUSTFLAGS": "\x1f".join(flags), "CARGO_PKG_NAME": "atomic-maybe-uninit",
                "OUT_DIR": "/nonexistent", "CARGO_MANIFEST_DIR": REPO})
    p = run([script], env=env, cwd=REPO)
    if p.returncode:
        raise BuildError("build.rs fails for %s:\n%s" % (cfg.name, p.stderr[-3000:]))
    out = []
    for line in p.stdout.splitlines():
        for pre in ("cargo:rustc-cfg=", "cargo::rustc-cfg="):
            if line.startswith(pre):
                out.append(line[len(pre):].strip())
    for c in cfg.cfgs:
        if c.startswith("!"):
            if c[1:] in out:
                out.remove(c[1:])
        else:
            out.append(c)
    return out


def _common(cfg, cfgs):
    f = [rustc(), *target_flags(cfg), "--edition", "2021", "--crate-type", "lib", "--cap-lints", "allow",
         "-Cpanic=abort", "--sysroot", SYSROOT]
    if cfg.target in CORE_FLAGS:
        f.append("-Cunsafe-allow-abi-mismatch=target-cpu")
    for c in cfgs:
        f += ["-Cdebug-assertions=on", "-Coverflow-checks=on"] if c == "debug_assertions" else ["--cfg", c]
    return f


def compile_crate(cfg, cfgs, outdir, extra=()):
    """The crate itself, as metadata with all MIR (so that probes can be lowered from it)."""
    os.makedirs(outdir, exist_ok=True)
    p = run(_common(cfg, cfgs) + ["--crate-name", "atomic_maybe_uninit", "--emit=metadata,dep-info,mir",
                                  "-Zcross-crate-inline-threshold=always", "-Zalways-encode-mir", *extra,
                                  os.path.join(REPO, "src/lib.rs"), "--out-dir", outdir])
    if p.returncode:
        raise BuildError("crate does not compile for %s:\n%s" % (cfg.name, p.stderr[-4000:]))
    return os.path.join(outdir, "libatomic_maybe_uninit.rmeta")


def compile_probe(cfg, cfgs, src, outdir, name="probe", flags=(), emit="llvm-ir"):
    os.makedirs(outdir, exist_ok=True)
    p = run(_common(cfg, cfgs) + ["--crate-name", name, "--emit=" + emit, "-Ccodegen-units=1",
                                  "-Zmerge-functions=disabled", *flags,
                                  "--extern", "atomic_maybe_uninit=" + os.path.join(outdir, "libatomic_maybe_uninit.rmeta"),
                                  src, "--out-dir", outdir])
    if p.returncode:
        raise BuildError("probe %s does not compile for %s:\n%s" % (name, cfg.name, p.stderr[-4000:]))
    return os.path.join(outdir, name + ".ll")
