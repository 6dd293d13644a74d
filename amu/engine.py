"""Builds the configuration matrix and runs the abstract executions, with caching.

Caching is by content: a configuration's IR is reused only if every source file the compiler read for
it, the build script's output and the tool itself are unchanged; a verdict is reused only for the same
canonical code under the same tool. Nothing else is assumed between runs."""

import glob
import hashlib
import json
import multiprocessing
import os
import pickle
import re
import shutil
import tempfile
import time

from . import build as bld
from . import configs, irexec, llir, probe, rules
from . import toolchain as tc
from .arch import base

HERE = os.path.dirname(os.path.abspath(__file__))
GROUPS = ("load", "store", "swap", "cas", "casw", "fu", "plain")


def sha(data):
    if isinstance(data, str):
        data = data.encode()
    return hashlib.sha256(data).hexdigest()[:24]


def file_sha(path):
    try:
        with open(path, "rb") as f:
            return sha(f.read())
    except OSError:
        return None


def tool_hash(names):
    h = hashlib.sha256()
    for n in names:
        for p in sorted(glob.glob(os.path.join(HERE, n))):
            with open(p, "rb") as f:
                h.update(f.read())
    return h.hexdigest()[:24]


_bh = _ah = None


def build_hash():
    global _bh
    if _bh is None:
        _bh = tool_hash(["build.py", "mirlint.py", "toolchain.py", "probe.py"]) + tc.version_key()
    return _bh


def analysis_hash():
    global _ah
    if _ah is None:
        _ah = tool_hash(["bits.py", "machine.py", "irexec.py", "asmcore.py", "llir.py", "order.py", "rules.py",
                         "probe.py", "arch/*.py"])
    return _ah


def write_json(path, x):
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as f:
        json.dump(x, f)
    os.replace(tmp, path)


def read_json(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


# building ------------------------------------------------------------------------

def dep_files(dfile):
    """Source files in a rustc dep-info file."""
    out = []
    with open(dfile) as f:
        for line in f:
            line = line.rstrip("\n")
            if line.endswith(":") and not line.startswith("#"):
                out.append(line[:-1].replace("\\ ", " "))
    return sorted(set(out))


def cfg_dir(cfg):
    return os.path.join(tc.CACHE, "cfg", cfg.name.replace("/", "_"))


def script_outputs(cfgs):
    """{config name: cfg list} from /repo's build script, cached by the script's sources."""
    path = os.path.join(tc.CACHE, "script.json")
    old = read_json(path)
    key = sha(json.dumps([build_hash(), tc.REPO, sorted((c.name, repr(c)) for c in configs.CONFIGS.values())]))
    if old and old["key"] == key and all(file_sha(p) == h for p, h in old["deps"].items()):
        if all(c.name in old["out"] for c in cfgs):
            return {c.name: old["out"][c.name] for c in cfgs}
    work = tempfile.mkdtemp(prefix="amu-bs-")
    try:
        exe = tc.compile_build_script(work)
        deps = {p: file_sha(p) for p in dep_files(os.path.join(work, "build_script.d"))}
        if not deps:
            raise tc.ToolError("no dependency information for build.rs")
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = dict(zip([c.name for c in configs.CONFIGS.values()],
                           ex.map(lambda c: tc.build_cfgs(c, exe), configs.CONFIGS.values())))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    write_json(path, {"key": key, "deps": deps, "out": res})
    return {c.name: res[c.name] for c in cfgs}


def ensure_built(cfg, cfgs):
    """meta dict: status ok | crate (the crate does not compile) | probe (the probes do not compile)."""
    d = cfg_dir(cfg)
    mpath = os.path.join(d, "meta.json")
    meta = read_json(mpath)
    key = sha(json.dumps([build_hash(), tc.REPO, repr(cfg), cfgs]))
    if meta and meta["key"] == key and meta["deps"] and all(file_sha(p) == h for p, h in meta["deps"].items()):
        if meta["status"] != "ok" or os.path.exists(os.path.join(d, "opt.ll")):
            return meta
    os.makedirs(d, exist_ok=True)
    for f in ("meta.json",):
        try:
            os.unlink(os.path.join(d, f))
        except OSError:
            pass
    meta = {"key": key, "status": "ok", "error": None, "deps": {}, "consts": {}, "cfgs": cfgs, "ir": None}
    try:
        q, out, meta["mir"] = bld.build(cfg, cfgs, d)
        meta["consts"] = q
        meta["ir"] = file_sha(out)
    except bld.CrateError as x:
        meta["status"], meta["error"] = "crate", str(x)
    except bld.ProbeError as x:
        meta["status"], meta["error"] = "probe", str(x)
    dep = os.path.join(d, "atomic_maybe_uninit.d")
    if os.path.exists(dep):
        meta["deps"] = {p: file_sha(p) for p in dep_files(dep)}
    if not meta["deps"]:
        # without dependency information, depend on the whole source tree
        meta["deps"] = {p: file_sha(p) for p in glob.glob(os.path.join(tc.REPO, "src/**/*.rs"), recursive=True)}
    write_json(mpath, meta)
    return meta


# analysis ------------------------------------------------------------------------

CALLEE = re.compile(r'@("[^"]*"|[-\w.$]+)')


def closure_text(name, texts, memo):
    """Canonical text of a function and everything it can call."""
    r = memo.get(name)
    if r is not None:
        return r
    seen, todo, parts = {name}, [name], []
    while todo:
        n = todo.pop()
        t = texts[n]
        parts.append(n + "\0" + t if n != name else t)
        for m in CALLEE.finditer(t):
            k = m[1].strip('"')
            if k in texts and k not in seen:
                seen.add(k)
                todo.append(k)
    t = "\n".join(parts)
    ren = {}
    t = re.sub(r"@alloc_[0-9a-f]+", lambda m: ren.setdefault(m[0], "@alloc%d" % len(ren)), t)
    memo[name] = sha(t)
    return memo[name]


def group_of(p):
    return "plain" if p.api == "plain" else p.op


def sem_key(cfg):
    """What a verdict depends on besides the code: configurations with the same key share verdicts."""
    return sha(repr((cfg.arch, cfg.ptr, cfg.endian, base.get(cfg).sem_key())))


def index(cfg, meta):
    """The probe functions of a built configuration: [[name, group, body key, verdict key]]."""
    d = cfg_dir(cfg)
    path = os.path.join(d, "index.json")
    key = sha(repr((meta["ir"], analysis_hash(), sem_key(cfg), sorted(meta["consts"].items()))))
    old = read_json(path)
    if old and old["key"] == key:
        return old["rows"]
    with open(os.path.join(d, "opt.ll")) as f:
        fns = llir.split_module(f.read())
    texts = {k: llir.canon(v) for k, v in fns.items()}
    cl, rows, sk = {}, [], sem_key(cfg)
    for k in fns:
        h = k.split("__")
        if len(h) < 3 or h[0] not in ("raw", "api", "plain"):
            continue
        p = rules.Probe(k)
        size = rules.size_of(p.ty, cfg.ptr)
        align = meta["consts"].get("align_" + p.ty, size)
        xk = sha(repr((sk, p.api == "plain", p.op, size, align, closure_text(k, texts, cl))))
        rows.append([k, group_of(p), xk, sha(repr((xk, p.orders)))])
    with open(os.path.join(d, "texts.pkl"), "wb") as f:
        pickle.dump(texts, f)
    write_json(path, {"key": key, "rows": rows})
    return rows


_prog = {}


def program(cfg):
    """The functions of a configuration, kept for the last few configurations a worker saw."""
    p = _prog.get(cfg.name)
    if p is None:
        while len(_prog) >= 3:
            del _prog[next(iter(_prog))]
        with open(os.path.join(cfg_dir(cfg), "texts.pkl"), "rb") as f:
            p = _prog[cfg.name] = irexec.Prog(pickle.load(f))
    return p


def _prepare(job):
    name, cfgs, want, fresh = job
    cfg = configs.CONFIGS[name]
    try:
        if fresh:
            shutil.rmtree(cfg_dir(cfg), ignore_errors=True)
        meta = ensure_built(cfg, cfgs)
        return name, meta, index(cfg, meta) if want and meta["status"] == "ok" else [], None
    except tc.ToolError as x:
        return name, None, [], str(x)


def _execute(job):
    """Verdicts of some function bodies of one configuration: (config, seconds, {verdict key: result})."""
    name, tasks = job
    cfg = configs.CONFIGS[name]
    t0 = time.time()
    arch = base.get(cfg)
    align = read_json(os.path.join(cfg_dir(cfg), "meta.json"))["consts"]
    prog = program(cfg)
    out = {}
    for probes in tasks:
        x = None
        for k, jk in probes:
            p = rules.Probe(k)
            size = rules.size_of(p.ty, cfg.ptr)
            try:
                if x is None:
                    x = rules.execute(cfg, arch, k, prog, size, align.get("align_" + p.ty, size))
                if isinstance(x, llir.Undecided):
                    raise x
                f, s, sc = rules.judge(arch, k, x)
                r = {"bad": [[a, b, v] for (a, b), v in sorted(f.items())], "und": None, "stats": s,
                     "sc": sorted([y[0], y[1], sorted(y[2]), sorted(y[3])] for y in sc)}
            except llir.Undecided as u:
                x = x or u
                r = {"bad": u.partial and list(u.partial) or [], "und": str(u), "stats": {}, "sc": []}
            except (IndexError, KeyError, AttributeError, TypeError, ValueError) as u:
                x = x or llir.Undecided("unsupported construct (%r)" % u)
                r = {"bad": [], "und": "unsupported construct (%r)" % u, "stats": {}, "sc": []}
            out[jk] = r
    return name, time.time() - t0, out


def memo_path():
    return os.path.join(tc.CACHE, "verdicts.pkl")


def load_memo():
    try:
        with open(memo_path(), "rb") as f:
            m = pickle.load(f)
        if m["tool"] == analysis_hash():
            return m
    except Exception:
        pass
    return {"tool": analysis_hash(), "r": {}, "cost": {}}


def save_memo(m):
    tmp = "%s.%d" % (memo_path(), os.getpid())
    with open(tmp, "wb") as f:
        pickle.dump(m, f, pickle.HIGHEST_PROTOCOL)
    os.replace(tmp, memo_path())


def selected(want=None):
    out = []
    for c in configs.CONFIGS.values():
        try:
            base.get(c)
        except NotImplementedError:
            continue
        if want is None or want(c):
            out.append(c)
    return out


def priority(name):
    """Builds that differ only in debug assertions come after all others."""
    return name.endswith("+debug")


LATE = {"bad": [], "und": None, "stats": {}, "sc": [], "late": True}


def run(cfgs, groups, jobs=None, fresh=False, deadline=None, broken=None):
    """{config name: (meta, {group: result})}; `fresh` ignores every cached verdict and IR.

    What is not done by `deadline` (a time.time()) is left out and marked: a missing configuration, or "late" bodies.
    Once `broken(config, probe, tag, msg)` holds for something found, only one more minute is spent."""
    def left():
        return None if deadline is None else max(0.05, deadline - time.time())
    tc.ensure_sysroot([c.target for c in cfgs])
    n = jobs or min(8, os.cpu_count() or 4)
    with tc.Lock("engine"):
        outs = script_outputs(cfgs)
        metas, rows = {}, {}
        with multiprocessing.Pool(n, maxtasksperchild=8) as pool:
            js = [(c.name, outs[c.name], bool(groups), fresh) for c in sorted(cfgs, key=lambda c: priority(c.name))]
            it = pool.imap_unordered(_prepare, js)
            for _ in js:
                try:
                    name, meta, r, err = it.next(left())
                except multiprocessing.TimeoutError:
                    break
                if err:
                    raise tc.ToolError("%s: %s" % (name, err))
                metas[name], rows[name] = meta, [x for x in r if x[1] in groups]
        cfgs = [c for c in cfgs if c.name in metas]
        if not groups:
            return {c.name: (metas[c.name], {}) for c in cfgs}
        memo = load_memo()
        old = {} if fresh else memo["r"]
        have = {}
        # one execution per distinct body; its verdict for each distinct set of orderings
        todo, bodies = {}, set()
        for c in cfgs:
            for k, g, xk, jk in rows[c.name]:
                if jk in have:
                    continue
                if jk in old:
                    have[jk] = old[jk]
                    continue
                have[jk] = None
                if xk in bodies:
                    # its other orderings may have been given to another configuration
                    o = next((d for d in todo.values() if xk in d), None)
                else:
                    o = None
                bodies.add(xk)
                (todo.setdefault(c.name, {}) if o is None else o).setdefault(xk, []).append((k, jk))
        chunks = []
        for name, d in todo.items():
            t = list(d.values())
            w = memo["cost"].get(name, 0.05)
            m = max(1, min(24, int(4 / w)))
            chunks += [(w * len(t[i:i + m]), (name, t[i:i + m])) for i in range(0, len(t), m)]
        # expensive configurations first, so that no worker is left with a long tail
        chunks.sort(key=lambda x: (priority(x[1][0]), -memo["cost"].get(x[1][0], 0.05), x[1][0]))
        if chunks:
            spent = {}
            with multiprocessing.Pool(n) as pool:
                it = pool.imap_unordered(_execute, [x[1] for x in chunks])
                for _ in chunks:
                    try:
                        name, t, out = it.next(left())
                    except multiprocessing.TimeoutError:
                        break
                    have.update(out)
                    if broken and deadline and deadline > time.time() + 60:
                        c = configs.CONFIGS[name]
                        who = {jk: k for d in todo[name].values() for k, jk in d}
                        if any(broken(rules.Probe(who[jk]), tag, msg, c)
                               for jk, r in out.items() for tag, msg, _v in r["bad"]):
                            deadline = time.time() + 60
                    a, b = spent.get(name, (0, 0))
                    spent[name] = (a + t, b + len(out))
            for name, (t, k) in spent.items():
                if k >= 40:
                    memo["cost"][name] = t / k
            new = {k: v for k, v in have.items() if v is not None}
            if len(memo["r"]) > 150000:
                memo["r"] = new
            else:
                memo["r"].update(new)
            save_memo(memo)
    res = {}
    for c in cfgs:
        gs = {g: {"probes": {}, "bodies": [], "names": []} for g in groups}
        idx = {}
        for k, g, _xk, jk in rows[c.name]:
            o = gs[g]
            if jk not in idx:
                idx[jk] = len(o["bodies"])
                o["bodies"].append(have[jk] or LATE)
                o["names"].append(k)
            o["probes"][k] = idx[jk]
        res[c.name] = (metas[c.name], gs if metas[c.name]["status"] == "ok" else {})
    return res
