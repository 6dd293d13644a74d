"""Decides one property on /repo's current working tree: `python3 -m amu.check C01 [--thorough]`.

Exit 0: held everywhere. Exit 1: at least one VIOLATION line. Exit 2: no verdict (the reason is printed)."""

import argparse
import json
import os
import sys
import time
import traceback

from . import configs, engine, props, rules
from . import toolchain as tc

START = time.time()
BUDGET = int(os.environ.get("AMU_BUDGET", "720"))   # seconds a quick check may spend before it leaves the rest out
EVID = os.path.join(tc.ROOT, "evidence")
KNOWN = os.path.join(tc.ROOT, "known_findings.json")

API = {"load": "load", "store": "store", "swap": "swap", "cas": "compare_exchange", "casw": "compare_exchange_weak",
       "fu": "fetch_update", "new": "AtomicMaybeUninit::new", "const_new": "AtomicMaybeUninit::const_new",
       "from_mu": "From<MaybeUninit<T>>", "from_t": "From<T>", "into_inner": "into_inner", "get_mut": "get_mut",
       "as_ptr": "as_ptr", "from_ptr": "from_ptr", "debug": "Debug::fmt"}
RAW = {"load": "AtomicLoad::atomic_load", "store": "AtomicStore::atomic_store", "swap": "AtomicSwap::atomic_swap",
       "cas": "AtomicCompareExchange::atomic_compare_exchange",
       "casw": "AtomicCompareExchange::atomic_compare_exchange_weak"}


def describe(name):
    p = rules.Probe(name)
    o = "(%s)" % ", ".join(p.orders) if p.orders else ""
    if p.api == "raw":
        return "<%s as %s>%s" % (p.ty, RAW[p.op], o)
    return "AtomicMaybeUninit<%s>: %s%s" % (p.ty, API[p.op], o)


class Finding:
    def __init__(self, config, probe, tag, msg, where="", extra=None):
        self.config, self.probe, self.tag, self.msg, self.where, self.extra = config, probe, tag, msg, where, extra

    def key(self, pid):
        return "|".join((pid, self.config, self.probe, self.tag, self.msg))

    def text(self):
        head = describe(self.probe) if self.probe.count("__") >= 2 else self.probe
        return "[%s] %s: %s%s" % (self.config, head, self.msg, " (in %s)" % self.where if self.where else "")


class Outcome:
    def __init__(self):
        self.findings = []     # Finding
        self.undecided = []    # text
        self.coverage = {}     # measured counts
        self.samples = []
        self.notes = []


def arch_files(meta):
    return ", ".join(sorted(os.path.relpath(p, tc.REPO) for p in meta["deps"]
                            if "/src/arch" in p and "/cfgs/" not in p and os.path.basename(p) != "mod.rs")) or "src/lib.rs"


def configurations(thorough):
    return engine.selected(lambda c: thorough or c.tier == "quick")


def engine_outcome(p, thorough):
    o = Outcome()
    cs = [c for c in configurations(thorough) if p.configs is None or p.configs(c)]
    res = engine.run(cs, p.groups, fresh=thorough, deadline=None if thorough else START + BUDGET,
                     broken=p.select)
    late = [c.name for c in cs if c.name not in res]
    n = {"configurations": 0, "api_calls_analysed": 0, "distinct_function_bodies": 0, "paths_judged": 0,
         "events_on_paths": 0, "instructions_interpreted": 0, "address_alignments": 0, "calls_not_reached_in_time": 0}
    per = {}
    compiled = 0
    for c in cs:
        if c.name in late:
            continue
        meta, gs = res[c.name]
        if meta["status"] == "crate":
            o.notes.append("%s: the crate does not compile there, so nothing of it was analysed (decided by C21)" % c.name)
            continue
        if meta["status"] == "probe":
            o.undecided.append("%s: the API calls do not compile: %s" % (c.name, meta["error"][-1500:]))
            continue
        n["configurations"] += 1
        if p.mir:
            bad, fns, casts = meta["mir"][:3]
            n["mir_functions_followed"] = n.get("mir_functions_followed", 0) + fns
            n["mir_transmutes_judged"] = n.get("mir_transmutes_judged", 0) + casts
            o.findings += [Finding(c.name, fn, "mir", text, arch_files(meta)) for fn, text in bad]
        got = 0
        for g in p.groups:
            r = gs[g]
            names = [k for k in r["probes"] if p.probes is None or p.probes(rules.Probe(k))]
            want = expected_probes(meta["consts"], g, p)
            if len(names) < want:
                o.undecided.append("%s: %d of the %d expected `%s` calls are in the compiled code"
                                   % (c.name, len(names), want, g))
            used = set(r["probes"][k] for k in names)
            nl = sum(1 for k in names if r["bodies"][r["probes"][k]].get("late"))
            n["calls_not_reached_in_time"] += nl
            if nl and c.name not in late:
                late.append(c.name)
            got += len(names) - nl
            n["distinct_function_bodies"] += len(used)
            for i in used:
                s = r["bodies"][i]["stats"]
                for a, b in (("paths", "paths_judged"), ("events", "events_on_paths"),
                             ("steps", "instructions_interpreted"), ("residues", "address_alignments")):
                    n[b] += s.get(a, 0)
            for k in names:
                b = r["bodies"][r["probes"][k]]
                mine = [x for x in b["bad"] if p.select(rules.Probe(k), x[0], x[1], c)]
                if b["und"] and not mine:
                    o.undecided.append("[%s] %s: %s" % (c.name, describe(k), b["und"]))
                for tag, msg, residue in mine:
                    o.findings.append(Finding(c.name, k, tag, msg, arch_files(meta), {"address_mod": residue}))
            if names and len(o.samples) < 6:
                k = names[len(names) // 2]
                b = r["bodies"][r["probes"][k]]
                o.samples.append({"configuration": c.name, "call": describe(k), "stats": b["stats"]})
        if p.pairs:
            sc_pairs(p, c, meta, gs, o, n)
        per[c.name] = got
        compiled += 1
        n["api_calls_analysed"] += got
    if compiled == 0:
        o.undecided.append("no configuration compiles")
    if late:
        o.notes.append("not analysed in full (within %d s, or one minute of the first violation; the thorough check has no limit): %s"
                       % (BUDGET, ", ".join(late)))
        if not any(c.name not in late and "+debug" not in c.name for c in cs):
            o.undecided.append("the time limit was reached before any configuration was analysed in full")
    o.coverage = n
    o.coverage["calls_per_configuration"] = per
    if p.post:
        p.post(o, cs, res)
    return o


def expected_probes(q, g, p):
    """How many calls of this kind the compiled crate must offer, from its own trait implementations."""
    from . import probe as pr
    n = 0
    for t in pr.TYPES:
        for name in pr.names(t, q):
            x = rules.Probe(name)
            if engine.group_of(x) == g and (p.probes is None or p.probes(x)):
                n += 1
    return n


def sc_pairs(p, c, meta, gs, o, n):
    """All pairs of SeqCst operations on different objects, ours and the compiler's own."""
    from . import order
    from .arch import base
    m = base.get(c).model
    ops = {}
    for g, r in gs.items():
        for k, i in r["probes"].items():
            for s in r["bodies"][i]["sc"]:
                ops.setdefault((s[0], s[1], frozenset(s[2]), frozenset(s[3])), k)
    std = [s for s in m["std"]]
    for s in std:
        ops.setdefault(s, None)
    n.setdefault("seqcst_pairs", 0)
    n.setdefault("seqcst_operation_shapes", 0)
    n["seqcst_operation_shapes"] += len(ops)
    bad = {}
    for x, kx in ops.items():
        for y, ky in ops.items():
            if kx is None and ky is None:
                continue
            n["seqcst_pairs"] += 1
            if not order.sc_pair(m, x, y):
                bad.setdefault((kx, ky), 1)
    for kx, ky in bad:
        a = describe(kx) if kx else "a SeqCst operation of core::sync::atomic"
        b = describe(ky) if ky else "a SeqCst operation of core::sync::atomic"
        o.findings.append(Finding(c.name, kx or ky, "sc", "the order of %s followed by %s on another object is not kept"
                                  % (a, b), arch_files(meta)))


def known(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except OSError:
        return {}
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == pid}


def location(o, f):
    return None


def report(pid, o, tier, seed, t0, p):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    kn = known(pid)
    live, hit = [], {}
    for f in o.findings:
        if f.key(pid) in kn:
            hit[f.key(pid)] = f
        else:
            live.append(f)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, hit[k].text()))
    groups = {}
    for f in live:
        op = rules.Probe(f.probe).op if f.probe.count("__") >= 2 else f.probe
        groups.setdefault((f.where, op, f.tag, f.msg), []).append(f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": dict(o.coverage, explanation=p.explanation, rule=p.technique, samples=o.samples,
                         undecided=len(o.undecided), known_findings=len(hit), notes=o.notes[:50]),
        "assumptions": p.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(groups),
    }
    path = os.path.join(EVID, "replay", "%s.json" % pid)
    if groups:
        rep = {"property": pid, "statement": p.statement,
               "rerun": "cd %s && bin/check %s" % (tc.ROOT, pid), "violations": []}
        for (where, op, tag, msg), fs in groups.items():
            rep["violations"].append({"source": where, "rule": tag, "message": msg,
                                      "call_sites": ["[%s] %s" % (f.config, describe(f.probe) if f.probe.count("__") >= 2
                                                                  else f.probe) for f in fs][:200],
                                      "detail": fs[0].extra, "count": len(fs)})
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    for n in o.notes[:10]:
        print("note: " + n)
    shown = 0
    for (where, op, tag, msg), fs in groups.items():
        if shown < 12:
            print("rule `%s` broken: %s%s" % (tag, fs[0].text(), " and %d more calls" % (len(fs) - 1) if len(fs) > 1 else ""))
        shown += 1
    if groups:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for u in o.undecided[:20]:
        print("undecided: " + u)
    if groups:
        return 1
    if o.undecided:
        print("no verdict: %d undecided" % len(o.undecided))
        return 2
    c = o.coverage
    print("%s held: %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, int))))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = props.PROPS.get(a.property)
    if p is None:
        print("unknown property " + a.property)
        return 2
    try:
        o = p.run(p, thorough) if p.run else engine_outcome(p, thorough)
        for label, have, want in p.floors(o, thorough):
            if have < want:
                o.undecided.append("only %d %s were analysed; %d were counted when the check was written"
                                   % (have, label, want))
    except (tc.ToolError, tc.BuildError) as x:
        print("no verdict: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        print("no verdict: internal error")
        return 2
    return report(a.property, o, "thorough" if thorough else "quick", seed, t0, p)


if __name__ == "__main__":
    sys.exit(main())
