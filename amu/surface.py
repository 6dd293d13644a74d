"""What the crate's public signatures allow safe code to do, read from rustdoc's JSON of the type-checked crate.

Every function safe code can call -- public functions and methods, trait methods implemented for the crate's types --
is judged by its signature alone, so functions added later are covered too."""

import json
import os
import tempfile
import shutil

from . import toolchain as tc

ATOMIC, RAWCELL = "AtomicMaybeUninit", ("UnsafeCell", "SyncUnsafeCell", "Cell")


def document(cfg, cfgs):
    d = tempfile.mkdtemp(prefix="amu-doc-")
    try:
        cmd = tc._common(cfg, cfgs)
        cmd = [os.path.join(os.path.dirname(cmd[0]), "rustdoc")] + cmd[1:]
        p = tc.run(cmd + ["--crate-name", "atomic_maybe_uninit", "-Zunstable-options", "--output-format", "json",
                          os.path.join(tc.REPO, "src/lib.rs"), "-o", d])
        if p.returncode:
            raise tc.BuildError("rustdoc failed: " + p.stderr[-600:])
        with open(os.path.join(d, "atomic_maybe_uninit.json")) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def kids(t):
    """The types a type is made of."""
    (k, v), = t.items()
    if k == "resolved_path":
        return args(v.get("args"))
    if k == "tuple":
        return v
    if k in ("slice",):
        return [v]
    if k in ("array", "borrowed_ref", "raw_pointer", "pat"):
        return [v["type"]]
    if k == "qualified_path":
        return [v["self_type"]] + args(v.get("args"))
    if k == "function_pointer":
        return [x[1] for x in v["sig"]["inputs"]] + ([v["sig"]["output"]] if v["sig"]["output"] else [])
    if k == "impl_trait":
        return bounds(v)
    if k == "dyn_trait":
        return sum((args(x["trait"].get("args")) for x in v["traits"]), [])
    return []


def args(a):
    if not a:
        return []
    if "angle_bracketed" in a:
        a = a["angle_bracketed"]
        r = [x["type"] for x in a["args"] if isinstance(x, dict) and "type" in x]
        for c in a.get("constraints", []):
            b = c.get("binding", {})
            if "equality" in b:
                r += [b["equality"]["type"]] if "type" in b["equality"] else []
            r += bounds(b.get("constraint", []))
        return r
    if "parenthesized" in a:
        a = a["parenthesized"]
        return a["inputs"] + ([a["output"]] if a["output"] else [])
    return []


def bounds(bs):
    return sum((args(b["trait_bound"]["trait"].get("args")) for b in bs if "trait_bound" in b), [])


def head(t):
    (k, v), = t.items()
    return v["path"].split("::")[-1] if k == "resolved_path" else None


def subst(t, env):
    """Replace type parameters and `Self` by what they stand for."""
    if isinstance(t, dict):
        if len(t) == 1 and "generic" in t and t["generic"] in env:
            return env[t["generic"]]
        if len(t) == 1 and "qualified_path" in t:
            q = t["qualified_path"]
            a = env.get(("assoc", q["name"]))
            if a is not None and q["self_type"] == {"generic": "Self"}:
                return a
        return {k: subst(v, env) for k, v in t.items()}
    if isinstance(t, list):
        return [subst(x, env) for x in t]
    return t


class Sig:
    """The contents types of the atomics a signature mentions decide what counts as contents in it."""

    def __init__(self, contents):
        self.contents = contents  # list of type trees T for which AtomicMaybeUninit<T> is at stake

    def is_value(self, t):
        return t in self.contents

    def by_value(self, t, safe=("MaybeUninit", ATOMIC) + RAWCELL):
        """Does a value of type t hold (or give access to) an initialised T?"""
        (k, v), = t.items()
        if self.is_value(t):
            return True
        if k == "raw_pointer" or head(t) in safe or head(t) in ("NonNull", "PhantomData"):
            return False
        return any(self.by_value(x) for x in kids(t) if x)

    def plain_ref(self, t, under=False):
        """Does t contain a reference to plain contents (T, MaybeUninit<T>, or a cell of it)?"""
        (k, v), = t.items()
        if under and (self.is_value(t) or head(t) in ("MaybeUninit",) + RAWCELL
                      and any(self.mentions(x) for x in kids(t))):
            return True
        if k == "raw_pointer" or head(t) in (ATOMIC, "NonNull", "PhantomData"):
            return False
        return any(self.plain_ref(x, under or k == "borrowed_ref") for x in kids(t) if x)

    def mentions(self, t):
        return self.is_value(t) or any(self.mentions(x) for x in kids(t) if x)


def atomics(t):
    """The T of every AtomicMaybeUninit<T> in t, with how it is reached: 'own', 'mut', 'ref', 'raw'."""
    out = []

    def go(t, how):
        (k, v), = t.items()
        if head(t) == ATOMIC:
            for x in kids(t):
                out.append((x, how))
            return
        if k == "borrowed_ref":
            how = "ref" if not v["is_mutable"] or how == "ref" else "mut"
        elif k == "raw_pointer":
            how = "raw"
        for x in kids(t):
            if x:
                go(x, how)
    go(t, "own")
    return out


def callbacks(f, gen):
    """Types a caller-supplied function is given: parameters of Fn bounds and of function pointers."""
    out = []

    def bound(b):
        tb = b.get("trait_bound")
        if tb and tb["trait"]["path"].split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            a = (tb["trait"].get("args") or {}).get("parenthesized")
            if a:
                out.extend(a["inputs"])

    def ty(t):
        (k, v), = t.items()
        if k == "impl_trait":
            for b in v:
                bound(b)
        elif k == "dyn_trait":
            for x in v["traits"]:
                bound({"trait_bound": x})
        elif k == "function_pointer":
            out.extend(x[1] for x in v["sig"]["inputs"])
        for x in kids(t):
            if x:
                ty(x)
    for g in gen:
        for p in g["params"]:
            for b in p["kind"].get("type", {}).get("bounds", []):
                bound(b)
        for w in g["where_predicates"]:
            for b in w.get("bound_predicate", {}).get("bounds", []):
                bound(b)
    for _, t in f["sig"]["inputs"]:
        ty(t)
    return out


def judge(name, f, env, gen):
    """Findings about one safe function."""
    ins = [subst(t, env) for _, t in f["sig"]["inputs"]]
    out = subst(f["sig"]["output"], env) if f["sig"]["output"] else {"tuple": []}
    cbs = [subst(t, env) for t in callbacks(f, gen)]
    reach = sum((atomics(t) for t in ins), [])
    bad = []
    made = [x for x, how in atomics(out) if how in ("ref", "mut")]
    if made and not reach:
        if any(_raw(t) for t in ins):
            bad.append("safe code can turn a raw pointer into a reference to an atomic")
        elif any(_lent(t, Sig(made)) for t in ins):
            bad.append("safe code can turn a reference to plain or initialised memory into a reference to an atomic")
    s = Sig([x for x, _ in reach] + sum((_maybe(t) for t in ins), []))
    given = [("returns", out)] + [("passes its closure", t) for t in cbs]
    for verb, t in given:
        if any(how in ("ref", "raw") for _, how in reach) and s.plain_ref(t):
            bad.append("it %s a plain reference to the contents of an atomic that others may be using" % verb)
        if s.by_value(t) and not any(s.by_value(i) for i in ins):
            bad.append("it %s contents typed as initialised" % verb)
    return bad


def _raw(t):
    (k, v), = t.items()
    return k == "raw_pointer" or head(t) == "NonNull" or any(_raw(x) for x in kids(t) if x)


def _lent(t, s):
    """A shared reference to the contents, or a reference of either kind to initialised contents."""
    (k, v), = t.items()
    if k == "borrowed_ref" and (s.by_value(v["type"]) or not v["is_mutable"] and s.mentions(v["type"])):
        return True
    return any(_lent(x, s) for x in kids(t) if x)


def _maybe(t):
    return (kids(t) if head(t) == "MaybeUninit" else []) + sum((_maybe(x) for x in kids(t) if x), [])


def survey(doc):
    """([(item, text)], safe functions judged, unsafe functions seen)"""
    ix = doc["index"]
    bad, safe, unsafe = [], 0, 0
    for i in ix.values():
        if i.get("crate_id", 0) != 0:
            continue
        inner = i["inner"]
        if "struct" in inner and i["name"] == ATOMIC:
            k = inner["struct"]["kind"]
            fs = k["plain"]["fields"] if isinstance(k, dict) and "plain" in k else \
                k.get("tuple", []) if isinstance(k, dict) else []
            fs = [ix[str(x)] for x in fs if x is not None and str(x) in ix]
            for x in fs:
                if x["visibility"] == "public":
                    bad.append((ATOMIC, "a field of the atomic is public: safe code can reach the contents"))
        if "impl" in inner:
            im = inner["impl"]
            if im["blanket_impl"] or im["is_synthetic"]:
                continue
            env = {"Self": im["for"]}
            items = [ix[str(x)] for x in im["items"] if str(x) in ix]
            for x in items:
                if "assoc_type" in x["inner"] and x["inner"]["assoc_type"]["type"]:
                    env["assoc", x["name"]] = x["inner"]["assoc_type"]["type"]
            tname = (im["trait"]["path"] + " for " if im["trait"] else "") + (head(im["for"]) or "?")
            gens = [im["generics"]]
        elif "trait" in inner:
            env, items, tname, gens = {}, [ix[str(x)] for x in inner["trait"]["items"] if str(x) in ix], i["name"], []
        elif "module" in inner:
            env, items, tname, gens = {}, [ix[str(x)] for x in inner["module"]["items"] if str(x) in ix], i["name"], []
        else:
            continue
        for x in items:
            f = x["inner"].get("function")
            if f is None:
                continue
            if f["header"]["is_unsafe"]:
                unsafe += 1
                continue
            safe += 1
            for b in judge(x["name"], f, env, gens + [f["generics"]]):
                bad.append(("%s::%s" % (tname, x["name"]), "%s (signature of a safe function)" % b))
    return bad, safe, unsafe

