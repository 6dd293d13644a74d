"""Probe crates: thin callers of the public API whose lowered IR is what the analysis reads."""

TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]
TRAITS = [("load", "AtomicLoad"), ("store", "AtomicStore"), ("swap", "AtomicSwap"), ("cas", "AtomicCompareExchange")]
ORD = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"]
LOAD_ORD = ["Relaxed", "Acquire", "SeqCst"]
STORE_ORD = ["Relaxed", "Release", "SeqCst"]
WIDTHS = ["8", "16", "32", "64", "128", "ptr"]


def size_of(ty, ptr):
    if ty.endswith("size"):
        return ptr // 8
    return int(ty[1:]) // 8


AVAIL_HEAD = """#![no_std]
#![allow(dead_code, unused)]
use core::mem::{self, MaybeUninit as MU};
use atomic_maybe_uninit::{*, raw::*};
struct Is<T>(T);
trait F { const LOAD: u8 = 0; const STORE: u8 = 0; const SWAP: u8 = 0; const CAS: u8 = 0; const PRIM: u8 = 0; }
impl<T> F for Is<T> {}
impl<T: AtomicLoad> Is<T> { const LOAD: u8 = 1; }
impl<T: AtomicStore> Is<T> { const STORE: u8 = 1; }
impl<T: AtomicSwap> Is<T> { const SWAP: u8 = 1; }
impl<T: AtomicCompareExchange> Is<T> { const CAS: u8 = 1; }
impl<T: Primitive> Is<T> { const PRIM: u8 = 1; }
"""


def avail_src():
    s = [AVAIL_HEAD]

    def const(name, expr):
        s.append("#[no_mangle] pub static Q_%s: u32 = (%s) as u32;" % (name, expr))
    for t in TYPES:
        for op, _ in TRAITS:
            const("avail_%s_%s" % (op, t), "<Is<%s>>::%s" % (t, op.upper()))
        const("prim_%s" % t, "<Is<%s>>::PRIM" % t)
        const("size_%s" % t, "mem::size_of::<AtomicMaybeUninit<%s>>()" % t)
        const("align_%s" % t, "mem::align_of::<AtomicMaybeUninit<%s>>()" % t)
        const("msize_%s" % t, "mem::size_of::<MU<%s>>()" % t)
        const("malign_%s" % t, "mem::align_of::<MU<%s>>()" % t)
    # Types that are not meant to be Primitive.
    for n, t in [("bool", "bool"), ("char", "char"), ("f32", "f32"), ("f64", "f64"), ("unit", "()"),
                 ("ptr", "*mut u8"), ("ref", "&'static u8"), ("arr", "[u8; 4]"), ("nz", "core::num::NonZeroU32"),
                 ("mu", "MU<u32>"), ("fnp", "fn()")]:
        const("nprim_" + n, "<Is<%s>>::PRIM" % t)
    for w in WIDTHS + ["cas"]:
        s.append("cfg_has_atomic_%s! { #[no_mangle] pub static Q_has_%s: u32 = 1; }" % (w, w))
        s.append("cfg_no_atomic_%s! { #[no_mangle] pub static Q_no_%s: u32 = 1; }" % (w, w))
    return "\n".join(s) + "\n"


HEAD = """#![no_std]
#![allow(dead_code, unused, improper_ctypes_definitions)]
use core::{mem::{self, MaybeUninit as MU}, sync::atomic::{self, Ordering}};
use atomic_maybe_uninit::{*, raw::*};
"""


def probe_src(avail, ptr):
    """avail: dict (op, type) -> bool."""
    s = [HEAD]

    def fn(name, args, body):
        s.append("#[no_mangle] pub unsafe fn %s(%s) { %s }" % (name, args, body))
    for t in TYPES:
        mp, cp = "*mut MU<%s>" % t, "*const MU<%s>" % t
        am = "&AtomicMaybeUninit<%s>" % t
        if avail.get(("load", t)):
            for o in LOAD_ORD:
                fn("raw__load__%s__%s" % (t, o), "dst: %s, out: %s" % (cp, mp),
                   "out.write(<%s as AtomicLoad>::atomic_load(dst, Ordering::%s))" % (t, o))
            for o in ORD:
                fn("api__load__%s__%s" % (t, o), "dst: %s, out: %s" % (am, mp),
                   "out.write(dst.load(Ordering::%s))" % o)
        if avail.get(("store", t)):
            for o in STORE_ORD:
                fn("raw__store__%s__%s" % (t, o), "dst: %s, val: %s" % (mp, cp),
                   "<%s as AtomicStore>::atomic_store(dst, val.read(), Ordering::%s)" % (t, o))
            for o in ORD:
                fn("api__store__%s__%s" % (t, o), "dst: %s, val: %s" % (am, cp),
                   "dst.store(val.read(), Ordering::%s)" % o)
        if avail.get(("swap", t)):
            for o in ORD:
                fn("raw__swap__%s__%s" % (t, o), "dst: %s, val: %s, out: %s" % (mp, cp, mp),
                   "out.write(<%s as AtomicSwap>::atomic_swap(dst, val.read(), Ordering::%s))" % (t, o))
                fn("api__swap__%s__%s" % (t, o), "dst: %s, val: %s, out: %s" % (am, cp, mp),
                   "out.write(dst.swap(val.read(), Ordering::%s))" % o)
        if avail.get(("cas", t)):
            for w, m in (("cas", "compare_exchange"), ("casw", "compare_exchange_weak")):
                for so in ORD:
                    for fo in LOAD_ORD:
                        fn("raw__%s__%s__%s__%s" % (w, t, so, fo),
                           "dst: %s, old: %s, val: %s, out: %s, ok: *mut u8" % (mp, cp, cp, mp),
                           "let (a, b) = <%s as AtomicCompareExchange>::atomic_%s(dst, old.read(), val.read(), "
                           "Ordering::%s, Ordering::%s); out.write(a); ok.write(b as u8);" % (t, m, so, fo))
                    for fo in ORD:
                        fn("api__%s__%s__%s__%s" % (w, t, so, fo),
                           "dst: %s, old: %s, val: %s, out: %s, ok: *mut u8" % (am, cp, cp, mp),
                           "match dst.%s(old.read(), val.read(), Ordering::%s, Ordering::%s) { "
                           "Ok(a) => { out.write(a); ok.write(1) } Err(a) => { out.write(a); ok.write(0) } }"
                           % (m, so, fo))
            s.append("extern \"Rust\" { fn amu_closure_%s(x: %s, n: %s) -> u8; }" % (t, cp, mp))
            for so in ORD:
                for fo in ORD:
                    fn("api__fu__%s__%s__%s" % (t, so, fo), "dst: %s, out: %s, ok: *mut u8" % (am, mp),
                       "match dst.fetch_update(Ordering::%s, Ordering::%s, |x| { let mut n = MU::uninit(); "
                       "if amu_closure_%s(&x, &mut n) == 1 { Some(n) } else { None } }) { "
                       "Ok(a) => { out.write(a); ok.write(1) } Err(a) => { out.write(a); ok.write(0) } }"
                       % (so, fo, t))
        # Plain (non-atomic) accessors.
        mm = "*mut AtomicMaybeUninit<%s>" % t
        fn("plain__new__%s" % t, "dst: %s, val: %s" % (mm, cp), "dst.write(AtomicMaybeUninit::<%s>::new(val.read()))" % t)
        fn("plain__const_new__%s" % t, "dst: %s, val: %s" % (mm, cp),
           "dst.write(AtomicMaybeUninit::<%s>::const_new(val.read()))" % t)
        fn("plain__from_mu__%s" % t, "dst: %s, val: %s" % (mm, cp),
           "dst.write(<AtomicMaybeUninit<%s> as From<MU<%s>>>::from(val.read()))" % (t, t))
        fn("plain__from_t__%s" % t, "dst: %s, val: *const %s" % (mm, t),
           "dst.write(<AtomicMaybeUninit<%s> as From<%s>>::from(val.read()))" % (t, t))
        fn("plain__into_inner__%s" % t, "dst: %s, out: %s" % (mm, mp), "out.write(dst.read().into_inner())")
        fn("plain__get_mut__%s" % t, "dst: &mut AtomicMaybeUninit<%s>, out: *mut *mut MU<%s>" % (t, t),
           "out.write(dst.get_mut() as *mut MU<%s>)" % t)
        fn("plain__as_ptr__%s" % t, "dst: %s, out: *mut *mut MU<%s>" % (am, t), "out.write(dst.as_ptr())")
        fn("plain__from_ptr__%s" % t, "dst: %s, out: *mut *const AtomicMaybeUninit<%s>" % (mp, t),
           "out.write(AtomicMaybeUninit::<%s>::from_ptr(dst) as *const _)" % t)
        fn("plain__debug__%s" % t, "dst: %s, f: &mut core::fmt::Formatter<'_>, ok: *mut u8" % am,
           "ok.write(core::fmt::Debug::fmt(dst, f).is_ok() as u8)")
    return "\n".join(s) + "\n"


PLAIN = ["new", "const_new", "from_mu", "from_t", "into_inner", "get_mut", "as_ptr", "from_ptr", "debug"]


def names(t, q):
    """Names of the probe functions of type t, given the availability constants."""
    out = []
    has = lambda op: q.get("avail_%s_%s" % (op, t))
    if has("load"):
        out += ["raw__load__%s__%s" % (t, o) for o in LOAD_ORD] + ["api__load__%s__%s" % (t, o) for o in ORD]
    if has("store"):
        out += ["raw__store__%s__%s" % (t, o) for o in STORE_ORD] + ["api__store__%s__%s" % (t, o) for o in ORD]
    if has("swap"):
        out += ["%s__swap__%s__%s" % (a, t, o) for a in ("raw", "api") for o in ORD]
    if has("cas"):
        for w in ("cas", "casw"):
            out += ["raw__%s__%s__%s__%s" % (w, t, a, b) for a in ORD for b in LOAD_ORD]
            out += ["api__%s__%s__%s__%s" % (w, t, a, b) for a in ORD for b in ORD]
        out += ["api__fu__%s__%s__%s" % (t, a, b) for a in ORD for b in ORD]
    return out + ["plain__%s__%s" % (op, t) for op in PLAIN]
