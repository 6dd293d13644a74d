From 107c4037c64fa23853114e021d7aeb8cafe2d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 1/5] fix: do not select the Armv8 implementation on Armv7

Recent nightlies expose `target_feature = "v8m"`, which LLVM implies from v6t2
(and so from every Armv7 target). The Armv8 LDAEX/STLEX implementation was then
selected for Armv7-A/R/M, which have no such instructions. Rely only on the
build script, which always reports v8m for Armv8-M.
---
 src/arch/mod.rs        | 4 ++--
 src/arch_legacy/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..b653246 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -64,7 +64,7 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
+        // Not target_feature = "v8m": LLVM's v8m is implied by v6t2 (and so by v7).
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +79,7 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
+    // Not target_feature = "v8m": LLVM's v8m is implied by v6t2 (and so by v7).
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..2ee2a89 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -32,7 +32,7 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
+        // Not target_feature = "v8m": LLVM's v8m is implied by v6t2 (and so by v7).
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +47,7 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
+    // Not target_feature = "v8m": LLVM's v8m is implied by v6t2 (and so by v7).
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From 63055220748b58d710b4e7e0c4e1ba42270ebce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 2/5] fix: do not claim CAS on x86 without cmpxchg

---
 src/arch/cfgs/x86.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..3c89a77 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,23 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 9c2c35b467fe7ecc74df2b17cc9b114ce478ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 3/5] fix: sign-extend the expected value of 32-bit CAS on
 RISC-V 64

---
 src/arch/riscv.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..2c83b7f 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -58,6 +58,26 @@ macro_rules! w {
     };
 }
 
+// LR.W sign-extends the loaded value, but the upper bits of a register used for a 32-bit input are
+// undefined, so 32-bit inputs must be sign-extended before comparing them with the loaded value.
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv64")]
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        concat!("sext.w ", $reg, ", ", $reg)
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv32")]
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        ""
+    };
+}
+
 #[cfg(any(
     target_feature = "a",
     atomic_maybe_uninit_target_feature = "a",
@@ -227,6 +247,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                sign_extend!($size, "{old}"),                                 // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +257,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
-- 
2.43.0


From 5d346c0731308ff04f79eb182bd97795913dabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 4/5] fix: sign-extend the expected value of 32-bit CAS on
 LoongArch64

---
 src/arch/loongarch.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..56a9d5d 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -21,6 +21,24 @@ use core::{
 
 use crate::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
 
+// LL.W sign-extends the loaded value, but the upper bits of a register used for a 32-bit input are
+// undefined, so 32-bit inputs must be sign-extended before comparing them with the loaded value.
+#[cfg(target_arch = "loongarch32")]
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        ""
+    };
+}
+#[cfg(target_arch = "loongarch64")]
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        concat!("addi.w ", $reg, ", ", $reg, ", 0")
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+
 #[rustfmt::skip]
 macro_rules! atomic_load {
     ($ty:ident, $size:tt) => {
@@ -137,6 +155,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                sign_extend!($size, "{old}"),                  // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +168,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
-- 
2.43.0


From f3c600c2b0ae5d904f28f8375c9c5b5d3d2303ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 5/5] fix: m68k: seq sets the byte to all ones, so r == 1 never
 holds

Scc stores 0xff on a true condition; the hint that r is 0 or 1 made every
successful compare_exchange reach unreachable_unchecked (a panic with
debug assertions).
---
 src/arch/m68k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..f29cbd2 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -109,7 +109,7 @@ macro_rules! atomic {
                     let r: u8;
                     asm!(
                         concat!("cas.", $size, " {out}, {new}, ({dst})"), // atomic { if *dst == out { cc.Z = 1; *dst = new } else { cc.Z = 0; out = *dst } }
-                        "seq {r}",                                        // r = cc.Z
+                        "seq {r}",                                        // if cc.Z { r = !0 } else { r = 0 }
                         dst = in(reg_addr) ptr_reg!(dst),
                         new = in(reg_data) new,
                         out = inout(reg_data) old => out,
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == !0); // may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0

