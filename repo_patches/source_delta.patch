From a9b846399d34ee687f1abe85eb42bedc5d058056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 01/13] verif hook: re-export protocol internals under
 cfg(kani)/cfg(gdbstub_verif)

---
 src/protocol/mod.rs | 18 ++++++++++++++++++
 src/stub/mod.rs     | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 3ea5a03..6746df5 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -20,3 +20,21 @@ pub(crate) use common::thread_id::SpecificThreadId;
 pub(crate) use packet::Packet;
 pub(crate) use response_writer::Error as ResponseWriterError;
 pub(crate) use response_writer::ResponseWriter;
+
+/// (Verification hook) Re-exports of crate-private protocol internals.
+///
+/// Only compiled in under `cfg(kani)` or `cfg(gdbstub_verif)`.
+#[cfg(any(kani, gdbstub_verif))]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use super::commands::*;
+    pub use super::common::hex::*;
+    pub use super::common::lists::*;
+    pub use super::common::qxfer::*;
+    pub use super::common::thread_id::*;
+    pub use super::packet::*;
+    pub use super::recv_packet::*;
+    pub use super::response_writer::Error as ResponseWriterError;
+    pub use super::response_writer::ResponseWriter;
+}
diff --git a/src/stub/mod.rs b/src/stub/mod.rs
index b98c190..87244b6 100644
--- a/src/stub/mod.rs
+++ b/src/stub/mod.rs
@@ -242,3 +242,39 @@ impl<'a, T: Target, C: Connection> GdbStub<'a, T, C> {
         Ok(state_machine::GdbStubStateMachineInner::from_plain_gdbstub(self).into())
     }
 }
+
+/// (Verification hook) Access to the crate-private protocol engine.
+///
+/// Only compiled in under `cfg(kani)` or `cfg(gdbstub_verif)`.
+#[cfg(any(kani, gdbstub_verif))]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+
+    pub use super::core_impl::HandlerStatus;
+    pub use super::core_impl::State;
+    pub use super::error::GdbStubError;
+    pub use crate::protocol::verif::*;
+    pub use crate::util::managed_vec::CapacityError;
+    pub use crate::util::managed_vec::ManagedVec;
+
+    /// Public wrapper around the crate-private `GdbStubImpl`.
+    pub struct Engine<T: Target, C: Connection>(core_impl::GdbStubImpl<T, C>);
+
+    impl<T: Target, C: Connection> Engine<T, C> {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> Self {
+            Engine(core_impl::GdbStubImpl::new())
+        }
+
+        pub fn handle_packet(
+            &mut self,
+            target: &mut T,
+            conn: &mut C,
+            packet: Packet<'_>,
+        ) -> Result<State, GdbStubError<T::Error, C::Error>> {
+            Ok(self.0.handle_packet(target, conn, packet)?)
+        }
+    }
+}
-- 
2.43.0


From 53ead35c6824c831e8a47f09326ab739793a8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 02/13] fix: never emit '$' as an RLE repeat count

A run of 'n' identical bytes is encoded as 'c*' followed by the count char
28 + n. The two counts which must not be used are therefore n = 7 ('#') and
n = 8 ('$'), not n = 6 ('"') and n = 7.
---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From 12839879405b4be987f5f93fd5981a770764160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 03/13] fix: reject QTDP actions with an overflowing expression
 length

'len * 2' overflowed for lengths >= 1 << (usize::BITS - 1), panicking in
debug builds, and silently accepting a bogus empty expression in release.
---
 src/stub/core_impl/tracepoints.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..cf6589b 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,10 +161,14 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
+                    // `len` is controlled by the client - don't trust it to fit
+                    let hex_len = len
+                        .checked_mul(2)
+                        .ok_or(Error::PacketParse(MalformedCommand))?;
+                    if rem.len() < hex_len {
                         return Err(Error::PacketParse(MalformedCommand));
                     }
-                    let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
+                    let (expr_bytes, next_bytes) = rem.split_at_mut(hex_len);
                     let expr =
                         decode_hex_buf(expr_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
                     (f)(&TracepointAction::Expression {
-- 
2.43.0


From 912da7d3772b397a7f077312ff725a8230b7bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 04/13] fix: keep multi-chunk 'm' replies well-formed

When a memory read is split across several 'read_addrs' calls (i.e: it doesn't
fit in the packet buffer's scratch space):

- a short read was followed by data from a later address, which the client would
  attribute to the wrong address.
- a non-fatal error in a later chunk appended 'Exx' to the data written so far.
- the address of a later chunk could overflow, which panics in debug builds and
  wraps around to address 0 in release builds.

All three now end the reply after the last contiguous byte, i.e: a short read.
---
 src/stub/core_impl/base.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..14603cf 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -293,9 +293,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 while n != 0 {
                     let chunk_size = n.min(buf.len());
 
+                    use num_traits::CheckedAdd;
                     use num_traits::NumCast;
 
-                    let addr = addr + NumCast::from(i).ok_or(Error::TargetMismatch)?;
+                    let addr = match NumCast::from(i).and_then(|i| addr.checked_add(&i)) {
+                        Some(addr) => addr,
+                        // ran past the end of the address space
+                        None => break,
+                    };
                     let data = &mut buf[..chunk_size];
                     let data_len = match target.base_ops() {
                         BaseOps::SingleThread(ops) => ops.read_addrs(addr, data),
@@ -303,7 +308,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             ops.read_addrs(addr, data, self.current_mem_tid)
                         }
                     }
-                    .handle_error()?;
+                    .handle_error();
+                    let data_len = match data_len {
+                        Ok(data_len) => data_len,
+                        // some data has already been written as part of the response, so it's
+                        // too late to report an error - report a short read instead.
+                        Err(Error::NonFatalError(_)) if i != 0 => break,
+                        Err(e) => return Err(e),
+                    };
 
                     n -= chunk_size;
                     i += chunk_size;
@@ -311,6 +323,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // a short read must not be followed by data from a later address
+                    if data_len < chunk_size {
+                        break;
+                    }
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From 1f84ad832436c4a3bd1e5097c8dd81bd3e424ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 05/13] fix: LeBytes: treat trailing bytes as the excess
 high-order bytes

When given more bytes than fit in the integer, 'from_le_bytes' checked (and
dropped) the leading, i.e: least-significant, bytes instead of the trailing
ones. e.g: parsing [0x34, 0x12, 0x00] as a u16 returned None, and parsing
[0x00, 0x34, 0x12] returned 0x1234 instead of None.
---
 src/internal/le_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/le_bytes.rs b/src/internal/le_bytes.rs
index fa12499..cfb1fb9 100644
--- a/src/internal/le_bytes.rs
+++ b/src/internal/le_bytes.rs
@@ -28,7 +28,7 @@ macro_rules! impl_to_le_bytes {
                     let len = core::mem::size_of::<$num>();
 
                     let buf = if buf.len() > len {
-                        let (extra, buf) = buf.split_at(buf.len() - len);
+                        let (buf, extra) = buf.split_at(len);
                         if extra.iter().any(|&b| b != 0) {
                             return None
                         }
-- 
2.43.0


From 89eea233c1c3fe6459d9771bbe497c26102c9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 06/13] fix: aarch64: serialize FPSR before FPCR

GDB lays out the 'g'/'G' packets in register number order. Per 'fpu.xml' (and
'AArch64RegId::from_raw_id'), FPSR is register 66 and FPCR is register 67, but
'AArch64CoreRegs' (de)serialized them the other way around, swapping the two
registers on the client.
---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..0220415 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,15 +48,15 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
         const CPSR_OFF: usize = core::mem::size_of::<u64>() * 33;
         const FPSIMD_OFF: usize = CPSR_OFF + core::mem::size_of::<u32>();
-        const FPCR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
-        const END: usize = FPCR_OFF + core::mem::size_of::<u32>() * 2;
+        const FPSR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
+        const END: usize = FPSR_OFF + core::mem::size_of::<u32>() * 2;
 
         if bytes.len() < END {
             return Err(());
@@ -78,7 +78,7 @@ impl Registers for AArch64CoreRegs {
 
         self.cpsr = regs.next().ok_or(())?;
 
-        let mut regs = bytes[FPSIMD_OFF..FPCR_OFF]
+        let mut regs = bytes[FPSIMD_OFF..FPSR_OFF]
             .chunks_exact(core::mem::size_of::<u128>())
             .map(|c| u128::from_le_bytes(c.try_into().unwrap()));
 
@@ -86,12 +86,12 @@ impl Registers for AArch64CoreRegs {
             *reg = regs.next().ok_or(())?
         }
 
-        let mut regs = bytes[FPCR_OFF..]
+        let mut regs = bytes[FPSR_OFF..]
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From c9a0c8d839a013cb05b0002479276ab8c2c2f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 07/13] fix: arm: report the 96-bit size of the FPA registers

'ArmCoreRegs' (as well as GDB's arm-fpa.xml) uses 12 bytes for each of F0-F7,
but 'ArmCoreRegId::from_raw_id' reported 4.
---
 gdbstub_arch/src/arm/reg/id.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..0f017fa 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -33,6 +33,11 @@ impl RegId for ArmCoreRegId {
             25 => Self::Cpsr,
             _ => return None,
         };
-        Some((reg, Some(NonZeroUsize::new(4)?)))
+        let size = match reg {
+            // FPA registers are 96 bits wide
+            Self::Fpr(_) => 12,
+            _ => 4,
+        };
+        Some((reg, Some(NonZeroUsize::new(size)?)))
     }
 }
-- 
2.43.0


From d72eac3e0d0fdcc6a05918e29673156923fdc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 08/13] fix: flush the ack of packets which have no response

---
 src/stub/core_impl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index d5ca4d5..b2ffb8a 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -160,7 +160,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         res.write_str("OK")?;
                         None
                     }
-                    Ok(HandlerStatus::DeferredStopReason) => return Ok(State::DeferredStopReason),
+                    Ok(HandlerStatus::DeferredStopReason) => {
+                        // no response (yet), but the ack must still reach the client
+                        conn.flush().map_err(InternalError::conn_write)?;
+                        return Ok(State::DeferredStopReason);
+                    }
                     Ok(HandlerStatus::Disconnect(reason)) => Some(reason),
                     // HACK: handling this "dummy" error is required as part of the
                     // `TargetResultExt::handle_error()` machinery.
@@ -177,6 +181,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let is_kill = matches!(disconnect_reason, Some(DisconnectReason::Kill));
                 if !(target.support_extended_mode().is_none() && is_kill) {
                     res.flush()?;
+                } else {
+                    // no response, but the ack must still reach the client
+                    conn.flush().map_err(InternalError::conn_write)?;
                 }
 
                 let state = match disconnect_reason {
-- 
2.43.0


From d3b8d0a4664000f4a7c4b673a1a4c388d864302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 09/13] fix: delegate support_libraries_svr4 in dyn Target
 impls

---
 src/target/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..964d9ad 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,7 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From 80e773d0aaeeb675b3e2bbbbfd406fc0644f5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 10/13] Revert "verif hook: re-export protocol internals under
 cfg(kani)/cfg(gdbstub_verif)"

This reverts commit a9b846399d34ee687f1abe85eb42bedc5d058056.
---
 src/protocol/mod.rs | 18 ------------------
 src/stub/mod.rs     | 36 ------------------------------------
 2 files changed, 54 deletions(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 6746df5..3ea5a03 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -20,21 +20,3 @@ pub(crate) use common::thread_id::SpecificThreadId;
 pub(crate) use packet::Packet;
 pub(crate) use response_writer::Error as ResponseWriterError;
 pub(crate) use response_writer::ResponseWriter;
-
-/// (Verification hook) Re-exports of crate-private protocol internals.
-///
-/// Only compiled in under `cfg(kani)` or `cfg(gdbstub_verif)`.
-#[cfg(any(kani, gdbstub_verif))]
-#[doc(hidden)]
-#[allow(missing_docs)]
-pub mod verif {
-    pub use super::commands::*;
-    pub use super::common::hex::*;
-    pub use super::common::lists::*;
-    pub use super::common::qxfer::*;
-    pub use super::common::thread_id::*;
-    pub use super::packet::*;
-    pub use super::recv_packet::*;
-    pub use super::response_writer::Error as ResponseWriterError;
-    pub use super::response_writer::ResponseWriter;
-}
diff --git a/src/stub/mod.rs b/src/stub/mod.rs
index 87244b6..b98c190 100644
--- a/src/stub/mod.rs
+++ b/src/stub/mod.rs
@@ -242,39 +242,3 @@ impl<'a, T: Target, C: Connection> GdbStub<'a, T, C> {
         Ok(state_machine::GdbStubStateMachineInner::from_plain_gdbstub(self).into())
     }
 }
-
-/// (Verification hook) Access to the crate-private protocol engine.
-///
-/// Only compiled in under `cfg(kani)` or `cfg(gdbstub_verif)`.
-#[cfg(any(kani, gdbstub_verif))]
-#[doc(hidden)]
-#[allow(missing_docs)]
-pub mod verif {
-    use super::*;
-
-    pub use super::core_impl::HandlerStatus;
-    pub use super::core_impl::State;
-    pub use super::error::GdbStubError;
-    pub use crate::protocol::verif::*;
-    pub use crate::util::managed_vec::CapacityError;
-    pub use crate::util::managed_vec::ManagedVec;
-
-    /// Public wrapper around the crate-private `GdbStubImpl`.
-    pub struct Engine<T: Target, C: Connection>(core_impl::GdbStubImpl<T, C>);
-
-    impl<T: Target, C: Connection> Engine<T, C> {
-        #[allow(clippy::new_without_default)]
-        pub fn new() -> Self {
-            Engine(core_impl::GdbStubImpl::new())
-        }
-
-        pub fn handle_packet(
-            &mut self,
-            target: &mut T,
-            conn: &mut C,
-            packet: Packet<'_>,
-        ) -> Result<State, GdbStubError<T::Error, C::Error>> {
-            Ok(self.0.handle_packet(target, conn, packet)?)
-        }
-    }
-}
-- 
2.43.0


From c7db6226770005c1c7ae648d4ac18aff821e08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 11/13] fix: qRegisterInfo: do not ignore a connection error
 when the Arch provides the register

---
 src/stub/core_impl/lldb_register_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..bd2b15c 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -126,13 +126,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         },
                     )
                     .map_err(Error::TargetError)?;
-                    err?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
                 }
+                err?;
                 HandlerStatus::Handled
             }
         };
-- 
2.43.0


From be2ff57bc8d967cd7b1648f5a1d79c9609075580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 12/13] fix: tracepoints: never lose a connection error raised
 while reporting

---
 src/stub/core_impl/tracepoints.rs | 130 +++++++++++++++---------------
 1 file changed, 64 insertions(+), 66 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index cf6589b..9e2a501 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -397,7 +397,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTStatus(_) => {
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut has_status = false;
-                ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
+                let ret = ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
                     // If the target implementation calls us multiple times, then
                     // we would erroneously serialize an invalid response. Guard
                     // against it in the simplest way.
@@ -409,24 +409,27 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     } else {
                         has_status = true;
                     }
-                })
-                .handle_error()?;
+                });
+                if let Some(e) = err.take() {
+                    return Err(e);
+                }
+                ret.handle_error()?;
                 if has_status {
                     // Only bother trying to get info if we also have a status
-                    ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
-                        if let Err(e) = res
-                            .write_str(";")
-                            .map_err(|e| e.into())
-                            .and_then(|()| explanation.write::<T, C>(res))
-                        {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
-                }
-
-                if let Some(e) = err {
-                    return Err(e);
+                    let ret =
+                        ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                            if let Err(e) = res
+                                .write_str(";")
+                                .map_err(|e| e.into())
+                                .and_then(|()| explanation.write::<T, C>(res))
+                            {
+                                err = Some(e)
+                            }
+                        });
+                    if let Some(e) = err {
+                        return Err(e);
+                    }
+                    ret.handle_error()?;
                 }
             }
             Tracepoints::qTP(qtp) => {
@@ -505,15 +508,16 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTBuffer(buf) => {
                 let qTBuffer { offset, length } = buf;
                 let mut wrote: Result<bool, Error<T::Error, C::Error>> = Ok(false);
-                ops.trace_buffer_request(offset, length, &mut |data| {
+                let ret = ops.trace_buffer_request(offset, length, &mut |data| {
                     if let Err(e) = res.write_hex_buf(data) {
                         wrote = Err(e.into())
-                    } else {
+                    } else if wrote.is_ok() {
                         wrote = Ok(true)
                     }
-                })
-                .handle_error()?;
-                if !wrote? {
+                });
+                let wrote = wrote?;
+                ret.handle_error()?;
+                if !wrote {
                     res.write_str("l")?;
                 }
             }
@@ -538,7 +542,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let parsed_req = parsed_qtframe.ok_or(Error::TargetMismatch)?;
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut any_results = false;
-                ops.select_frame(parsed_req, &mut |desc| {
+                let ret = ops.select_frame(parsed_req, &mut |desc| {
                     let e = (|| -> Result<_, _> {
                         match desc {
                             FrameDescription::FrameNumber(n) => {
@@ -556,8 +560,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     if let Err(e) = e {
                         err = Err(e)
                     }
-                })
-                .handle_error()?;
+                });
+                err?;
+                ret.handle_error()?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
@@ -575,21 +580,20 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut started = None;
-                let step = ops
-                    .tracepoint_enumerate_start(None, &mut |ctp| {
-                        // We need to know what tracepoint to begin stepping, since the
-                        // target will just tell us there's TracepointEnumerateStep::More
-                        // otherwise.
-                        started = Some((ctp.number, ctp.addr));
-                        let e = ctp.write::<T, C>(res);
-                        if let Err(e) = e {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
+                let step = ops.tracepoint_enumerate_start(None, &mut |ctp| {
+                    // We need to know what tracepoint to begin stepping, since the
+                    // target will just tell us there's TracepointEnumerateStep::More
+                    // otherwise.
+                    started = Some((ctp.number, ctp.addr));
+                    let e = ctp.write::<T, C>(res);
+                    if let Err(e) = e {
+                        err = Some(e)
+                    }
+                });
                 if let Some(e) = err {
                     return Err(e);
                 }
+                let step = step.handle_error()?;
                 if let Some((tp, addr)) = started {
                     ops.tracepoint_enumerate_state().cursor =
                         Some(TracepointEnumerateCursor::New { tp, addr });
@@ -610,40 +614,34 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     Some(TracepointEnumerateCursor::New { tp, .. }) => {
                         // If we don't have any progress, the last packet was
                         // a Next(tp) and we need to start reporting a new tracepoint
-                        Some(
-                            ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
-                                let e = ctp.write::<T, C>(res);
-                                if let Err(e) = e {
-                                    err = Some(e)
-                                }
-                            })
-                            .handle_error()?,
-                        )
+                        Some(ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
+                            let e = ctp.write::<T, C>(res);
+                            if let Err(e) = e {
+                                err = Some(e)
+                            }
+                        }))
                     }
                     Some(TracepointEnumerateCursor::Action { tp, addr, step }) => {
                         // Otherwise we should be continuing the advance the current tracepoint.
-                        Some(
-                            ops.tracepoint_enumerate_action(tp, step, &mut |action| {
-                                let e = action.write::<T, C>(tp, addr, res);
-                                if let Err(e) = e {
-                                    err = Some(e)
-                                }
-                            })
-                            .handle_error()?,
-                        )
+                        Some(ops.tracepoint_enumerate_action(tp, step, &mut |action| {
+                            let e = action.write::<T, C>(tp, addr, res);
+                            if let Err(e) = e {
+                                err = Some(e)
+                            }
+                        }))
                     }
                     Some(TracepointEnumerateCursor::Source { tp, step, .. }) => {
                         if let Some(supports_sources) = ops.support_tracepoint_source() {
-                            Some(
-                                supports_sources
-                                    .tracepoint_enumerate_source(tp, step, &mut |src| {
-                                        let e = src.write::<T, C>(res);
-                                        if let Err(e) = e {
-                                            err = Some(e)
-                                        }
-                                    })
-                                    .handle_error()?,
-                            )
+                            Some(supports_sources.tracepoint_enumerate_source(
+                                tp,
+                                step,
+                                &mut |src| {
+                                    let e = src.write::<T, C>(res);
+                                    if let Err(e) = e {
+                                        err = Some(e)
+                                    }
+                                },
+                            ))
                         } else {
                             // If the target doesn't support tracepoint sources but told
                             // us to enumerate one anyways, then the target has an error.
@@ -656,7 +654,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     return Err(e);
                 }
                 if let Some(step) = step {
-                    self.handle_tracepoint_state_machine_step(target, step)?;
+                    self.handle_tracepoint_state_machine_step(target, step.handle_error()?)?;
                 }
             }
 
-- 
2.43.0


From d15109902fdd99b2c1489949517bc0ba08f300e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 13/13] fix: qRegisterInfo does not panic on an empty list of
 registers

A target may describe a register with Some(&[]) for container_regs or
invalidate_regs; indexing the first element of the list then panicked. The
field is left out for such a register.
---
 src/stub/core_impl/lldb_register_info.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index bd2b15c..879de67 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -85,18 +85,18 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                                     Generic::Arg8 => "arg8",
                                 })?;
                             }
-                            if let Some(c_regs) = reg.container_regs {
+                            if let Some([first, rest @ ..]) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
+                                res.write_num(*first)?;
+                                for reg in rest {
                                     res.write_str(",")?;
                                     res.write_num(*reg)?;
                                 }
                             }
-                            if let Some(i_regs) = reg.invalidate_regs {
+                            if let Some([first, rest @ ..]) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
+                                res.write_num(*first)?;
+                                for reg in rest {
                                     res.write_str(",")?;
                                     res.write_num(*reg)?;
                                 }
-- 
2.43.0

