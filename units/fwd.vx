//@ include prelude.vx
// ---- specification: a value behind a box or a reference answers every question itself, once.
// What is asked of the value is recorded; what it answers is a function of what it was asked so far.
pub enum Q { Flag(int), Ops(int), Write(u8), WriteAll(Seq<u8>), Flush, Start, Read, Peek }
#[verifier::external_body]
pub struct VxErr { e: u8 }
#[verifier::external_body]
pub struct VxDyn { z: u8 }
// a handle onto an extension: `Some(ops)` / `None`, `BaseOps`
#[verifier::external_body]
pub struct VxHandle { z: u8 }
pub type VxOps = Option<VxHandle>;
pub uninterp spec fn a_flag(v: VxDyn, m: int) -> bool;
pub uninterp spec fn a_ops(v: VxDyn, m: int) -> VxOps;
pub uninterp spec fn a_unit(v: VxDyn, q: Q) -> Result<(), VxErr>;
pub uninterp spec fn a_read(v: VxDyn) -> Result<u8, VxErr>;
pub uninterp spec fn a_peek(v: VxDyn) -> Result<Option<u8>, VxErr>;
pub uninterp spec fn after(v: VxDyn, q: Q) -> VxDyn;
impl VxDyn {
    #[verifier::external_body]
    pub fn guard_rail_implicit_sw_breakpoints(&self) -> (r: bool) ensures r == a_flag(*self, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn use_no_ack_mode(&self) -> (r: bool) ensures r == a_flag(*self, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn use_x_upcase_packet(&self) -> (r: bool) ensures r == a_flag(*self, 2) { unimplemented!() }
    #[verifier::external_body]
    pub fn use_resume_stub(&self) -> (r: bool) ensures r == a_flag(*self, 3) { unimplemented!() }
    #[verifier::external_body]
    pub fn use_rle(&self) -> (r: bool) ensures r == a_flag(*self, 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn use_target_description_xml(&self) -> (r: bool) ensures r == a_flag(*self, 5) { unimplemented!() }
    #[verifier::external_body]
    pub fn use_lldb_register_info(&self) -> (r: bool) ensures r == a_flag(*self, 6) { unimplemented!() }
    #[verifier::external_body]
    pub fn base_ops(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 0), *final(self) == after(*old(self), Q::Ops(0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_breakpoints(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 1), *final(self) == after(*old(self), Q::Ops(1)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_monitor_cmd(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 2), *final(self) == after(*old(self), Q::Ops(2)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_extended_mode(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 3), *final(self) == after(*old(self), Q::Ops(3)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_section_offsets(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 4), *final(self) == after(*old(self), Q::Ops(4)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_tracepoints(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 5), *final(self) == after(*old(self), Q::Ops(5)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_target_description_xml_override(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 6), *final(self) == after(*old(self), Q::Ops(6)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_lldb_register_info_override(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 7), *final(self) == after(*old(self), Q::Ops(7)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_memory_map(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 8), *final(self) == after(*old(self), Q::Ops(8)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_catch_syscalls(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 9), *final(self) == after(*old(self), Q::Ops(9)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_host_io(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 10), *final(self) == after(*old(self), Q::Ops(10)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_exec_file(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 11), *final(self) == after(*old(self), Q::Ops(11)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_auxv(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 12), *final(self) == after(*old(self), Q::Ops(12)) { unimplemented!() }
    #[verifier::external_body]
    pub fn support_libraries_svr4(&mut self) -> (r: VxOps) ensures r == a_ops(*old(self), 13), *final(self) == after(*old(self), Q::Ops(13)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, byte: u8) -> (r: Result<(), VxErr>) ensures r == a_unit(*old(self), Q::Write(byte)), *final(self) == after(*old(self), Q::Write(byte)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VxErr>) ensures r == a_unit(*old(self), Q::WriteAll(buf@)), *final(self) == after(*old(self), Q::WriteAll(buf@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(*old(self), Q::Flush), *final(self) == after(*old(self), Q::Flush) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_session_start(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(*old(self), Q::Start), *final(self) == after(*old(self), Q::Start) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<u8, VxErr>) ensures r == a_read(*old(self)), *final(self) == after(*old(self), Q::Read) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Result<Option<u8>, VxErr>) ensures r == a_peek(*old(self)), *final(self) == after(*old(self), Q::Peek) { unimplemented!() }
}
pub trait FwTarget {
    spec fn vx_inner(&self) -> VxDyn;
    fn guard_rail_implicit_sw_breakpoints(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 0);
    fn use_no_ack_mode(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 1);
    fn use_x_upcase_packet(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 2);
    fn use_resume_stub(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 3);
    fn use_rle(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 4);
    fn use_target_description_xml(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 5);
    fn use_lldb_register_info(&self) -> (r: bool) ensures r == a_flag(self.vx_inner(), 6);
    fn base_ops(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 0), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(0));
    fn support_breakpoints(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 1), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(1));
    fn support_monitor_cmd(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 2), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(2));
    fn support_extended_mode(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 3), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(3));
    fn support_section_offsets(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 4), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(4));
    fn support_tracepoints(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 5), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(5));
    fn support_target_description_xml_override(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 6), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(6));
    fn support_lldb_register_info_override(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 7), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(7));
    fn support_memory_map(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 8), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(8));
    fn support_catch_syscalls(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 9), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(9));
    fn support_host_io(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 10), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(10));
    fn support_exec_file(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 11), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(11));
    fn support_auxv(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 12), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(12));
    fn support_libraries_svr4(&mut self) -> (r: VxOps) ensures r == a_ops(old(self).vx_inner(), 13), final(self).vx_inner() == after(old(self).vx_inner(), Q::Ops(13));
}
pub trait FwConnExt {
    spec fn vx_inner(&self) -> VxDyn;
    fn read(&mut self) -> (r: Result<u8, VxErr>) ensures r == a_read(old(self).vx_inner()), final(self).vx_inner() == after(old(self).vx_inner(), Q::Read);
    fn peek(&mut self) -> (r: Result<Option<u8>, VxErr>) ensures r == a_peek(old(self).vx_inner()), final(self).vx_inner() == after(old(self).vx_inner(), Q::Peek);
}
// a box and a reference are Deref-transparent: the value inside is the one that is asked
//@ impl @expanded mod target / Target for &mut dyn Target<Arch = A, Error = E> ==> impl FwTarget for &mut VxDyn
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn guard_rail_implicit_sw_breakpoints
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_no_ack_mode
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_x_upcase_packet
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_resume_stub
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_rle
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_target_description_xml
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_lldb_register_info
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn base_ops
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_breakpoints
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_monitor_cmd
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_extended_mode
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_section_offsets
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_tracepoints
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_target_description_xml_override
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_lldb_register_info_override
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_memory_map
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_catch_syscalls
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_host_io
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_exec_file
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_auxv
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_libraries_svr4
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ endimpl
//@ impl @expanded mod target / Target for alloc::boxed::Box<dyn Target<Arch = A, Error = E>> ==> impl FwTarget for Box<VxDyn>
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn guard_rail_implicit_sw_breakpoints
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_no_ack_mode
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_x_upcase_packet
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_resume_stub
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_rle
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_target_description_xml
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn use_lldb_register_info
//@ opt default=@expanded mod target / Target
//@ opt retty=bool
//@ opt novis
//@ end
//@ fn base_ops
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_breakpoints
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_monitor_cmd
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_extended_mode
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_section_offsets
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_tracepoints
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_target_description_xml_override
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_lldb_register_info_override
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_memory_map
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_catch_syscalls
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_host_io
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_exec_file
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_auxv
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ fn support_libraries_svr4
//@ opt default=@expanded mod target / Target
//@ opt retty=VxOps
//@ opt novis
//@ end
//@ endimpl
pub mod fw_ref_connection { use super::*;
pub trait FwConn {
    spec fn vx_inner(&self) -> VxDyn;
    fn write(&mut self, byte: u8) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Write(byte)), final(self).vx_inner() == after(old(self).vx_inner(), Q::Write(byte));
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::WriteAll(buf@)), final(self).vx_inner() == after(old(self).vx_inner(), Q::WriteAll(buf@));
    fn flush(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Flush), final(self).vx_inner() == after(old(self).vx_inner(), Q::Flush);
    fn on_session_start(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Start), final(self).vx_inner() == after(old(self).vx_inner(), Q::Start);
}
//@ impl src/conn/impls/mod.rs Connection for &mut dyn Connection<Error = E> ==> impl FwConn for &mut VxDyn
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn write
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn write_all
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn flush
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn on_session_start
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ endimpl
}
pub mod fw_ref_connectionext { use super::*;
pub trait FwConn {
    spec fn vx_inner(&self) -> VxDyn;
    fn write(&mut self, byte: u8) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Write(byte)), final(self).vx_inner() == after(old(self).vx_inner(), Q::Write(byte));
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::WriteAll(buf@)), final(self).vx_inner() == after(old(self).vx_inner(), Q::WriteAll(buf@));
    fn flush(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Flush), final(self).vx_inner() == after(old(self).vx_inner(), Q::Flush);
    fn on_session_start(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Start), final(self).vx_inner() == after(old(self).vx_inner(), Q::Start);
}
//@ impl src/conn/impls/mod.rs Connection for &mut dyn ConnectionExt<Error = E> ==> impl FwConn for &mut VxDyn
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn write
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn write_all
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn flush
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn on_session_start
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ endimpl
}
//@ impl src/conn/impls/mod.rs ConnectionExt for &mut dyn ConnectionExt<Error = E> ==> impl FwConnExt for &mut VxDyn
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn read
//@ opt default=src/conn/mod.rs ConnectionExt
//@ opt retty=Result<u8, VxErr>
//@ opt novis
//@ end
//@ fn peek
//@ opt default=src/conn/mod.rs ConnectionExt
//@ opt retty=Result<Option<u8>, VxErr>
//@ opt novis
//@ end
//@ endimpl
pub mod fw_box_connection { use super::*;
pub trait FwConn {
    spec fn vx_inner(&self) -> VxDyn;
    fn write(&mut self, byte: u8) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Write(byte)), final(self).vx_inner() == after(old(self).vx_inner(), Q::Write(byte));
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::WriteAll(buf@)), final(self).vx_inner() == after(old(self).vx_inner(), Q::WriteAll(buf@));
    fn flush(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Flush), final(self).vx_inner() == after(old(self).vx_inner(), Q::Flush);
    fn on_session_start(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Start), final(self).vx_inner() == after(old(self).vx_inner(), Q::Start);
}
//@ impl src/conn/impls/boxed.rs Connection for Box<dyn Connection<Error = E>> ==> impl FwConn for Box<VxDyn>
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn write
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn write_all
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn flush
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn on_session_start
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ endimpl
}
pub mod fw_box_connectionext { use super::*;
pub trait FwConn {
    spec fn vx_inner(&self) -> VxDyn;
    fn write(&mut self, byte: u8) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Write(byte)), final(self).vx_inner() == after(old(self).vx_inner(), Q::Write(byte));
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::WriteAll(buf@)), final(self).vx_inner() == after(old(self).vx_inner(), Q::WriteAll(buf@));
    fn flush(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Flush), final(self).vx_inner() == after(old(self).vx_inner(), Q::Flush);
    fn on_session_start(&mut self) -> (r: Result<(), VxErr>) ensures r == a_unit(old(self).vx_inner(), Q::Start), final(self).vx_inner() == after(old(self).vx_inner(), Q::Start);
}
//@ impl src/conn/impls/boxed.rs Connection for Box<dyn ConnectionExt<Error = E>> ==> impl FwConn for Box<VxDyn>
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn write
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn write_all
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn flush
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ fn on_session_start
//@ opt default=src/conn/mod.rs Connection
//@ opt retty=Result<(), VxErr>
//@ opt novis
//@ end
//@ endimpl
}
//@ impl src/conn/impls/boxed.rs ConnectionExt for Box<dyn ConnectionExt<Error = E>> ==> impl FwConnExt for Box<VxDyn>
    open spec fn vx_inner(&self) -> VxDyn { **self }
//@ fn read
//@ opt default=src/conn/mod.rs ConnectionExt
//@ opt retty=Result<u8, VxErr>
//@ opt novis
//@ end
//@ fn peek
//@ opt default=src/conn/mod.rs ConnectionExt
//@ opt retty=Result<Option<u8>, VxErr>
//@ opt novis
//@ end
//@ endimpl
