global size_of usize == 8;
// ---- the user's target: opaque, its methods record the calls made to them ------------
// (assumed: what a target supports does not change during a session; its methods return)
pub type T = VxT;
pub trait Target: Sized {
    spec fn asked(&self, o: &Self) -> bool;
    proof fn asked_refl(&self) ensures self.asked(self);
}
impl Target for VxT {
    open spec fn asked(&self, o: &Self) -> bool { self@ == o@ }
    proof fn asked_refl(&self) {}
}
#[verifier::external_body]
pub struct VxError { _p: u8 }
#[verifier::external_body]
pub struct VxIo { _p: u8 }
impl VxIo {
    pub uninterp spec fn os(&self) -> Option<i32>;
    #[verifier::external_body]
    pub fn raw_os_error(&self) -> (r: Option<i32>) ensures r == self.os() { unimplemented!() }
}
//@ subst std :: io :: Error => VxIo
//@ item src/target/mod.rs TargetError
//@ subst < T :: Arch as Arch > :: Usize => AUsize
//@ subst < T :: Arch as Arch > :: BreakpointKind => ABreakpointKind
//@ subst < T :: Arch as Arch > :: Registers => ARegisters
//@ subst < T :: Arch as Arch > :: RegId => ARegId
//@ subst T :: Error => VxError
//@ subst T :: Arch :: => AArch ::
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct AUsize { v: u64 }
impl VxInt for AUsize {
    uninterp spec fn val(self) -> int;
    uninterp spec fn maxv() -> int;
}
// Arch::Usize: num_traits::Unsigned
pub broadcast axiom fn ausize_unsigned(a: AUsize)
    ensures 0 <= #[trigger] a.val() <= AUsize::maxv(), a.uval() == a.val();
impl NumCast for AUsize {
    #[verifier::external_body]
    fn from(n: usize) -> (r: Option<Self>) { unimplemented!() }
}
impl CheckedAdd for AUsize {
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl BeBytes for AUsize {
    uninterp spec fn nbytes() -> nat;
    uninterp spec fn be(self) -> Seq<u8>;
    uninterp spec fn uval(self) -> nat;
    axiom fn be_axiom(self);
    #[verifier::external_body]
    fn to_be_bytes(self, buf: &mut [u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from_be_bytes(buf: &[u8]) -> (r: Option<Self>) { unimplemented!() }
}
impl PrimInt for AUsize {
    #[verifier::external_body]
    fn is_zero(&self) -> (r: bool) { unimplemented!() }
}
// `addr` is the number spelt by `b`
pub open spec fn be_num<I: BeBytes>(b: Seq<u8>, n: I) -> bool { n.uval() == beval(b) }
pub open spec fn be_fits<I: BeBytes>(b: Seq<u8>) -> bool { beval(b) < pow256(I::nbytes()) }
#[verifier::external_body]
pub struct ABreakpointKind { v: u8 }
impl ABreakpointKind {
    pub uninterp spec fn of(kind: usize) -> Option<Self>;
    #[verifier::external_body]
    pub fn from_usize(kind: usize) -> (r: Option<Self>) ensures r == Self::of(kind) { unimplemented!() }
}
// Arch::Registers: (de)serialization is a function of the registers / the bytes
#[verifier::external_body]
pub struct ARegisters { v: u8 }
impl ARegisters {
    pub uninterp spec fn dflt() -> Self;
    pub uninterp spec fn bytes(&self) -> Seq<Option<u8>>;
    pub uninterp spec fn accepts(&self, b: Seq<u8>) -> bool;
    pub uninterp spec fn parsed(&self, b: Seq<u8>) -> Self;
    #[verifier::external_body]
    pub fn gdb_serialize(&self) -> (r: VxCb<Option<u8>, ()>) ensures r.all() == self.bytes(), r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn gdb_deserialize(&mut self, bytes: &[u8]) -> (r: Result<(), ()>)
        ensures r is Ok <==> old(self).accepts(bytes@), r is Ok ==> *final(self) == old(self).parsed(bytes@),
    { unimplemented!() }
}
impl ARegisters {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == Self::dflt() { unimplemented!() }
}
#[verifier::external_body]
pub struct ARegId { v: u8 }
impl ARegId {
    // the register a number stands for, and its size if that is fixed
    pub uninterp spec fn of(id: usize) -> Option<(Self, Option<NonZeroUsize>)>;
    #[verifier::external_body]
    pub fn from_raw_id(id: usize) -> (r: Option<(Self, Option<NonZeroUsize>)>) ensures r == Self::of(id) { unimplemented!() }
}

// what a method hands to the callback it is given
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(R)]
pub struct VxCb<I, R> { pub i: I, pub r: R }
impl<I, R> VxCb<I, R> {
    pub uninterp spec fn all(&self) -> Seq<I>;
    pub uninterp spec fn pos(&self) -> nat;
    pub uninterp spec fn result(&self) -> R;
    #[verifier::external_body]
    pub fn vx_more(&self) -> (r: bool) ensures r == (self.pos() < self.all().len()), self.pos() <= self.all().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_item(&mut self) -> (r: I)
        requires old(self).pos() < old(self).all().len(),
        ensures r == old(self).all()[old(self).pos() as int], final(self).pos() == old(self).pos() + 1, final(self).all() == old(self).all(), final(self).result() == old(self).result(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_done(self) -> (r: R) ensures r == self.result() { unimplemented!() }
}
pub trait VxTid { spec fn vx_tid(self) -> Option<int>; }
impl VxTid for () { open spec fn vx_tid(self) -> Option<int> { None } }
impl VxTid for NonZeroUsize { open spec fn vx_tid(self) -> Option<int> { Some(self@ as int) } }
pub open spec fn oview(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { None => None, Some(s) => Some(s@) } }
pub type Tid = NonZeroUsize;
pub type Pid = NonZeroUsize;
//@ item src/common/signal.rs Signal
//@ impl src/common/signal.rs Signal
//@ const *
//@ endimpl
//@ file ST = src/target/ext/base/singlethread.rs
//@ file MT = src/target/ext/base/multithread.rs
//@ file SRA = src/target/ext/base/single_register_access.rs
//@ file REV = src/target/ext/base/reverse_exec.rs
//@ dyn src/target/mod.rs Target ==> VxT skip base_ops
//@ enddyn
pub enum BaseOps<'a> { SingleThread(&'a mut SingleThreadBaseDyn), MultiThread(&'a mut MultiThreadBaseDyn) }
pub enum ResumeOps<'a> { SingleThread(&'a mut SingleThreadResumeDyn), MultiThread(&'a mut MultiThreadResumeDyn) }
impl VxT {
    // a target is single- or multi-threaded for good
    #[verifier::external_body]
    pub fn base_ops(&mut self) -> (r: BaseOps<'_>)
        ensures
            r is MultiThread <==> old(self)@.has.multi,
            r is SingleThread ==> (r->SingleThread_0)@ == old(self)@ && final(self)@ == final(r->SingleThread_0)@,
            r is MultiThread ==> (r->MultiThread_0)@ == old(self)@ && final(self)@ == final(r->MultiThread_0)@,
    { unimplemented!() }
}
//@ dyn ST SingleThreadBase ==> SingleThreadBaseDyn
//@ enddyn
//@ dyn MT MultiThreadBase ==> MultiThreadBaseDyn
//@ enddyn
//@ dyn ST SingleThreadResume ==> SingleThreadResumeDyn
//@ enddyn
//@ dyn MT MultiThreadResume ==> MultiThreadResumeDyn
//@ enddyn
//@ dyn ST SingleThreadSingleStep ==> SingleThreadSingleStepDyn
//@ enddyn
//@ dyn ST SingleThreadRangeStepping ==> SingleThreadRangeSteppingDyn
//@ enddyn
//@ dyn MT MultiThreadSingleStep ==> MultiThreadSingleStepDyn
//@ enddyn
//@ dyn MT MultiThreadRangeStepping ==> MultiThreadRangeSteppingDyn
//@ enddyn
//@ dyn SRA SingleRegisterAccess ==> SingleRegisterAccessDyn
//@ enddyn
//@ dyn REV ReverseCont ==> ReverseContDyn
//@ enddyn
//@ dyn REV ReverseStep ==> ReverseStepDyn
//@ enddyn
//@ item src/target/ext/breakpoints.rs WatchKind
//@ dyn src/target/ext/breakpoints.rs Breakpoints ==> BreakpointsDyn
//@ enddyn
//@ dyn src/target/ext/breakpoints.rs SwBreakpoint ==> SwBreakpointDyn
//@ enddyn
//@ dyn src/target/ext/breakpoints.rs HwBreakpoint ==> HwBreakpointDyn
//@ enddyn
//@ dyn src/target/ext/breakpoints.rs HwWatchpoint ==> HwWatchpointDyn
//@ enddyn
//@ dyn src/target/ext/auxv.rs Auxv ==> AuxvDyn
//@ enddyn
//@ dyn src/target/ext/exec_file.rs ExecFile ==> ExecFileDyn
//@ enddyn
//@ dyn src/target/ext/libraries.rs LibrariesSvr4 ==> LibrariesSvr4Dyn
//@ enddyn
//@ dyn src/target/ext/memory_map.rs MemoryMap ==> MemoryMapDyn
//@ enddyn
//@ dyn src/target/ext/target_description_xml_override.rs TargetDescriptionXmlOverride ==> TargetDescriptionXmlOverrideDyn
//@ enddyn
//@ dyn src/target/ext/thread_extra_info.rs ThreadExtraInfo ==> ThreadExtraInfoDyn
//@ enddyn
//@ item src/target/ext/section_offsets.rs Offsets
//@ dyn src/target/ext/section_offsets.rs SectionOffsets ==> SectionOffsetsDyn
//@ enddyn
//@ item src/target/ext/extended_mode.rs ShouldTerminate
//@ item src/target/ext/extended_mode.rs AttachKind
//@ dyn src/target/ext/extended_mode.rs ExtendedMode ==> ExtendedModeDyn skip run
//@ enddyn
// the arguments of a program to run: an iterator the target may drain
pub trait VxArgIter { spec fn items(&self) -> Seq<Seq<u8>>; }
impl ExtendedModeDyn {
    #[verifier::external_body]
    pub fn run<A: VxArgIter>(&mut self, filename: Option<&[u8]>, args: A) -> (r: Result<Pid, TargetError<VxError>>)
        ensures final(self)@ == old(self)@.did(Ev::ExtendedMode_run(oview(filename), args.items(), r)),
    { unimplemented!() }
}
//@ dyn src/target/ext/extended_mode.rs ConfigureAslr ==> ConfigureAslrDyn
//@ enddyn
//@ dyn src/target/ext/extended_mode.rs ConfigureEnv ==> ConfigureEnvDyn
//@ enddyn
//@ dyn src/target/ext/extended_mode.rs ConfigureStartupShell ==> ConfigureStartupShellDyn
//@ enddyn
//@ dyn src/target/ext/extended_mode.rs ConfigureWorkingDir ==> ConfigureWorkingDirDyn
//@ enddyn
//@ dyn src/target/ext/extended_mode.rs CurrentActivePid ==> CurrentActivePidDyn
//@ enddyn
//@ bitflags src/target/ext/host_io.rs HostIoOpenFlags
//@ bitflags src/target/ext/host_io.rs HostIoOpenMode
//@ subst crate :: common :: Pid => Pid
//@ item src/target/ext/host_io.rs HostIoStat
//@ item src/target/ext/host_io.rs FsKind
//@ item src/target/ext/host_io.rs HostIoErrno
//@ item src/target/ext/host_io.rs HostIoError
//@ each X = HostIo ; HostIoOpen ; HostIoClose ; HostIoPwrite ; HostIoFstat ; HostIoUnlink ; HostIoSetfs
//@ dyn src/target/ext/host_io.rs @X@ ==> @X@Dyn
//@ enddyn
//@ endeach
//@ dyn src/target/ext/host_io.rs HostIoPread ==> HostIoPreadDyn
//@ enddyn
//@ dyn src/target/ext/host_io.rs HostIoReadlink ==> HostIoReadlinkDyn
//@ enddyn
//@ dyn src/target/ext/catch_syscalls.rs CatchSyscalls ==> CatchSyscallsDyn skip enable_catch_syscalls
//@ enddyn
//@ dyn src/target/ext/monitor_cmd.rs MonitorCmd ==> MonitorCmdDyn
//@ enddyn
impl MonitorCmdDyn {
    #[verifier::external_body]
    pub fn use_rle(&self) -> (r: bool) ensures r == self@.has.use_rle { unimplemented!() }
}
//@ each I = RegisterInfo ; Register ; Encoding ; Format ; Generic
//@ item src/arch.rs mod lldb / @I@
//@ endeach
impl<'a> Register<'a> {
    pub open spec fn ok(&self) -> bool { plain(self.name.spec_bytes()) && plain(self.set.spec_bytes()) && (self.alt_name matches Some(n) ==> plain(n.spec_bytes())) }
}
//@ dyn src/target/ext/lldb_register_info_override.rs LldbRegisterInfoOverride ==> LldbRegisterInfoOverrideDyn
//@ method lldb_register_info
            // (the token which Ok carries comes from the one call of the callback; assumed: names are plain text)
            r.all().len() <= 1, r.result() is Ok ==> r.all().len() == 1,
            forall|i: int| 0 <= i < r.all().len() && #[trigger] r.all()[i] is Some ==> (r.all()[i]->0).ok(),
//@ enddyn
