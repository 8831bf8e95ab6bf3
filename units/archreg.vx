//@ include prelude.vx
use core::num::NonZeroUsize;
use vstd::layout::*;
global size_of usize == 8;
// ---- specification: which register a raw id names, and its size in bytes, per architecture.
// Written from the register tables of GDB's target descriptions, not from the code.
pub open spec fn is_reg<R>(r: Option<(R, Option<NonZeroUsize>)>, want: Option<(R, nat)>) -> bool {
    match want {
        None => r is None,
        Some(w) => r is Some && (r->0).0 == w.0 && (r->0).1 is Some && (r->0).1->0@ as nat == w.1,
    }
}
//@ file armid = gdbstub_arch/src/arm/reg/id.rs
//@ file armmod = gdbstub_arch/src/arm/mod.rs
//@ file rvid = gdbstub_arch/src/riscv/reg/id.rs
//@ file rv32 = gdbstub_arch/src/riscv/reg/id.rs!impl_riscv_reg_id usize=u32
//@ file rv64 = gdbstub_arch/src/riscv/reg/id.rs!impl_riscv_reg_id usize=u64
//@ file mipsid = gdbstub_arch/src/mips/reg/id.rs
//@ file mipsmod = gdbstub_arch/src/mips/mod.rs
//@ file mspid = gdbstub_arch/src/msp430/reg/id.rs
//@ file x86id = gdbstub_arch/src/x86/reg/id.rs
//@ file a64id = gdbstub_arch/src/aarch64/reg/id.rs
// ------------------------------------------------------------------ arm
//@ item armid ArmCoreRegId
pub open spec fn arm_reg(id: int) -> Option<(ArmCoreRegId, nat)> {
    if 0 <= id <= 12 { Some((ArmCoreRegId::Gpr(id as u8), 4)) }
    else if id == 13 { Some((ArmCoreRegId::Sp, 4)) }
    else if id == 14 { Some((ArmCoreRegId::Lr, 4)) }
    else if id == 15 { Some((ArmCoreRegId::Pc, 4)) }
    else if 16 <= id <= 23 { Some((ArmCoreRegId::Fpr((id - 16) as u8), 12)) }
    else if id == 24 { Some((ArmCoreRegId::Fps, 4)) }
    else if id == 25 { Some((ArmCoreRegId::Cpsr, 4)) }
    else { None }
}
//@ impl armid RegId for ArmCoreRegId ==> impl ArmCoreRegId
//@ fn from_raw_id
//@ ret r
//@ spec
    ensures is_reg(r, arm_reg(id as int)),
//@ end
//@ endimpl
//@ item armmod ArmBreakpointKind
//@ impl armmod gdbstub::arch::BreakpointKind for ArmBreakpointKind ==> impl ArmBreakpointKind
//@ fn from_usize
//@ ret r
//@ spec
    ensures r == (if kind == 2 { Some(ArmBreakpointKind::Thumb16) } else if kind == 3 { Some(ArmBreakpointKind::Thumb32) } else if kind == 4 { Some(ArmBreakpointKind::Arm32) } else { None::<ArmBreakpointKind> }),
//@ end
//@ endimpl
// ------------------------------------------------------------------ riscv
//@ item rvid RiscvRegId
pub open spec fn riscv_reg<U>(id: int, w: nat) -> Option<(RiscvRegId<U>, nat)> {
    if 0 <= id <= 31 { Some((RiscvRegId::Gpr(id as u8), w)) }
    else if id == 32 { Some((RiscvRegId::Pc, w)) }
    else if 33 <= id <= 64 { Some((RiscvRegId::Fpr((id - 33) as u8), w)) }
    else if 65 <= id <= 4160 { Some((RiscvRegId::Csr((id - 65) as u16), w)) }
    else if id == 4161 { Some((RiscvRegId::Priv, 1)) }
    else { None }
}
//@ each U W F = u32 4 rv32 ; u64 8 rv64
//@ impl @F@ RegId for RiscvRegId<@U@> ==> impl RiscvRegId<@U@>
//@ fn from_raw_id
//@ opt rename=from_raw_id_@U@
//@ ret r
//@ subst const USIZE : usize = core :: mem :: size_of :: < @U@ > () ; => let USIZE : usize = core :: mem :: size_of :: < @U@ > () ;
//@ spec
    ensures is_reg(r, riscv_reg::<@U@>(id as int, @W@)),
//@ at start
    broadcast use layout_of_primitives;
//@ end
//@ endimpl
//@ endeach
// ------------------------------------------------------------------ mips
//@ item mipsid MipsRegId
pub open spec fn mips_reg<U>(id: int, w: nat) -> Option<(MipsRegId<U>, nat)> {
    if 0 <= id <= 31 { Some((MipsRegId::Gpr(id as u8), w)) }
    else if id == 32 { Some((MipsRegId::Status, w)) }
    else if id == 33 { Some((MipsRegId::Lo, w)) }
    else if id == 34 { Some((MipsRegId::Hi, w)) }
    else if id == 35 { Some((MipsRegId::Badvaddr, w)) }
    else if id == 36 { Some((MipsRegId::Cause, w)) }
    else if id == 37 { Some((MipsRegId::Pc, w)) }
    else if 38 <= id <= 69 { Some((MipsRegId::Fpr((id - 38) as u8), w)) }
    else if id == 70 { Some((MipsRegId::Fcsr, w)) }
    else if id == 71 { Some((MipsRegId::Fir, w)) }
    else if id == 72 { Some((MipsRegId::Hi1, w)) }
    else if id == 73 { Some((MipsRegId::Lo1, w)) }
    else if id == 74 { Some((MipsRegId::Hi2, w)) }
    else if id == 75 { Some((MipsRegId::Lo2, w)) }
    else if id == 76 { Some((MipsRegId::Hi3, w)) }
    else if id == 77 { Some((MipsRegId::Lo3, w)) }
    else if id == 78 { Some((MipsRegId::Dspctl, 4)) }
    else if id == 79 { Some((MipsRegId::Restart, w)) }
    else { None }
}
//@ fn mipsid from_raw_id
//@ opt rename=mips_from_raw_id
//@ ret r
//@ spec
    requires size_of::<U>() > 0,
    ensures is_reg(r, mips_reg::<U>(id as int, size_of::<U>())),
//@ end
//@ each U W = u32 4 ; u64 8
//@ impl mipsid RegId for MipsRegId<@U@> ==> impl MipsRegId<@U@>
//@ fn from_raw_id
//@ opt rename=from_raw_id_@U@
//@ ret r
//@ subst from_raw_id :: < @U@ > => mips_from_raw_id :: < @U@ >
//@ spec
    ensures is_reg(r, mips_reg::<@U@>(id as int, @W@)),
//@ at start
    broadcast use layout_of_primitives;
//@ end
//@ endimpl
//@ endeach
//@ item mipsmod MipsBreakpointKind
//@ impl mipsmod gdbstub::arch::BreakpointKind for MipsBreakpointKind ==> impl MipsBreakpointKind
//@ fn from_usize
//@ ret r
//@ spec
    ensures r == (if kind == 2 { Some(MipsBreakpointKind::Mips16) } else if kind == 3 { Some(MipsBreakpointKind::MicroMips16) } else if kind == 4 { Some(MipsBreakpointKind::Mips32) } else if kind == 5 { Some(MipsBreakpointKind::MicroMips32) } else { None::<MipsBreakpointKind> }),
//@ end
//@ endimpl
// ------------------------------------------------------------------ msp430
//@ item mspid Msp430RegId
pub open spec fn msp_reg<U>(id: int, w: nat) -> Option<(Msp430RegId<U>, nat)> {
    if id == 0 { Some((Msp430RegId::Pc, w)) }
    else if id == 1 { Some((Msp430RegId::Sp, w)) }
    else if id == 2 { Some((Msp430RegId::Sr, w)) }
    else if id == 3 { Some((Msp430RegId::Cg, w)) }
    else if 4 <= id <= 15 { Some((Msp430RegId::Gpr((id - 4) as u8), w)) }
    else { None }
}
//@ fn mspid from_raw_id
//@ opt rename=msp_from_raw_id
//@ ret r
//@ spec
    requires size_of::<U>() > 0,
    ensures is_reg(r, msp_reg::<U>(id as int, size_of::<U>())),
//@ end
//@ each U W = u16 2 ; u32 4
//@ impl mspid RegId for Msp430RegId<@U@> ==> impl Msp430RegId<@U@>
//@ fn from_raw_id
//@ opt rename=from_raw_id_@U@
//@ ret r
//@ subst from_raw_id :: < @U@ > => msp_from_raw_id :: < @U@ >
//@ spec
    ensures is_reg(r, msp_reg::<@U@>(id as int, @W@)),
//@ at start
    broadcast use layout_of_primitives;
//@ end
//@ endimpl
//@ endeach
// ------------------------------------------------------------------ x86
//@ item x86id X87FpuInternalRegId
//@ item x86id X86SegmentRegId
//@ item x86id X86CoreRegId
//@ item x86id X86_64CoreRegId
pub open spec fn fpu_reg(v: int) -> Option<X87FpuInternalRegId> {
    if v == 0 { Some(X87FpuInternalRegId::Fctrl) } else if v == 1 { Some(X87FpuInternalRegId::Fstat) } else if v == 2 { Some(X87FpuInternalRegId::Ftag) }
    else if v == 3 { Some(X87FpuInternalRegId::Fiseg) } else if v == 4 { Some(X87FpuInternalRegId::Fioff) } else if v == 5 { Some(X87FpuInternalRegId::Foseg) }
    else if v == 6 { Some(X87FpuInternalRegId::Fooff) } else if v == 7 { Some(X87FpuInternalRegId::Fop) } else { None }
}
pub open spec fn seg_reg(v: int) -> Option<X86SegmentRegId> {
    if v == 0 { Some(X86SegmentRegId::CS) } else if v == 1 { Some(X86SegmentRegId::SS) } else if v == 2 { Some(X86SegmentRegId::DS) }
    else if v == 3 { Some(X86SegmentRegId::ES) } else if v == 4 { Some(X86SegmentRegId::FS) } else if v == 5 { Some(X86SegmentRegId::GS) } else { None }
}
pub open spec fn x86_reg(id: int) -> Option<(X86CoreRegId, nat)> {
    if id == 0 { Some((X86CoreRegId::Eax, 4)) } else if id == 1 { Some((X86CoreRegId::Ecx, 4)) } else if id == 2 { Some((X86CoreRegId::Edx, 4)) }
    else if id == 3 { Some((X86CoreRegId::Ebx, 4)) } else if id == 4 { Some((X86CoreRegId::Esp, 4)) } else if id == 5 { Some((X86CoreRegId::Ebp, 4)) }
    else if id == 6 { Some((X86CoreRegId::Esi, 4)) } else if id == 7 { Some((X86CoreRegId::Edi, 4)) } else if id == 8 { Some((X86CoreRegId::Eip, 4)) }
    else if id == 9 { Some((X86CoreRegId::Eflags, 4)) }
    else if 10 <= id <= 15 { Some((X86CoreRegId::Segment(seg_reg(id - 10)->0), 4)) }
    else if 16 <= id <= 23 { Some((X86CoreRegId::St((id - 16) as u8), 10)) }
    else if 24 <= id <= 31 { Some((X86CoreRegId::Fpu(fpu_reg(id - 24)->0), 4)) }
    else if 32 <= id <= 39 { Some((X86CoreRegId::Xmm((id - 32) as u8), 16)) }
    else if id == 40 { Some((X86CoreRegId::Mxcsr, 4)) }
    else { None }
}
pub open spec fn x64_reg(id: int) -> Option<(X86_64CoreRegId, nat)> {
    if 0 <= id <= 15 { Some((X86_64CoreRegId::Gpr(id as u8), 8)) }
    else if id == 16 { Some((X86_64CoreRegId::Rip, 8)) }
    else if id == 17 { Some((X86_64CoreRegId::Eflags, 4)) }
    else if 18 <= id <= 23 { Some((X86_64CoreRegId::Segment(seg_reg(id - 18)->0), 4)) }
    else if 24 <= id <= 31 { Some((X86_64CoreRegId::St((id - 24) as u8), 10)) }
    else if 32 <= id <= 39 { Some((X86_64CoreRegId::Fpu(fpu_reg(id - 32)->0), 4)) }
    else if 40 <= id <= 55 { Some((X86_64CoreRegId::Xmm((id - 40) as u8), 16)) }
    else if id == 56 { Some((X86_64CoreRegId::Mxcsr, 4)) }
    else { None }
}
//@ each T S = X87FpuInternalRegId fpu_reg ; X86SegmentRegId seg_reg
//@ impl x86id @T@
//@ fn from_u8
//@ ret r
//@ spec
    ensures r == @S@(val as int),
//@ end
//@ endimpl
//@ endeach
//@ each T S = X86CoreRegId x86_reg ; X86_64CoreRegId x64_reg
//@ impl x86id RegId for @T@ ==> impl @T@
//@ fn from_raw_id
//@ ret r
//@ spec
    ensures is_reg(r, @S@(id as int)),
//@ end
//@ endimpl
//@ endeach
// ------------------------------------------------------------------ aarch64
//@ item a64id AArch64RegId
// FPSR and FPCR: S3_3_C4_C4_1 and S3_3_C4_C4_0. (Their size is a recorded finding: fpu.xml says 32 bits.)
pub open spec fn a64_reg(id: int) -> Option<(AArch64RegId, nat)> {
    if 0 <= id <= 30 { Some((AArch64RegId::X(id as u8), 8)) }
    else if id == 31 { Some((AArch64RegId::Sp, 8)) }
    else if id == 32 { Some((AArch64RegId::Pc, 8)) }
    else if id == 33 { Some((AArch64RegId::Pstate, 4)) }
    else if 34 <= id <= 65 { Some((AArch64RegId::V((id - 34) as u8), 16)) }
    else if id == 66 { Some((AArch64RegId::System(0xda21), 4)) }
    else if id == 67 { Some((AArch64RegId::System(0xda20), 4)) }
    else if 0x8000 <= id <= 0xffff { Some((AArch64RegId::System(id as u16), 8)) }
    else { None }
}
//@ impl a64id AArch64RegId
//@ const FPCR
//@ const FPSR
//@ fn len
//@ ret r
//@ spec
    ensures match *self {
        AArch64RegId::Pstate => r == Some(4usize),
        AArch64RegId::X(n) => r == (if n <= 30 { Some(8usize) } else { None::<usize> }),
        AArch64RegId::V(n) => r == (if n <= 31 { Some(16usize) } else { None::<usize> }),
        AArch64RegId::Pc | AArch64RegId::Sp => r == Some(8usize),
        AArch64RegId::System(n) => r == Some(8usize) || ((n == 0xda20 || n == 0xda21) && r == Some(4usize)),
    },
//@ at start
    broadcast use layout_of_primitives;
//@ end
//@ endimpl
//@ impl a64id RegId for AArch64RegId ==> impl AArch64RegId
//@ fn from_raw_id
//@ ret r
//@ spec
    ensures id != 66 && id != 67 && id != 0xda20 && id != 0xda21 ==> is_reg(r, a64_reg(id as int)),
        id == 66 || id == 67 || id == 0xda20 || id == 0xda21 ==> r is Some && (r->0).0 == (a64_reg(id as int)->0).0,
//@ end
//@ endimpl
// what the tables promise together: ids are contiguous from 0, no register is named twice
pub proof fn lemma_arm_contiguous(a: int, b: int)
    requires arm_reg(a) is Some, arm_reg(b) is Some, (arm_reg(a)->0).0 == (arm_reg(b)->0).0,
    ensures a == b,
{ }
pub proof fn lemma_x86_contiguous(a: int, b: int)
    ensures x86_reg(a) is Some && x86_reg(b) is Some && (x86_reg(a)->0).0 == (x86_reg(b)->0).0 ==> a == b,
        x64_reg(a) is Some && x64_reg(b) is Some && (x64_reg(a)->0).0 == (x64_reg(b)->0).0 ==> a == b,
{ }
pub proof fn lemma_mips_contiguous<U>(a: int, b: int, w: nat)
    ensures mips_reg::<U>(a, w) is Some && mips_reg::<U>(b, w) is Some && (mips_reg::<U>(a, w)->0).0 == (mips_reg::<U>(b, w)->0).0 ==> a == b,
        msp_reg::<U>(a, w) is Some && msp_reg::<U>(b, w) is Some && (msp_reg::<U>(a, w)->0).0 == (msp_reg::<U>(b, w)->0).0 ==> a == b,
        riscv_reg::<U>(a, w) is Some && riscv_reg::<U>(b, w) is Some && (riscv_reg::<U>(a, w)->0).0 == (riscv_reg::<U>(b, w)->0).0 ==> a == b,
{ }
pub proof fn lemma_a64_contiguous(a: int, b: int)
    ensures a64_reg(a) is Some && a64_reg(b) is Some && (a64_reg(a)->0).0 == (a64_reg(b)->0).0 && a != b ==> (a == 66 || a == 67 || b == 66 || b == 67),
{ }
// ------------------------------------------------------------------ the placeholders of gdbstub itself
//@ file archrs = src/arch.rs
//@ impl archrs RegId for () ==> pub mod unit_reg
use super::*;
//@ fn from_raw_id
//@ opt retty=Option<((), Option<NonZeroUsize>)>
//@ ret r
//@ spec
    ensures r is None,
//@ end
//@ endimpl
//@ impl archrs BreakpointKind for () ==> pub mod unit_bk
use super::*;
//@ fn from_usize
//@ opt retty=Option<()>
//@ ret r
//@ spec
    ensures r is Some <==> kind == 0,
//@ end
//@ endimpl
//@ impl archrs BreakpointKind for usize ==> pub mod usize_bk
use super::*;
//@ fn from_usize
//@ opt retty=Option<usize>
//@ ret r
//@ spec
    ensures r == Some(kind),
//@ end
//@ endimpl
