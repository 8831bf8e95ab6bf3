// -------- qXfer: `:annex:offset,length`
pub trait ParseAnnex<'a>: Sized {
    type V;
    spec fn vw(&self) -> Self::V;
    spec fn syntax(s: Seq<u8>) -> Option<Self::V>;
    spec fn cmd_len() -> nat;
    fn from_buf(buf: &'a [u8]) -> (r: Option<Self>)
        ensures r is Some <==> Self::syntax(buf@) is Some, r is Some ==> Self::syntax(buf@) == Some((r->0).vw());
}
//@ item src/protocol/common/qxfer.rs QXferReadBase
//@ impl src/protocol/common/qxfer.rs ParseCommand<'a> for QXferReadBase<'a,T> ==> impl<'a, T: ParseAnnex<'a>> ParseCommand<'a> for QXferReadBase<'a, T>
type V = (T::V, nat, nat);
open spec fn vw(&self) -> (T::V, nat, nat) { (self.annex.vw(), self.offset as nat, self.length as nat) }
open spec fn syntax(body: Seq<u8>) -> Option<(T::V, nat, nat)> {
    match (nth(body, 0x3a, 1), nth(body, 0x3a, 2)) {
        (Some(a), Some(ol)) => match (T::syntax(a), hexn(nth(ol, 0x2c, 0)->0, u64::MAX as int), nth(ol, 0x2c, 1)) {
            (Some(a), Some(o), Some(l)) => match hexusize(l) { Some(l) => Some((a, o, l)), None => None },
            _ => None,
        },
        _ => None,
    }
}
open spec fn name_len() -> nat { T::cmd_len() }
// everything behind the body is scratch space
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.buf@ == buf.raw().skip(buf.start() + buf.body().len()) }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    proof { reveal_with_fuel(nth2, 4); }
    let ghost raw = buf.raw();
    let ghost l = buf.start();
    let ghost b0 = buf.body();
//@ at before:if body . is_empty
    proof { assert(body@ =~= b0); assert(buf@ =~= raw.skip(l + b0.len())); }
//@ end
//@ endimpl
//@ each F T N = _qXfer_auxv_read AuxvAnnex 15 ; _qXfer_libraries_svr4_read LibrariesSvr4Annex 25 ; _qXfer_memory_map MemoryMapAnnex 21
//@ item src/protocol/commands/@F@.rs @T@
//@ impl src/protocol/commands/@F@.rs ParseAnnex<'_> for @T@ ==> impl<'a> ParseAnnex<'a> for @T@
type V = ();
open spec fn vw(&self) -> () { () }
open spec fn syntax(s: Seq<u8>) -> Option<()> { if s.len() == 0 { Some(()) } else { None } }
open spec fn cmd_len() -> nat { @N@ }
//@ fn from_buf
//@ opt novis
//@ subst & [u8] => &'a [u8]
//@ ret r
//@ end
//@ endimpl
//@ endeach
//@ item src/protocol/commands/_qXfer_exec_file.rs ExecFileAnnex
//@ impl src/protocol/commands/_qXfer_exec_file.rs ParseAnnex<'_> for ExecFileAnnex ==> impl<'a> ParseAnnex<'a> for ExecFileAnnex
type V = Option<nat>;
open spec fn vw(&self) -> Option<nat> { opid(self.pid) }
open spec fn syntax(s: Seq<u8>) -> Option<Option<nat>> { if s.len() == 0 { Some(None) } else { match hexpid(s) { Some(p) => Some(Some(p)), None => None } } }
open spec fn cmd_len() -> nat { 20 }
//@ fn from_buf
//@ opt novis
//@ subst & [u8] => &'a [u8]
//@ ret r
//@ at start
    broadcast use NonZeroUsize::nonzero;
//@ end
//@ endimpl
//@ item src/protocol/commands/_qXfer_features_read.rs FeaturesAnnex
//@ impl src/protocol/commands/_qXfer_features_read.rs ParseAnnex<'a> for FeaturesAnnex<'a> ==> impl<'a> ParseAnnex<'a> for FeaturesAnnex<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.name@ }
open spec fn syntax(s: Seq<u8>) -> Option<Seq<u8>> { Some(s) }
open spec fn cmd_len() -> nat { 19 }
//@ fn from_buf
//@ opt novis
//@ ret r
//@ end
//@ endimpl
// -------- breakpoints: `type,addr,kind[...]`
//@ item src/protocol/commands/breakpoint.rs BasicBreakpoint
pub open spec fn bp_syntax(s: Seq<u8>) -> Option<(nat, Seq<u8>, Seq<u8>)> {
    match (hexn(nthn2(s, 0x2c, 0x3b, 0, 4)->0, 255), nthn2(s, 0x2c, 0x3b, 1, 4), nthn2(s, 0x2c, 0x3b, 2, 4)) {
        (Some(t), Some(a), Some(k)) => match (hexdata(a), hexdata(k)) { (Some(a), Some(k)) => Some((t, a, k)), _ => None },
        _ => None,
    }
}
impl<'a> BasicBreakpoint<'a> { pub open spec fn vw(&self) -> (nat, Seq<u8>, Seq<u8>) { (self.type_ as nat, self.addr@, self.kind@) } }
//@ impl src/protocol/commands/breakpoint.rs BasicBreakpoint<'a>
//@ fn from_slice
//@ ret r
//@ spec
    ensures r is Some <==> bp_syntax(old(body)@) is Some, r is Some ==> bp_syntax(old(body)@) == Some((r->0).vw()),
//@ at start
    proof { reveal_with_fuel(nthn2, 4); }
//@ end
//@ endimpl
// -------- host I/O
// the flags GDB's protocol defines and LLDB's additions; the mode bits
pub open spec fn flags_ok(n: nat) -> bool { n <= u32::MAX && (n as u32) & !0xf0000e0bu32 == 0 }
pub open spec fn mode_ok(n: nat) -> bool { n <= u32::MAX && (n as u32) & !0o140777u32 == 0 }
//@ each T F = close Close ; fstat Fstat
//@ item src/protocol/commands/_vFile_@T@.rs vFile@F@
//@ impl src/protocol/commands/_vFile_@T@.rs ParseCommand<'a> for vFile@F@ ==> impl<'a> ParseCommand<'a> for vFile@F@
type V = nat;
open spec fn vw(&self) -> nat { self.fd as nat }
open spec fn syntax(body: Seq<u8>) -> Option<nat> { match after(body, 0x3a) { Some(h) => hexn(h, u32::MAX as int), None => None } }
open spec fn name_len() -> nat { 11 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
//@ endeach
//@ item src/protocol/commands/_vFile_setfs.rs vFileSetfs
//@ impl src/protocol/commands/_vFile_setfs.rs ParseCommand<'a> for vFileSetfs ==> impl<'a> ParseCommand<'a> for vFileSetfs
// 0: the stub's own filesystem
type V = nat;
open spec fn vw(&self) -> nat { match self.fs { FsKind::Stub => 0, FsKind::Pid(p) => p@ as nat } }
open spec fn syntax(body: Seq<u8>) -> Option<nat> { match after(body, 0x3a) { Some(h) => hexusize(h), None => None } }
open spec fn name_len() -> nat { 11 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    broadcast use NonZeroUsize::nonzero;
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
//@ item src/protocol/commands/_vFile_open.rs vFileOpen
//@ impl src/protocol/commands/_vFile_open.rs ParseCommand<'a> for vFileOpen<'a> ==> impl<'a> ParseCommand<'a> for vFileOpen<'a>
type V = (Seq<u8>, nat, nat);
open spec fn vw(&self) -> (Seq<u8>, nat, nat) { (self.filename@, self.flags.vbits() as nat, self.mode.vbits() as nat) }
open spec fn syntax(body: Seq<u8>) -> Option<(Seq<u8>, nat, nat)> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match (hexdata(nthn(s, 0x2c, 0, 3)->0), nthn(s, 0x2c, 1, 3), nthn(s, 0x2c, 2, 3)) {
            (Some(f), Some(fl), Some(m)) => match (hexn(fl, u32::MAX as int), hexn(m, u32::MAX as int)) {
                (Some(fl), Some(m)) => if flags_ok(fl) && mode_ok(m) { Some((f, fl, m)) } else { None },
                _ => None,
            },
            _ => None,
        },
    }
}
open spec fn name_len() -> nat { 10 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof { reveal_with_fuel(nthn2, 4); }
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
//@ item src/protocol/commands/_vFile_pread.rs vFilePread
//@ impl src/protocol/commands/_vFile_pread.rs ParseCommand<'a> for vFilePread<'a> ==> impl<'a> ParseCommand<'a> for vFilePread<'a>
type V = (nat, nat, nat);
open spec fn vw(&self) -> (nat, nat, nat) { (self.fd as nat, self.count as nat, self.offset as nat) }
open spec fn syntax(body: Seq<u8>) -> Option<(nat, nat, nat)> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match (hexn(nthn(s, 0x2c, 0, 3)->0, u32::MAX as int), nthn(s, 0x2c, 1, 3), nthn(s, 0x2c, 2, 3)) {
            (Some(f), Some(c), Some(o)) => match (hexusize(c), hexn(o, u64::MAX as int)) { (Some(c), Some(o)) => Some((f, c, o)), _ => None },
            _ => None,
        },
    }
}
open spec fn name_len() -> nat { 11 }
// the whole packet buffer is scratch space
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.buf@.len() == buf.raw().len() }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof { reveal_with_fuel(nthn2, 4); }
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
//@ item src/protocol/commands/_vFile_pwrite.rs vFilePwrite
//@ impl src/protocol/commands/_vFile_pwrite.rs ParseCommand<'a> for vFilePwrite<'a> ==> impl<'a> ParseCommand<'a> for vFilePwrite<'a>
type V = (nat, Seq<u8>, Seq<u8>);
open spec fn vw(&self) -> (nat, Seq<u8>, Seq<u8>) { (self.fd as nat, self.offset@, self.data@) }
open spec fn syntax(body: Seq<u8>) -> Option<(nat, Seq<u8>, Seq<u8>)> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match (hexn(nthn(s, 0x2c, 0, 3)->0, u32::MAX as int), nthn(s, 0x2c, 1, 3), nthn(s, 0x2c, 2, 3)) {
            (Some(f), Some(o), Some(d)) => match (hexdata(o), binval(d)) { (Some(o), Some(d)) => Some((f, o, d)), _ => None },
            _ => None,
        },
    }
}
open spec fn name_len() -> nat { 12 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof { reveal_with_fuel(nthn2, 4); }
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
//@ item src/protocol/commands/_vFile_unlink.rs vFileUnlink
//@ impl src/protocol/commands/_vFile_unlink.rs ParseCommand<'a> for vFileUnlink<'a> ==> impl<'a> ParseCommand<'a> for vFileUnlink<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.filename@ }
open spec fn syntax(body: Seq<u8>) -> Option<Seq<u8>> { match after(body, 0x3a) { Some(h) => hexdata(h), None => None } }
open spec fn name_len() -> nat { 12 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
//@ item src/protocol/commands/_vFile_readlink.rs vFileReadlink
//@ impl src/protocol/commands/_vFile_readlink.rs ParseCommand<'a> for vFileReadlink<'a> ==> impl<'a> ParseCommand<'a> for vFileReadlink<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.filename@ }
open spec fn syntax(body: Seq<u8>) -> Option<Seq<u8>> { match after(body, 0x3a) { Some(h) => hexdata(h), None => None } }
open spec fn name_len() -> nat { 14 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.buf@ == buf.raw().skip(buf.start() + buf.body().len()) }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    let ghost raw = buf.raw();
    let ghost l = buf.start();
    let ghost b0 = buf.body();
//@ at before:if body . is_empty
    proof {
        assert(body@ =~= b0); assert(buf@ =~= raw.skip(l + b0.len()));
        assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1));
    }
//@ end
//@ endimpl
// -------- tracepoints
//@ item src/target/ext/tracepoints.rs Tracepoint
//@ item src/target/ext/tracepoints.rs TracepointSourceType
//@ item src/target/ext/tracepoints.rs FrameRequest
//@ item src/target/ext/tracepoints.rs BufferShape
//@ item src/target/ext/tracepoints.rs TraceBufferConfig
pub mod _qTBuffer { use super::*;
//@ item src/protocol/commands/_qTBuffer.rs qTBuffer
//@ impl src/protocol/commands/_qTBuffer.rs ParseCommand<'a> for qTBuffer ==> impl<'a> ParseCommand<'a> for qTBuffer
type V = (nat, nat);
open spec fn vw(&self) -> (nat, nat) { (self.offset as nat, self.length as nat) }
open spec fn syntax(body: Seq<u8>) -> Option<(nat, nat)> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match (hexn(nth(s, 0x2c, 0)->0, u64::MAX as int), nth(s, 0x2c, 1)) {
            (Some(o), Some(l)) => match hexusize(l) { Some(l) => Some((o, l)), None => None },
            _ => None,
        },
    }
}
open spec fn name_len() -> nat { 8 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    proof { reveal_with_fuel(nth2, 3); }
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
pub mod _QTBuffer_upcase { use super::*;
//@ item src/protocol/commands/_QTBuffer_upcase.rs QTBuffer
pub enum BufV { Circular, Linear, Unlimited, Size(nat) }
pub open spec fn circular() -> Seq<u8> { seq![0x63u8, 0x69, 0x72, 0x63, 0x75, 0x6c, 0x61, 0x72] }
pub open spec fn size() -> Seq<u8> { seq![0x73u8, 0x69, 0x7a, 0x65] }
pub proof fn lemma_lits(k: Seq<u8>)
    ensures
        k == circular() <==> k.len() == 8 && k[0] == 0x63 && k[1] == 0x69 && k[2] == 0x72 && k[3] == 0x63 && k[4] == 0x75 && k[5] == 0x6c && k[6] == 0x61 && k[7] == 0x72,
        k == size() <==> k.len() == 4 && k[0] == 0x73 && k[1] == 0x69 && k[2] == 0x7a && k[3] == 0x65,
        k == seq![0x31u8] <==> k.len() == 1 && k[0] == 0x31,
        k == seq![0x30u8] <==> k.len() == 1 && k[0] == 0x30,
        k == seq![0x2du8, 0x31u8] <==> k.len() == 2 && k[0] == 0x2d && k[1] == 0x31,
{
    if k.len() == 8 && k[0] == 0x63 && k[1] == 0x69 && k[2] == 0x72 && k[3] == 0x63 && k[4] == 0x75 && k[5] == 0x6c && k[6] == 0x61 && k[7] == 0x72 { assert(k =~= circular()); }
    if k.len() == 4 && k[0] == 0x73 && k[1] == 0x69 && k[2] == 0x7a && k[3] == 0x65 { assert(k =~= size()); }
    if k.len() == 1 && k[0] == 0x31 { assert(k =~= seq![0x31u8]); }
    if k.len() == 1 && k[0] == 0x30 { assert(k =~= seq![0x30u8]); }
    if k.len() == 2 && k[0] == 0x2d && k[1] == 0x31 { assert(k =~= seq![0x2du8, 0x31u8]); }
}
//@ impl src/protocol/commands/_QTBuffer_upcase.rs ParseCommand<'_> for QTBuffer ==> impl<'a> ParseCommand<'a> for QTBuffer
type V = BufV;
open spec fn vw(&self) -> BufV {
    match self.0 {
        TraceBufferConfig::Shape(BufferShape::Circular) => BufV::Circular,
        TraceBufferConfig::Shape(BufferShape::Linear) => BufV::Linear,
        TraceBufferConfig::Size(None) => BufV::Unlimited,
        TraceBufferConfig::Size(Some(n)) => BufV::Size(n as nat),
    }
}
open spec fn syntax(body: Seq<u8>) -> Option<BufV> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match nthn(s, 0x3a, 1, 2) {
            None => None,
            Some(v) => {
                let k = nthn(s, 0x3a, 0, 2)->0;
                if k == circular() { if v == seq![0x31u8] { Some(BufV::Circular) } else if v == seq![0x30u8] { Some(BufV::Linear) } else { None } }
                else if k == size() { if v == seq![0x2du8, 0x31u8] { Some(BufV::Unlimited) } else { match hexn(v, u64::MAX as int) { Some(n) => Some(BufV::Size(n)), None => None } } }
                else { None }
            }
        },
    }
}
open spec fn name_len() -> nat { 8 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ subst opt . as_ref () => (&*opt)
//@ subst PacketBuf < '_ > => PacketBuf<'a>
//@ ret r
//@ at start
    proof {
        reveal_with_fuel(nthn2, 3);
        let b = buf.body();
        if b.len() > 0 { assert(b.subrange(1, b.len() as int) =~= b.skip(1)); }
        let k = nthn2(b.skip(1), 0x3a, 0x3a, 0, 2)->0;
        lemma_lits(k);
        match nthn2(b.skip(1), 0x3a, 0x3a, 1, 2) { Some(v) => { lemma_lits(v); }, None => {} }
    }
//@ end
//@ endimpl
}

pub open spec fn lit_pc() -> Seq<u8> { seq![0x70u8, 0x63] }
pub open spec fn lit_tdp() -> Seq<u8> { seq![0x74u8, 0x64, 0x70] }
pub open spec fn lit_range() -> Seq<u8> { seq![0x72u8, 0x61, 0x6e, 0x67, 0x65] }
pub open spec fn lit_outside() -> Seq<u8> { seq![0x6fu8, 0x75, 0x74, 0x73, 0x69, 0x64, 0x65] }
pub open spec fn lit_at() -> Seq<u8> { seq![0x61u8, 0x74] }
pub open spec fn lit_cond() -> Seq<u8> { seq![0x63u8, 0x6f, 0x6e, 0x64] }
pub open spec fn lit_cmd() -> Seq<u8> { seq![0x63u8, 0x6d, 0x64] }
pub proof fn lemma_lits(k: Seq<u8>)
    ensures
        k == lit_pc() <==> k.len() == 2 && k[0] == 0x70 && k[1] == 0x63,
        k == lit_tdp() <==> k.len() == 3 && k[0] == 0x74 && k[1] == 0x64 && k[2] == 0x70,
        k == lit_range() <==> k.len() == 5 && k[0] == 0x72 && k[1] == 0x61 && k[2] == 0x6e && k[3] == 0x67 && k[4] == 0x65,
        k == lit_outside() <==> k.len() == 7 && k[0] == 0x6f && k[1] == 0x75 && k[2] == 0x74 && k[3] == 0x73 && k[4] == 0x69 && k[5] == 0x64 && k[6] == 0x65,
        k == lit_at() <==> k.len() == 2 && k[0] == 0x61 && k[1] == 0x74,
        k == lit_cond() <==> k.len() == 4 && k[0] == 0x63 && k[1] == 0x6f && k[2] == 0x6e && k[3] == 0x64,
        k == lit_cmd() <==> k.len() == 3 && k[0] == 0x63 && k[1] == 0x6d && k[2] == 0x64,
        k == seq![0x45u8] <==> k.len() == 1 && k[0] == 0x45,
        k == seq![0x44u8] <==> k.len() == 1 && k[0] == 0x44,
{
    if k.len() == 2 && k[0] == 0x70 && k[1] == 0x63 { assert(k =~= lit_pc()); }
    if k.len() == 3 && k[0] == 0x74 && k[1] == 0x64 && k[2] == 0x70 { assert(k =~= lit_tdp()); }
    if k.len() == 5 && k[0] == 0x72 && k[1] == 0x61 && k[2] == 0x6e && k[3] == 0x67 && k[4] == 0x65 { assert(k =~= lit_range()); }
    if k.len() == 7 && k[0] == 0x6f && k[1] == 0x75 && k[2] == 0x74 && k[3] == 0x73 && k[4] == 0x69 && k[5] == 0x64 && k[6] == 0x65 { assert(k =~= lit_outside()); }
    if k.len() == 2 && k[0] == 0x61 && k[1] == 0x74 { assert(k =~= lit_at()); }
    if k.len() == 4 && k[0] == 0x63 && k[1] == 0x6f && k[2] == 0x6e && k[3] == 0x64 { assert(k =~= lit_cond()); }
    if k.len() == 3 && k[0] == 0x63 && k[1] == 0x6d && k[2] == 0x64 { assert(k =~= lit_cmd()); }
    if k.len() == 1 && k[0] == 0x45 { assert(k =~= seq![0x45u8]); }
    if k.len() == 1 && k[0] == 0x44 { assert(k =~= seq![0x44u8]); }
}
pub mod _QTFrame { use super::*;
//@ item src/protocol/commands/_QTFrame.rs QTFrame
pub enum FrameV { Select(nat), AtPC(Seq<u8>), Hit(nat), Between(Seq<u8>, Seq<u8>), Outside(Seq<u8>, Seq<u8>) }
//@ impl src/protocol/commands/_QTFrame.rs ParseCommand<'a> for QTFrame<'a> ==> impl<'a> ParseCommand<'a> for QTFrame<'a>
type V = FrameV;
open spec fn vw(&self) -> FrameV {
    match self.0 {
        FrameRequest::Select(n) => FrameV::Select(n as nat), FrameRequest::AtPC(a) => FrameV::AtPC(a@), FrameRequest::Hit(t) => FrameV::Hit(t.0 as nat),
        FrameRequest::Between(a, b) => FrameV::Between(a@, b@), FrameRequest::Outside(a, b) => FrameV::Outside(a@, b@),
    }
}
open spec fn syntax(body: Seq<u8>) -> Option<FrameV> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => {
            let k = nth(s, 0x3a, 0)->0;
            let a = match nth(s, 0x3a, 1) { Some(a) => hexdata(a), None => None };
            let b = match nth(s, 0x3a, 2) { Some(a) => hexdata(a), None => None };
            if k == lit_pc() { match a { Some(a) => Some(FrameV::AtPC(a)), None => None } }
            else if k == lit_tdp() { match nth(s, 0x3a, 1) { Some(n) => match hexusize(n) { Some(n) => Some(FrameV::Hit(n)), None => None }, None => None } }
            else if k == lit_range() { match (a, b) { (Some(a), Some(b)) => Some(FrameV::Between(a, b)), _ => None } }
            else if k == lit_outside() { match (a, b) { (Some(a), Some(b)) => Some(FrameV::Outside(a, b)), _ => None } }
            else { match hexn(k, u64::MAX as int) { Some(n) => Some(FrameV::Select(n)), None => None } }
        },
    }
}
open spec fn name_len() -> nat { 7 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ attr #[verifier::rlimit(50)]
//@ attr #[verifier::spinoff_prover]
//@ opt novis
//@ opt mut_slices
//@ subst selector . as_ref () => (&*selector)
//@ ret r
//@ at start
    proof {
        reveal_with_fuel(nth2, 4);
        let b = buf.body();
        if b.len() > 0 { assert(b.subrange(1, b.len() as int) =~= b.skip(1)); }
        lemma_lits(nth2(b.skip(1), 0x3a, 0x3a, 0)->0);
    }
//@ end
//@ endimpl
}
pub mod _qTP { use super::*;
//@ item src/protocol/commands/_qTP.rs qTP
//@ impl src/protocol/commands/_qTP.rs ParseCommand<'a> for qTP<'a> ==> impl<'a> ParseCommand<'a> for qTP<'a>
type V = (nat, Seq<u8>);
open spec fn vw(&self) -> (nat, Seq<u8>) { (self.tracepoint.0 as nat, self.addr@) }
open spec fn syntax(body: Seq<u8>) -> Option<(nat, Seq<u8>)> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match (hexusize(nth(s, 0x3a, 0)->0), nth(s, 0x3a, 1)) { (Some(t), Some(a)) => match hexdata(a) { Some(a) => Some((t, a)), None => None }, _ => None },
    }
}
open spec fn name_len() -> nat { 3 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof {
        reveal_with_fuel(nth2, 3);
        let b = buf.body();
        if b.len() > 0 { assert(b.subrange(1, b.len() as int) =~= b.skip(1)); }
    }
//@ end
//@ endimpl
}
pub mod _QTDPsrc { use super::*;
//@ item src/protocol/commands/_QTDPsrc.rs QTDPsrc
pub struct SrcV { pub n: nat, pub addr: Seq<u8>, pub kind: TracepointSourceType, pub start: nat, pub slen: nat, pub bytes: Seq<u8> }
pub open spec fn src_kind(k: Seq<u8>) -> Option<TracepointSourceType> {
    if k == lit_at() { Some(TracepointSourceType::At) } else if k == lit_cond() { Some(TracepointSourceType::Cond) } else if k == lit_cmd() { Some(TracepointSourceType::Cmd) } else { None }
}
//@ impl src/protocol/commands/_QTDPsrc.rs ParseCommand<'a> for QTDPsrc<'a> ==> impl<'a> ParseCommand<'a> for QTDPsrc<'a>
type V = SrcV;
open spec fn vw(&self) -> SrcV { SrcV { n: self.number.0 as nat, addr: self.addr@, kind: self.kind, start: self.start as nat, slen: self.slen as nat, bytes: self.bytes@ } }
// n:addr:srctype:start:slen:bytes
open spec fn syntax(body: Seq<u8>) -> Option<SrcV> {
    match after(body, 0x3a) {
        None => None,
        Some(s) => match (nthn(s, 0x3a, 0, 7), nthn(s, 0x3a, 1, 7), nthn(s, 0x3a, 2, 7), nthn(s, 0x3a, 3, 7), nthn(s, 0x3a, 4, 7), nthn(s, 0x3a, 5, 7)) {
            (Some(n), Some(a), Some(k), Some(st), Some(sl), Some(by)) =>
                match (hexusize(n), hexdata(a), src_kind(k), hexn(st, u32::MAX as int), hexn(sl, u32::MAX as int), hexdata(by)) {
                    (Some(n), Some(addr), Some(kind), Some(start), Some(slen), Some(bytes)) => Some(SrcV { n, addr, kind, start, slen, bytes }),
                    _ => None,
                },
            _ => None,
        },
    }
}
open spec fn name_len() -> nat { 7 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ subst params . next () ? . as_ref () => (&*params.next()?)
//@ ret r
//@ at start
    proof {
        reveal_with_fuel(nthn2, 8);
        let b = buf.body();
        if b.len() > 0 { assert(b.subrange(1, b.len() as int) =~= b.skip(1)); }
        match nthn2(b.skip(1), 0x3a, 0x3a, 2, 7) { Some(k) => { lemma_lits(k); }, None => {} }
    }
//@ end
//@ endimpl
}
pub mod _QTDP { use super::*;
//@ item src/protocol/commands/_QTDP.rs QTDP
//@ item src/protocol/commands/_QTDP.rs CreateTDP
//@ item src/protocol/commands/_QTDP.rs ExtendTDP
pub enum TdpV { Create { n: nat, addr: Seq<u8>, enable: bool, step: nat, pass: nat, option: Option<u8>, more: bool }, Extend { n: nat, addr: Seq<u8>, actions: Seq<u8> } }
// options of a new tracepoint: none, or one that is not supported here
pub open spec fn option_syntax(o: Option<Seq<u8>>) -> Option<Option<u8>> {
    match o {
        None => Some(None),
        Some(s) => if s.len() > 0 && (s[0] == 0x46 || s[0] == 0x58 || (s[0] == 0x53 && s.len() == 1)) { Some(Some(s[0])) } else { None },
    }
}
//@ impl src/protocol/commands/_QTDP.rs ParseCommand<'a> for QTDP<'a> ==> impl<'a> ParseCommand<'a> for QTDP<'a>
type V = TdpV;
open spec fn vw(&self) -> TdpV {
    match self {
        QTDP::Create(c) => TdpV::Create { n: c.number.0 as nat, addr: c.addr@, enable: c.enable, step: c.step as nat, pass: c.pass as nat, option: c.unsupported_option, more: c.more },
        QTDP::Extend(e) => TdpV::Extend { n: e.number.0 as nat, addr: e.addr@, actions: e.actions@ },
    }
}
// `:-n:addr:actions` adds to a tracepoint, `:n:addr:ena:step:pass[:option][-]` makes one
open spec fn syntax(body: Seq<u8>) -> Option<TdpV> {
    if body.len() >= 2 && body[0] == 0x3a && body[1] == 0x2d {
        let s = body.skip(2);
        match (hexusize(nthn(s, 0x3a, 0, 4)->0), nthn(s, 0x3a, 1, 4), nthn(s, 0x3a, 2, 4)) {
            (Some(n), Some(a), Some(actions)) => match hexdata(a) { Some(addr) => Some(TdpV::Extend { n, addr, actions }), None => None },
            _ => None,
        }
    } else if body.len() >= 1 && body[0] == 0x3a {
        let s0 = body.skip(1);
        let more = s0.len() > 0 && s0.last() == 0x2d;
        let s = if more { s0.drop_last() } else { s0 };
        match (hexusize(nthn(s, 0x3a, 0, 6)->0), nthn(s, 0x3a, 1, 6), nthn(s, 0x3a, 2, 6), nthn(s, 0x3a, 3, 6), nthn(s, 0x3a, 4, 6), option_syntax(nthn(s, 0x3a, 5, 6))) {
            (Some(n), Some(a), Some(e), Some(st), Some(p), Some(option)) => match (hexdata(a), hexn(st, u64::MAX as int), hexn(p, u64::MAX as int)) {
                (Some(addr), Some(step), Some(pass)) =>
                    if e == seq![0x45u8] || e == seq![0x44u8] { Some(TdpV::Create { n, addr, enable: e == seq![0x45u8], step, pass, option, more }) } else { None },
                _ => None,
            },
            _ => None,
        }
    } else { None }
}
open spec fn name_len() -> nat { 4 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ attr #[verifier::rlimit(100)]
//@ attr #[verifier::spinoff_prover]
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof {
        reveal_with_fuel(nthn2, 7);
        let b = buf.body();
        if b.len() > 0 {
            let s0 = b.skip(1);
            assert(b.subrange(1, b.len() as int) =~= s0);
            if b.len() > 1 { assert(b.subrange(2, b.len() as int) =~= b.skip(2)); }
            if s0.len() > 0 { assert(s0.subrange(0, s0.len() - 1) =~= s0.drop_last()); }
            match nthn2(s0, 0x3a, 0x3a, 2, 6) { Some(k) => { lemma_lits(k); }, None => {} }
            if s0.len() > 0 { match nthn2(s0.drop_last(), 0x3a, 0x3a, 2, 6) { Some(k) => { lemma_lits(k); }, None => {} } }
        }
    }
//@ end
//@ endimpl
}
