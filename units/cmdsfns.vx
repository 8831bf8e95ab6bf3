// -------- commands with nothing behind their name
//@ each M T N = question_mark QuestionMark 1 ; _g g 1 ; _k k 1 ; _qfThreadInfo qfThreadInfo 12 ; _qsThreadInfo qsThreadInfo 12 ; _QStartNoAckMode QStartNoAckMode 15 ; exclamation_mark ExclamationMark 1 ; _qC qC 2 ; _QEnvironmentReset QEnvironmentReset 17 ; _qOffsets qOffsets 8 ; _bc bc 2 ; _bs bs 2 ; _qTStatus qTStatus 8 ; _qTfP qTfP 4 ; _qTsP qTsP 4 ; _qTfV qTfV 4 ; _qTsV qTsV 4 ; _QTStart QTStart 7 ; _QTStop QTStop 6 ; _QTinit QTinit 6
pub mod @M@ { use super::*;
//@ item src/protocol/commands/@M@.rs @T@
//@ impl src/protocol/commands/@M@.rs ParseCommand<'a> for @T@ ==> impl<'a> ParseCommand<'a> for @T@
type V = ();
open spec fn vw(&self) -> () { () }
open spec fn syntax(body: Seq<u8>) -> Option<()> { if body.len() == 0 { Some(()) } else { None } }
open spec fn name_len() -> nat { @N@ }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
//@ endeach
pub mod _r_upcase { use super::*;
//@ item src/protocol/commands/_r_upcase.rs R
//@ impl src/protocol/commands/_r_upcase.rs ParseCommand<'a> for R ==> impl<'a> ParseCommand<'a> for R
type V = ();
open spec fn vw(&self) -> () { () }
open spec fn syntax(body: Seq<u8>) -> Option<()> { if body.len() == 2 { Some(()) } else { None } }
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
// -------- switches
//@ each T N = QDisableRandomization 21 ; QStartupWithShell 17
pub mod _@T@ { use super::*;
//@ item src/protocol/commands/_@T@.rs @T@
//@ impl src/protocol/commands/_@T@.rs ParseCommand<'a> for @T@ ==> impl<'a> ParseCommand<'a> for @T@
type V = bool;
open spec fn vw(&self) -> bool { self.value }
open spec fn syntax(body: Seq<u8>) -> Option<bool> { onoff(body) }
open spec fn name_len() -> nat { @N@ }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
//@ endeach
// -------- process ids
//@ each M T C N = _d_upcase D 0x3b 1 ; _qAttached qAttached 0x3a 9
pub mod @M@ { use super::*;
//@ item src/protocol/commands/@M@.rs @T@
//@ impl src/protocol/commands/@M@.rs ParseCommand<'a> for @T@ ==> impl<'a> ParseCommand<'a> for @T@
type V = Option<nat>;
open spec fn vw(&self) -> Option<nat> { opid(self.pid) }
open spec fn syntax(body: Seq<u8>) -> Option<Option<nat>> {
    if body.len() > 0 && body[0] == @C@ { match hexpid(body.skip(1)) { Some(n) => Some(Some(n)), None => None } } else { Some(None) }
}
open spec fn name_len() -> nat { @N@ }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    broadcast use NonZeroUsize::nonzero;
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
//@ endeach
//@ each T = vKill ; vAttach
pub mod _@T@ { use super::*;
//@ item src/protocol/commands/_@T@.rs @T@
//@ impl src/protocol/commands/_@T@.rs ParseCommand<'a> for @T@ ==> impl<'a> ParseCommand<'a> for @T@
type V = nat;
open spec fn vw(&self) -> nat { self.pid@ as nat }
open spec fn syntax(body: Seq<u8>) -> Option<nat> { if body.len() > 0 && body[0] == 0x3b { hexpid(body.skip(1)) } else { None } }
open spec fn name_len() -> nat { "@T@"@.len() }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
//@ endeach
// -------- threads
pub mod _h_upcase { use super::*;
//@ item src/protocol/commands/_h_upcase.rs Op
//@ item src/protocol/commands/_h_upcase.rs H
//@ impl src/protocol/commands/_h_upcase.rs ParseCommand<'a> for H ==> impl<'a> ParseCommand<'a> for H
type V = (bool, TidV);
open spec fn vw(&self) -> (bool, TidV) { (self.kind is StepContinue, self.thread.vw()) }
open spec fn syntax(body: Seq<u8>) -> Option<(bool, TidV)> {
    if body.len() > 0 && (body[0] == 0x67 || body[0] == 0x63) { match tid_syntax(body.skip(1)) { Some(t) => Some((body[0] == 0x63, t)), None => None } } else { None }
}
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ subst body [1 .. ] . vx_try_into () => (&body[1..]).vx_try_into()
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
pub mod _t_upcase { use super::*;
//@ item src/protocol/commands/_t_upcase.rs T
//@ impl src/protocol/commands/_t_upcase.rs ParseCommand<'a> for T ==> impl<'a> ParseCommand<'a> for T
type V = TidV;
open spec fn vw(&self) -> TidV { self.thread.vw() }
open spec fn syntax(body: Seq<u8>) -> Option<TidV> { tid_syntax(body) }
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
pub mod _qThreadExtraInfo { use super::*;
//@ item src/protocol/commands/_qThreadExtraInfo.rs qThreadExtraInfo
//@ impl src/protocol/commands/_qThreadExtraInfo.rs ParseCommand<'a> for qThreadExtraInfo<'a> ==> impl<'a> ParseCommand<'a> for qThreadExtraInfo<'a>
type V = TidV;
open spec fn vw(&self) -> TidV { self.id.vw() }
open spec fn syntax(body: Seq<u8>) -> Option<TidV> {
    if body.len() > 0 && body[0] == 0x2c { match tid_syntax(body.skip(1)) { Some(t) => concrete_tid(t), None => None } } else { None }
}
open spec fn name_len() -> nat { 16 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.buf@.len() == buf.raw().len() }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
// -------- registers
pub mod _g_upcase { use super::*;
//@ item src/protocol/commands/_g_upcase.rs G
//@ impl src/protocol/commands/_g_upcase.rs ParseCommand<'a> for G<'a> ==> impl<'a> ParseCommand<'a> for G<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.vals@ }
open spec fn syntax(body: Seq<u8>) -> Option<Seq<u8>> { hexdata(body) }
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
pub mod _p { use super::*;
//@ item src/protocol/commands/_p.rs p
//@ impl src/protocol/commands/_p.rs ParseCommand<'a> for p<'a> ==> impl<'a> ParseCommand<'a> for p<'a>
type V = nat;
open spec fn vw(&self) -> nat { self.reg_id as nat }
open spec fn syntax(body: Seq<u8>) -> Option<nat> { hexusize(body) }
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.buf@.len() == buf.raw().len() }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
pub mod _p_upcase { use super::*;
//@ item src/protocol/commands/_p_upcase.rs P
//@ impl src/protocol/commands/_p_upcase.rs ParseCommand<'a> for P<'a> ==> impl<'a> ParseCommand<'a> for P<'a>
type V = (nat, Seq<u8>);
open spec fn vw(&self) -> (nat, Seq<u8>) { (self.reg_id as nat, self.val@) }
open spec fn syntax(body: Seq<u8>) -> Option<(nat, Seq<u8>)> {
    match nth(body, 0x3d, 1) { None => None, Some(v) => match (hexusize(nth(body, 0x3d, 0)->0), hexdata(v)) { (Some(i), Some(d)) => Some((i, d)), _ => None } }
}
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    proof { reveal_with_fuel(nth2, 3); }
//@ end
//@ endimpl
}
pub mod _qRegisterInfo { use super::*;
//@ item src/protocol/commands/_qRegisterInfo.rs qRegisterInfo
//@ impl src/protocol/commands/_qRegisterInfo.rs ParseCommand<'a> for qRegisterInfo ==> impl<'a> ParseCommand<'a> for qRegisterInfo
type V = nat;
open spec fn vw(&self) -> nat { self.reg_id as nat }
open spec fn syntax(body: Seq<u8>) -> Option<nat> { hexusize(body) }
open spec fn name_len() -> nat { 13 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ end
//@ endimpl
}
// -------- memory
pub mod _m { use super::*;
//@ item src/protocol/commands/_m.rs m
//@ impl src/protocol/commands/_m.rs ParseCommand<'a> for m<'a> ==> impl<'a> ParseCommand<'a> for m<'a>
type V = (Seq<u8>, nat);
open spec fn vw(&self) -> (Seq<u8>, nat) { (self.addr@, self.len as nat) }
open spec fn syntax(body: Seq<u8>) -> Option<(Seq<u8>, nat)> {
    match nth(body, 0x2c, 1) { None => None, Some(l) => match (hexdata(nth(body, 0x2c, 0)->0), hexusize(l)) { (Some(a), Some(n)) => Some((a, n)), _ => None } }
}
open spec fn name_len() -> nat { 1 }
// the scratch space starts right behind the decoded address
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.buf@.len() == buf.raw().len() - 2 - self.addr@.len() }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    proof { reveal_with_fuel(nth2, 3); }
    let ghost raw = buf.raw();
    let ghost h = buf.start() + buf.body().len();
    let ghost a0 = nth(buf.body(), 0x2c, 0)->0;
//@ at before:if buf.len
    proof {
        lemma_find2(raw.subrange(2, h), 0x2c, 0x2c);
        let t = cut(raw.subrange(2, h), 0x2c).1->0;
        assert(body.v is Some ==> final(body.v->0)@ == body.v->0@);
        assert(final(addr)@ == addr@);
        let bd = raw.subrange(2, h);
        lemma_find2(t, 0x2c, 0x2c);
        assert(bd.len() == h - 2);
        assert(buf@.len() == raw.len());
        assert(buf@.subrange(2, addr_len + 2) =~= hexbytes(a0));
    }
//@ at before:let addr = addr.vx_get
    proof { assert(addr@.skip(2) =~= hexbytes(a0)); }
//@ end
//@ endimpl
}
pub mod _m_upcase { use super::*;
//@ item src/protocol/commands/_m_upcase.rs M
//@ impl src/protocol/commands/_m_upcase.rs ParseCommand<'a> for M<'a> ==> impl<'a> ParseCommand<'a> for M<'a>
type V = (Seq<u8>, Seq<u8>);
open spec fn vw(&self) -> (Seq<u8>, Seq<u8>) { (self.addr@, self.val@) }
open spec fn syntax(body: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match nth2(body, 0x2c, 0x3a, 2) {
        None => None,
        Some(v) => match (hexdata(nth2(body, 0x2c, 0x3a, 0)->0), hexusize(nth2(body, 0x2c, 0x3a, 1)->0), hexdata(v)) { (Some(a), Some(n), Some(d)) => Some((a, d)), _ => None },
    }
}
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    proof { reveal_with_fuel(nth2, 4); }
//@ end
//@ endimpl
}
pub mod _x_upcase { use super::*;
//@ item src/protocol/commands/_x_upcase.rs X
//@ impl src/protocol/commands/_x_upcase.rs ParseCommand<'a> for X<'a> ==> impl<'a> ParseCommand<'a> for X<'a>
type V = (Seq<u8>, Seq<u8>);
open spec fn vw(&self) -> (Seq<u8>, Seq<u8>) { (self.addr@, self.val@) }
open spec fn syntax(body: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match nthn2(body, 0x2c, 0x3a, 2, 3) {
        None => None,
        Some(v) => match (hexdata(nthn2(body, 0x2c, 0x3a, 0, 3)->0), hexusize(nthn2(body, 0x2c, 0x3a, 1, 3)->0), binval(v)) { (Some(a), Some(n), Some(d)) => Some((a, d)), _ => None },
    }
}
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at start
    proof { reveal_with_fuel(nthn2, 4); }
//@ end
//@ endimpl
}
