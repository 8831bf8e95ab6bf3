//@ include arglist.vx
// -------- continue / step at an address
//@ each T = c ; s
pub mod _@T@ { use super::*;
//@ item src/protocol/commands/_@T@.rs @T@
//@ impl src/protocol/commands/_@T@.rs ParseCommand<'a> for @T@<'a> ==> impl<'a> ParseCommand<'a> for @T@<'a>
type V = Option<Seq<u8>>;
open spec fn vw(&self) -> Option<Seq<u8>> { oview(self.addr) }
open spec fn syntax(body: Seq<u8>) -> Option<Option<Seq<u8>>> { if body.len() == 0 { Some(None) } else { match hexdata(body) { Some(a) => Some(Some(a)), None => None } } }
open spec fn name_len() -> nat { 1 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ end
//@ endimpl
}
//@ endeach
// -------- environment
pub mod _QEnvironmentHexEncoded { use super::*;
//@ item src/protocol/commands/_QEnvironmentHexEncoded.rs QEnvironmentHexEncoded
//@ impl src/protocol/commands/_QEnvironmentHexEncoded.rs ParseCommand<'a> for QEnvironmentHexEncoded<'a> ==> impl<'a> ParseCommand<'a> for QEnvironmentHexEncoded<'a>
type V = (Seq<u8>, Option<Seq<u8>>);
open spec fn vw(&self) -> (Seq<u8>, Option<Seq<u8>>) { (self.key@, oview(self.value)) }
// key=value, or key= to give no value
open spec fn syntax(body: Seq<u8>) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    match after(body, 0x3a) {
        None => None,
        Some(h) => match hexdata(h) {
            None => None,
            Some(kv) => match nthn(kv, 0x3d, 1, 2) { None => None, Some(v) => Some((nthn(kv, 0x3d, 0, 2)->0, nonempty(v))) },
        },
    }
}
open spec fn name_len() -> nat { 22 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof { reveal_with_fuel(nthn2, 3); }
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
pub mod _QEnvironmentUnset { use super::*;
//@ item src/protocol/commands/_QEnvironmentUnset.rs QEnvironmentUnset
//@ impl src/protocol/commands/_QEnvironmentUnset.rs ParseCommand<'a> for QEnvironmentUnset<'a> ==> impl<'a> ParseCommand<'a> for QEnvironmentUnset<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.key@ }
open spec fn syntax(body: Seq<u8>) -> Option<Seq<u8>> { match after(body, 0x3a) { Some(h) => hexdata(h), None => None } }
open spec fn name_len() -> nat { 17 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
pub mod _QSetWorkingDir { use super::*;
//@ item src/protocol/commands/_QSetWorkingDir.rs QSetWorkingDir
//@ impl src/protocol/commands/_QSetWorkingDir.rs ParseCommand<'a> for QSetWorkingDir<'a> ==> impl<'a> ParseCommand<'a> for QSetWorkingDir<'a>
type V = Option<Seq<u8>>;
open spec fn vw(&self) -> Option<Seq<u8>> { oview(self.dir) }
open spec fn syntax(body: Seq<u8>) -> Option<Option<Seq<u8>>> { match after(body, 0x3a) { Some(h) => match hexdata(h) { Some(d) => Some(nonempty(d)), None => None }, None => None } }
open spec fn name_len() -> nat { 14 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
pub mod _vRun { use super::*;
//@ item src/protocol/commands/_vRun.rs vRun
//@ impl src/protocol/commands/_vRun.rs ParseCommand<'a> for vRun<'a> ==> impl<'a> ParseCommand<'a> for vRun<'a>
type V = (Option<Seq<u8>>, Seq<u8>);
open spec fn vw(&self) -> (Option<Seq<u8>>, Seq<u8>) { (oview(self.filename), self.args.raw()) }
open spec fn syntax(body: Seq<u8>) -> Option<(Option<Seq<u8>>, Seq<u8>)> {
    match nthn(body, 0x3b, 1, 3) {
        None => None,
        Some(f) => match hexdata(f) {
            None => None,
            Some(f) => match nthn(body, 0x3b, 2, 3) {
                None => Some((nonempty(f), Seq::empty())),
                Some(a) => if argchars(a) { Some((nonempty(f), a)) } else { None },
            },
        },
    }
}
open spec fn name_len() -> nat { 4 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at start
    proof { reveal_with_fuel(nthn2, 4); }
//@ end
//@ endimpl
}
pub mod _qRcmd { use super::*;
//@ item src/protocol/commands/_qRcmd.rs qRcmd
//@ impl src/protocol/commands/_qRcmd.rs ParseCommand<'a> for qRcmd<'a> ==> impl<'a> ParseCommand<'a> for qRcmd<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.hex_cmd@ }
open spec fn syntax(body: Seq<u8>) -> Option<Seq<u8>> { if body.len() == 0 { Some(Seq::empty()) } else { match after(body, 0x2c) { Some(h) => hexdata(h), None => None } } }
open spec fn name_len() -> nat { 5 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
// -------- syscall catching
pub mod _QCatchSyscalls { use super::*;
//@ item src/protocol/commands/_QCatchSyscalls.rs QCatchSyscalls
// None: disable; Some(None): all; Some(Some(list))
//@ impl src/protocol/commands/_QCatchSyscalls.rs ParseCommand<'a> for QCatchSyscalls<'a> ==> impl<'a> ParseCommand<'a> for QCatchSyscalls<'a>
type V = Option<Option<Seq<u8>>>;
open spec fn vw(&self) -> Option<Option<Seq<u8>>> { match self { QCatchSyscalls::Disable => None, QCatchSyscalls::EnableAll => Some(None), QCatchSyscalls::Enable(l) => Some(Some(l.raw())) } }
open spec fn syntax(body: Seq<u8>) -> Option<Option<Option<Seq<u8>>>> {
    if body == seq![0x3au8, 0x30u8] { Some(None) }
    else if body == seq![0x3au8, 0x31u8] { Some(Some(None)) }
    else if body.len() >= 3 && body[0] == 0x3a && body[1] == 0x31 && body[2] == 0x3b && argchars(body.skip(3)) { Some(Some(Some(body.skip(3)))) }
    else { None }
}
open spec fn name_len() -> nat { 14 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ opt mut_slices
//@ ret r
//@ at after:let body
    proof {
        assert(body@.len() >= 3 ==> body@.subrange(3, body@.len() as int) =~= body@.skip(3));
        assert(body@.len() == 2 && body@[0] == 0x3a && body@[1] == 0x30 ==> body@ =~= seq![0x3au8, 0x30u8]);
        assert(body@.len() == 2 && body@[0] == 0x3a && body@[1] == 0x31 ==> body@ =~= seq![0x3au8, 0x31u8]);
    }
//@ end
//@ endimpl
}
//@ include vcontfns.vx
pub mod _vCont_parse { use super::*; use super::_vCont::{vCont, Actions};
//@ impl src/protocol/commands/_vCont.rs ParseCommand<'a> for vCont<'a> ==> impl<'a> ParseCommand<'a> for vCont<'a>
// None: what is supported?
type V = Option<Seq<u8>>;
open spec fn vw(&self) -> Option<Seq<u8>> { match self { vCont::Actions(Actions::Buf(b)) => Some(b.0@), _ => None } }
open spec fn syntax(body: Seq<u8>) -> Option<Option<Seq<u8>>> { if body == seq![0x3fu8] { Some(None) } else { Some(Some(body)) } }
open spec fn name_len() -> nat { 5 }
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { true }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at after:let body
    proof { assert(body@.len() == 1 && body@[0] == 0x3f ==> body@ =~= seq![0x3fu8]); }
//@ end
//@ endimpl
}
// -------- qSupported
pub mod _qSupported { use super::*;
//@ include qsupitems.vx
//@ impl src/protocol/commands/_qSupported.rs ParseCommand<'a> for qSupported<'a> ==> impl<'a> ParseCommand<'a> for qSupported<'a>
type V = Seq<u8>;
open spec fn vw(&self) -> Seq<u8> { self.features.0@ }
open spec fn syntax(body: Seq<u8>) -> Option<Seq<u8>> { after(body, 0x3a) }
open spec fn name_len() -> nat { 10 }
// reports the size of the whole packet buffer
open spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool { self.packet_buffer_len == buf.raw().len() }
//@ fn from_packet
//@ opt novis
//@ ret r
//@ at after:let body
    proof { assert(body@.len() > 0 ==> body@.subrange(1, body@.len() as int) =~= body@.skip(1)); }
//@ end
//@ endimpl
}
