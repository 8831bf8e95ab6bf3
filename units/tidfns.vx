// ---- specification: thread-id syntax ------------------------------------------
pub enum IdV { All, Any, Id(nat) }
pub struct TidV { pub pid: Option<IdV>, pub tid: IdV }
pub open spec fn id_syntax(s: Seq<u8>) -> Option<IdV> {
    if s == seq![0x2du8, 0x31u8] { Some(IdV::All) }
    else if s == seq![0x30u8] { Some(IdV::Any) }
    else if s.len() > 0 && all_hex(s) && 0 < hexnum(s) <= usize::MAX { Some(IdV::Id(hexnum(s))) }
    else { None }
}
// `tid` or `p<pid>[.<tid>]`; whatever follows a second '.' is ignored
pub open spec fn tid_syntax(s: Seq<u8>) -> Option<TidV> {
    if s.len() > 0 && s[0] == 0x70 {
        let (p, rest) = cut(s.skip(1), 0x2e);
        match id_syntax(p) {
            None => None,
            Some(pid) => match rest {
                None => Some(TidV { pid: Some(pid), tid: IdV::All }),
                Some(t) => match id_syntax(cut(t, 0x2e).0) { None => None, Some(tid) => Some(TidV { pid: Some(pid), tid }) },
            },
        }
    } else {
        match id_syntax(s) { None => None, Some(tid) => Some(TidV { pid: None, tid }) }
    }
}
// no "any"
pub open spec fn specific(i: IdV) -> Option<IdV> { if i is Any { None } else { Some(i) } }
pub open spec fn concrete(i: IdV) -> Option<nat> { if i is Id { Some(i->Id_0) } else { None } }
pub open spec fn specific_tid(t: TidV) -> Option<TidV> {
    if t.tid is Any || (t.pid matches Some(p) && p is Any) { None } else { Some(t) }
}
pub open spec fn concrete_tid(t: TidV) -> Option<TidV> {
    if !(t.tid is Id) || (t.pid matches Some(p) && !(p is Id)) { None } else { Some(t) }
}
// ---- the conversions' interface: decoding to an abstract value
pub trait VxView: Sized {
    type V;
    spec fn vw(self) -> Self::V;
}
pub trait VxTryFrom<T>: VxView {
    spec fn dec(t: T) -> Option<Self::V>;
    fn vx_try_from(t: T) -> (r: Result<Self, ()>)
        ensures r is Ok <==> Self::dec(t) is Some, r is Ok ==> Self::dec(t) == Some((r->Ok_0).vw());
}
pub trait VxTryInto<U: VxTryFrom<Self>>: Sized {
    fn vx_try_into(self) -> (r: Result<U, ()>)
        ensures r is Ok <==> U::dec(self) is Some, r is Ok ==> U::dec(self) == Some((r->Ok_0).vw());
}
impl<T, U: VxTryFrom<T>> VxTryInto<U> for T {
    fn vx_try_into(self) -> (r: Result<U, ()>) { U::vx_try_from(self) }
}
//@ subst try_from => vx_try_from
//@ subst try_into => vx_try_into
impl VxView for IdKind {
    type V = IdV;
    open spec fn vw(self) -> IdV { match self { IdKind::All => IdV::All, IdKind::Any => IdV::Any, IdKind::WithId(n) => IdV::Id(n@ as nat) } }
}
impl VxView for SpecificIdKind {
    type V = IdV;
    open spec fn vw(self) -> IdV { match self { SpecificIdKind::All => IdV::All, SpecificIdKind::WithId(n) => IdV::Id(n@ as nat) } }
}
impl VxView for NonZeroUsize {
    type V = nat;
    open spec fn vw(self) -> nat { self@ as nat }
}
impl VxView for ThreadId {
    type V = TidV;
    open spec fn vw(self) -> TidV { TidV { pid: match self.pid { None => None, Some(p) => Some(p.vw()) }, tid: self.tid.vw() } }
}
impl VxView for SpecificThreadId {
    type V = TidV;
    open spec fn vw(self) -> TidV { TidV { pid: match self.pid { None => None, Some(p) => Some(p.vw()) }, tid: self.tid.vw() } }
}
//@ item src/protocol/common/thread_id.rs ConcreteThreadId
impl VxView for ConcreteThreadId {
    type V = TidV;
    open spec fn vw(self) -> TidV { TidV { pid: match self.pid { None => None, Some(p) => Some(IdV::Id(p@ as nat)) }, tid: IdV::Id(self.tid@ as nat) } }
}
//@ impl src/protocol/common/thread_id.rs TryFrom<&[u8]> for ThreadId ==> impl<'a> VxTryFrom<&'a [u8]> for ThreadId
open spec fn dec(t: &'a [u8]) -> Option<TidV> { tid_syntax(t@) }
//@ fn try_from
//@ opt novis
//@ subst & [u8] => &'a [u8]
//@ ret r
//@ at start
    proof { assert(s@.len() > 0 ==> s@.subrange(1, s@.len() as int) =~= s@.skip(1)); }
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<&[u8]> for IdKind ==> impl<'a> VxTryFrom<&'a [u8]> for IdKind
open spec fn dec(t: &'a [u8]) -> Option<IdV> { id_syntax(t@) }
//@ fn try_from
//@ opt novis
//@ subst & [u8] => &'a [u8]
//@ ret r
//@ at start
    proof {
        assert(s@ =~= seq![0x2du8, 0x31u8] <==> s@.len() == 2 && s@[0] == 0x2d && s@[1] == 0x31);
        assert(s@ =~= seq![0x30u8] <==> s@.len() == 1 && s@[0] == 0x30);
    }
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<&mut[u8]> for ThreadId ==> impl<'a> VxTryFrom<&'a mut [u8]> for ThreadId
open spec fn dec(t: &'a mut [u8]) -> Option<TidV> { tid_syntax(t@) }
//@ fn try_from
//@ opt novis
//@ subst & mut [u8] => &'a mut [u8]
//@ ret r
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<&mut[u8]> for IdKind ==> impl<'a> VxTryFrom<&'a mut [u8]> for IdKind
open spec fn dec(t: &'a mut [u8]) -> Option<IdV> { id_syntax(t@) }
//@ fn try_from
//@ opt novis
//@ subst & mut [u8] => &'a mut [u8]
//@ ret r
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<IdKind> for SpecificIdKind ==> impl VxTryFrom<IdKind> for SpecificIdKind
open spec fn dec(t: IdKind) -> Option<IdV> { specific(t.vw()) }
//@ fn try_from
//@ opt novis
//@ ret r
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<ThreadId> for SpecificThreadId ==> impl VxTryFrom<ThreadId> for SpecificThreadId
open spec fn dec(t: ThreadId) -> Option<TidV> { specific_tid(t.vw()) }
//@ fn try_from
//@ opt novis
//@ ret r
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<ThreadId> for ConcreteThreadId ==> impl VxTryFrom<ThreadId> for ConcreteThreadId
open spec fn dec(t: ThreadId) -> Option<TidV> { concrete_tid(t.vw()) }
//@ fn try_from
//@ opt novis
//@ ret r
//@ end
//@ endimpl
//@ impl src/protocol/common/thread_id.rs TryFrom<IdKind> for NonZeroUsize ==> impl VxTryFrom<IdKind> for NonZeroUsize
open spec fn dec(t: IdKind) -> Option<nat> { concrete(t.vw()) }
//@ fn try_from
//@ opt novis
//@ ret r
//@ end
//@ endimpl
