// -------- vCont
pub mod _vCont { use super::*;
//@ item src/protocol/commands/_vCont.rs vCont
//@ item src/protocol/commands/_vCont.rs Actions
//@ item src/protocol/commands/_vCont.rs ActionsBuf
//@ item src/protocol/commands/_vCont.rs VContAction
//@ item src/protocol/commands/_vCont.rs VContKind
pub enum KindV { Continue, ContinueWithSig(nat), Range(Seq<u8>, Seq<u8>), Step, StepWithSig(nat), Stop }
impl<'a> VxView for VContKind<'a> {
    type V = KindV;
    open spec fn vw(self) -> KindV {
        match self {
            VContKind::Continue => KindV::Continue, VContKind::Step => KindV::Step, VContKind::Stop => KindV::Stop,
            VContKind::ContinueWithSig(s) => KindV::ContinueWithSig(s.0 as nat), VContKind::StepWithSig(s) => KindV::StepWithSig(s.0 as nat),
            VContKind::RangeStep(a, b) => KindV::Range(a.0@, b.0@),
        }
    }
}
pub open spec fn kind_syntax(s: Seq<u8>) -> Option<KindV> {
    if s.len() == 0 { None }
    else if s[0] == 0x63 && s.len() == 1 { Some(KindV::Continue) }
    else if s[0] == 0x73 && s.len() == 1 { Some(KindV::Step) }
    else if s[0] == 0x74 && s.len() == 1 { Some(KindV::Stop) }
    else if s[0] == 0x43 { match hexn(s.skip(1), 255) { Some(n) => Some(KindV::ContinueWithSig(n)), None => None } }
    else if s[0] == 0x53 { match hexn(s.skip(1), 255) { Some(n) => Some(KindV::StepWithSig(n)), None => None } }
    else if s[0] == 0x72 { match nth(s.skip(1), 0x2c, 1) { Some(e) => Some(KindV::Range(nth(s.skip(1), 0x2c, 0)->0, e)), None => None } }
    else { None }
}
// `kind[:thread]`; thread 0 ("any") stands for all threads
pub open spec fn action_syntax(s: Seq<u8>) -> Option<(KindV, Option<TidV>)> {
    match kind_syntax(nth(s, 0x3a, 0)->0) {
        None => None,
        Some(k) => match nth(s, 0x3a, 1) {
            None => Some((k, None)),
            Some(t) => match tid_syntax(t) {
                None => None,
                Some(t) => match specific_tid(TidV { pid: t.pid, tid: if t.tid is Any { IdV::All } else { t.tid } }) { Some(t) => Some((k, Some(t))), None => None },
            },
        },
    }
}
impl<'a> VxView for VContAction<'a> {
    type V = (KindV, Option<TidV>);
    open spec fn vw(self) -> (KindV, Option<TidV>) { (self.kind.vw(), match self.thread { None => None, Some(t) => Some(t.vw()) }) }
}
//@ impl src/protocol/commands/_vCont.rs VContKind<'_> ==> impl<'a> VContKind<'a>
//@ fn from_bytes
//@ ret r
//@ subst use self :: VContKind :: * ; =>
//@ each V = Continue ; Step ; Stop ; ContinueWithSig ; StepWithSig ; RangeStep
//@ subst @V@ => VContKind::@V@
//@ endeach
//@ spec
    ensures r is Some <==> kind_syntax(s@) is Some, r is Some ==> kind_syntax(s@) == Some((r->0).vw()),
//@ at start
    proof { reveal_with_fuel(nth2, 3); assert(s@.len() > 0 ==> s@.subrange(1, s@.len() as int) =~= s@.skip(1)); }
//@ end
//@ endimpl
pub type ActV = (KindV, Option<TidV>);
pub open spec fn vact(o: Option<VContAction>) -> Option<ActV> { match o { Some(a) => Some(a.vw()), None => None } }
// `;`-separated actions
pub open spec fn pieces(s: Option<Seq<u8>>) -> Seq<Option<ActV>>
    decreases (match s { None => 0nat, Some(x) => 1 + x.len() }),
{
    match s {
        None => Seq::empty(),
        Some(x) => {
            let (a, t) = cut(x, 0x3b);
            seq![action_syntax(a)] + (if t is None || t->0.len() < x.len() { pieces(t) } else { Seq::empty() })
        }
    }
}
pub proof fn lemma_pieces(s: Option<Seq<u8>>)
    ensures
        s is None ==> pieces(s).len() == 0,
        s matches Some(x) ==> pieces(s).len() > 0 && pieces(s)[0] == action_syntax(cut(x, 0x3b).0) && pieces(s).skip(1) == pieces(cut(x, 0x3b).1),
{
    if let Some(x) = s {
        let (a, t) = cut(x, 0x3b);
        assert(t is None || t->0.len() < x.len());
        assert(pieces(s).skip(1) =~= pieces(t));
    }
}
//@ impl src/protocol/commands/_vCont.rs ActionsBuf<'a> ==> impl<'a> ActionsBuf<'a>
//@ fn iter
//@ opt closure=1
//@ opt sig=fn vx_action(act: &'a [u8]) -> Option<VContAction<'a>>
//@ subst tid . tid == IdKind :: Any => matches!(tid.tid, IdKind::Any)
//@ ret r
//@ spec
    ensures r is Some <==> action_syntax(act@) is Some, r is Some ==> action_syntax(act@) == Some((r->0).vw()),
//@ at start
    proof { reveal_with_fuel(nth2, 3); }
//@ end
//@ fn iter
//@ opt lift=1 action
//@ opt retty=VxActions<'a>
//@ ret r
//@ spec
    // the actions stand behind the first ';'
    ensures r.rest() == cut(self.0@, 0x3b).1,
//@ end
//@ endimpl
// Iterator::map(vx_action) over the pieces: assumed
#[verifier::external_body]
pub struct VxActions<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> VxActions<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Option<VContAction<'a>>>)
        ensures
            old(self).rest() is None ==> r is None && final(self).rest() is None,
            old(self).rest() matches Some(s) ==> {
                let (a, t) = cut(s, 0x3b);
                &&& final(self).rest() == t && r is Some
                &&& (r->0 is Some <==> action_syntax(a) is Some)
                &&& r->0 is Some ==> action_syntax(a) == Some((r->0->0).vw())
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_map_action<'a>(s: VxSplit<'a>) -> (r: VxActions<'a>)
    requires s.sep() == (0x3bu8, 0x3bu8),
    ensures r.rest() == s.rest(),
{ unimplemented!() }
//@ item src/protocol/commands/_vCont.rs EitherIter
// core::iter::once
pub struct VxOnce<T> { pub v: Option<T> }
pub fn vx_once<T>(v: T) -> (r: VxOnce<T>) ensures r.v == Some(v) { VxOnce { v: Some(v) } }
impl<T> VxOnce<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures r == old(self).v, final(self).v is None { unimplemented!() }
}
pub type VxActs<'a> = EitherIter<VxActions<'a>, VxOnce<Option<VContAction<'a>>>>;
impl<'a> EitherIter<VxActions<'a>, VxOnce<Option<VContAction<'a>>>> {
    pub open spec fn items(&self) -> Seq<Option<ActV>> {
        match self { EitherIter::A(a) => pieces(a.rest()), EitherIter::B(o) => match o.v { Some(x) => seq![vact(x)], None => Seq::empty() } }
    }
}
//@ impl src/protocol/commands/_vCont.rs Iterator for EitherIter<A, B> ==> impl<'a> EitherIter<VxActions<'a>, VxOnce<Option<VContAction<'a>>>>
//@ fn next
//@ ret r
//@ opt novis
//@ subst < T > => <Option<VContAction<'a>>>
//@ subst fn next => pub fn next
//@ spec
    ensures
        r is None <==> old(self).items().len() == 0,
        r is None ==> final(self).items() == old(self).items(),
        r matches Some(x) ==> vact(x) == old(self).items()[0] && final(self).items() == old(self).items().skip(1),
//@ at start
    proof {
        match self {
            EitherIter::A(a) => { lemma_pieces(a.rest()); }
            EitherIter::B(o) => { assert(self.items().len() > 0 ==> self.items().skip(1) =~= Seq::empty()); }
        }
    }
//@ end
//@ endimpl
impl<'a> Actions<'a> {
    pub open spec fn items(&self) -> Seq<Option<ActV>> {
        match self {
            Actions::Buf(b) => pieces(cut(b.0@, 0x3b).1),
            Actions::FixedStep(t) => seq![Some((KindV::Step, Some(t.vw())))],
            Actions::FixedCont(t) => seq![Some((KindV::Continue, Some(t.vw())))],
        }
    }
}
//@ impl src/protocol/commands/_vCont.rs Actions<'a>
//@ fn iter
//@ opt retty=VxActs<'a>
//@ subst core :: iter :: once => vx_once
//@ ret r
//@ spec
    ensures r.items() == self.items(),
//@ end
//@ fn new_from_buf
//@ subst fn new_from_buf => pub fn new_from_buf
//@ ret r
//@ spec
    ensures r matches Actions::Buf(b) && b.0@ == buf@,
//@ end
//@ fn new_step
//@ ret r
//@ spec
    ensures r == Actions::<'a>::FixedStep(tid),
//@ end
//@ fn new_continue
//@ ret r
//@ spec
    ensures r == Actions::<'a>::FixedCont(tid),
//@ end
//@ endimpl
}
