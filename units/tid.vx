// ---- contract assumed of core::num::NonZeroUsize -------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroUsize { v: usize }
impl NonZeroUsize {
    pub closed spec fn view(&self) -> usize { self.v }
    pub broadcast axiom fn nonzero(self) ensures #[trigger] self.view() != 0;
    #[verifier::external_body]
    pub fn new(v: usize) -> (r: Option<NonZeroUsize>)
        ensures v == 0 ==> r is None, v != 0 ==> r is Some && r->0@ == v,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: usize) ensures r == self@ { unimplemented!() }
}
//@ subst core :: num :: NonZeroUsize => NonZeroUsize
//@ item src/protocol/common/thread_id.rs SpecificIdKind
//@ item src/protocol/common/thread_id.rs SpecificThreadId
//@ item src/protocol/common/thread_id.rs IdKind
//@ item src/protocol/common/thread_id.rs ThreadId
