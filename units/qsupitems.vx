//@ item src/protocol/commands/_qSupported.rs qSupported
//@ item src/protocol/commands/_qSupported.rs Features
//@ item src/protocol/commands/_qSupported.rs Feature
pub open spec fn mp() -> Seq<u8> { seq![0x6du8, 0x75, 0x6c, 0x74, 0x69, 0x70, 0x72, 0x6f, 0x63, 0x65, 0x73, 0x73] }
// `name+` / `name-` of a feature known here; anything else is of no interest, nothing at all is an error
pub open spec fn feature_syntax(s: Seq<u8>) -> Result<Option<bool>, ()> {
    if s.len() == 0 { Err(()) }
    else if s.drop_last() == mp() && (s.last() == 0x2b || s.last() == 0x2d) { Ok(Some(s.last() == 0x2b)) }
    else { Ok(None) }
}
pub open spec fn feature_v(r: Result<Option<(Feature, bool)>, ()>) -> Result<Option<bool>, ()> {
    match r { Err(_) => Err(()), Ok(None) => Ok(None), Ok(Some((f, b))) => Ok(Some(b)) }
}
//@ impl src/protocol/commands/_qSupported.rs Features<'a>
//@ fn into_iter
//@ opt closure=1
//@ opt sig=fn vx_feature(s: &'a [u8]) -> Result<Option<(Feature, bool)>, ()>
//@ ret r
//@ spec
    ensures feature_v(r) == feature_syntax(s@),
//@ at start
    proof {
        if s@.len() == 13 {
            assert(s@.drop_last() =~= s@.subrange(0, 12));
            assert(s@.subrange(0, 12) =~= mp() <==> (forall|i: int| 0 <= i < 12 ==> s@[i] == mp()[i]));
        } else { assert(s@.len() > 0 ==> s@.drop_last().len() != mp().len()); }
    }
//@ end
//@ fn into_iter
//@ opt lift=1 feature
//@ opt retty=VxFeatures<'a>
//@ ret r
//@ spec
    ensures r.rest() == Some(self.sv()),
//@ end
//@ endimpl
impl<'a> Features<'a> { pub open spec fn sv(&self) -> Seq<u8> { self.0@ } }
#[verifier::external_body]
pub struct VxFeatures<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> VxFeatures<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Option<(Feature, bool)>, ()>>)
        ensures
            old(self).rest() is None ==> r is None && final(self).rest() is None,
            old(self).rest() matches Some(s) ==> final(self).rest() == cut(s, 0x3b).1 && r is Some && feature_v(r->0) == feature_syntax(cut(s, 0x3b).0),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_map_feature<'a>(s: VxSplit<'a>) -> (r: VxFeatures<'a>)
    requires s.sep() == (0x3bu8, 0x3bu8),
    ensures r.rest() == s.rest(),
{ unimplemented!() }
