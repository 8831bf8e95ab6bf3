pub open spec fn argchars(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexval(#[trigger] s[i]) is Some || s[i] == 0x3b }
// -------- `;`-separated hex arguments
//@ item src/protocol/common/lists.rs ArgListHex
impl<'a> ArgListHex<'a> {
    pub open spec fn raw(&self) -> Seq<u8> { self.0@ }
}
//@ impl src/protocol/common/lists.rs ArgListHex<'a>
//@ fn from_packet
//@ ret r
//@ spec
    ensures r is Some <==> argchars(old(args)@), r is Some ==> (r->0).raw() == old(args)@,
//@ loop 0 it
    invariant
        it.seq().len() == args@.len(), forall|j: int| 0 <= j < args@.len() ==> *(#[trigger] it.seq()[j]) == args@[j],
        args@ == old(args)@,
        !vx_any1 <==> argchars(args@.take(it.index@)),
//@ at loop0.start
    let ghost i = it.index@;
    proof {
        assert(args@.take(i + 1).drop_last() =~= args@.take(i));
        assert(forall|j: int| 0 <= j < i ==> #[trigger] args@.take(i)[j] == args@.take(i + 1)[j]);
        assert(args@.take(i + 1)[i] == args@[i]);
    }
//@ at loop0.after
    proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
//@ endimpl
// one argument: hex data (from_packet has refused everything else)
//@ impl src/protocol/common/lists.rs ArgListHex<'a>
//@ fn into_iter
//@ opt closure=1
//@ opt sig=fn vx_arg(raw: &'a mut [u8]) -> &'a mut [u8]
//@ ret r
//@ spec
    ensures all_hex(old(raw)@) ==> r@ == hexbytes(old(raw)@),
//@ end
//@ fn into_iter
//@ opt lift=1 arg
//@ opt retty=VxArgs<'a>
//@ subst . map (| s | (& * s ) ) . filter (| s | ! s . is_empty () ) => .vx_nonempty()
//@ ret r
//@ spec
    requires argchars(self.raw()),
    ensures r.rest() == Some(self.raw()),
//@ end
//@ endimpl
// Iterator::map(vx_arg) over the pieces, then Iterator::filter(non-empty): assumed
pub struct VxArgs0<'a> { pub s: VxSplitMut<'a> }
#[verifier::external_body]
pub fn vx_map_arg<'a>(s: VxSplitMut<'a>) -> (r: VxArgs0<'a>)
    requires s.sep() == (0x3bu8, 0x3bu8), s.rest() is Some && argchars(s.rest()->0),
    ensures r.s.rest() == s.rest(),
{ unimplemented!() }
impl<'a> VxArgs0<'a> {
    #[verifier::external_body]
    pub fn vx_nonempty(self) -> (r: VxArgs<'a>)
        ensures r.rest() == self.s.rest(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxArgs<'a> { x: core::marker::PhantomData<&'a u8> }
// the arguments of a list: the non-empty pieces, decoded
pub open spec fn arglist(s: Option<Seq<u8>>) -> Seq<Seq<u8>>
    decreases (match s { None => 0nat, Some(x) => 1 + x.len() }),
{
    match s {
        None => Seq::empty(),
        Some(x) => {
            let (a, t) = cut(x, 0x3b);
            let rest = if t is None || t->0.len() < x.len() { arglist(t) } else { Seq::empty() };
            if a.len() == 0 { rest } else { seq![hexbytes(a)] + rest }
        }
    }
}
impl<'a> VxArgs<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    pub open spec fn items(&self) -> Seq<Seq<u8>> { arglist(self.rest()) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r is Some && r->0@ == old(self).items()[0] && final(self).items() == old(self).items().skip(1),
    { unimplemented!() }
}
