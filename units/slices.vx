// ---- contract assumed of core::slice::{Split, SplitN, SplitMut, SplitNMut} over
// `|b| *b == L` / `|b| *b == L || *b == M` (the two-separator forms end in 2)
pub open spec fn find2(s: Seq<u8>, c: u8, d: u8) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if s[0] == c || s[0] == d { 0 } else { 1 + find2(s.skip(1), c, d) }
}
pub proof fn lemma_find2(s: Seq<u8>, c: u8, d: u8)
    ensures
        find2(s, c, d) <= s.len(),
        forall|i: int| 0 <= i < find2(s, c, d) ==> #[trigger] s[i] != c && s[i] != d,
        find2(s, c, d) < s.len() ==> s[find2(s, c, d) as int] == c || s[find2(s, c, d) as int] == d,
    decreases s.len(),
{
    if s.len() > 0 && s[0] != c && s[0] != d {
        lemma_find2(s.skip(1), c, d);
        assert forall|i: int| 0 <= i < find2(s, c, d) implies #[trigger] s[i] != c && s[i] != d by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
// first piece and the rest, if there is one
pub open spec fn cut2(s: Seq<u8>, c: u8, d: u8) -> (Seq<u8>, Option<Seq<u8>>) {
    let i = find2(s, c, d);
    (s.take(i as int), if i < s.len() { Some(s.skip(i as int + 1)) } else { None })
}
pub open spec fn cut(s: Seq<u8>, c: u8) -> (Seq<u8>, Option<Seq<u8>>) { cut2(s, c, c) }
// i-th piece
pub open spec fn nth2(s: Seq<u8>, c: u8, d: u8, i: nat) -> Option<Seq<u8>>
    decreases i,
{
    let (a, r) = cut2(s, c, d);
    if i == 0 { Some(a) } else { match r { None => None, Some(t) => nth2(t, c, d, (i - 1) as nat) } }
}
pub open spec fn nth(s: Seq<u8>, c: u8, i: nat) -> Option<Seq<u8>> { nth2(s, c, c, i) }
// i-th piece when there are at most n: the last one keeps its separators
pub open spec fn nthn2(s: Seq<u8>, c: u8, d: u8, i: nat, n: nat) -> Option<Seq<u8>>
    decreases i,
{
    let (a, r) = cut2(s, c, d);
    if n == 0 { None } else if n == 1 { if i == 0 { Some(s) } else { None } }
    else if i == 0 { Some(a) } else { match r { None => None, Some(t) => nthn2(t, c, d, (i - 1) as nat, (n - 1) as nat) } }
}
pub open spec fn nthn(s: Seq<u8>, c: u8, i: nat, n: nat) -> Option<Seq<u8>> { nthn2(s, c, c, i, n) }
//@ each T PTR NAME S = VxSplit &'a_[u8] vx_split s
#[verifier::external_body]
pub struct @T@<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> @T@<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn sep(&self) -> (u8, u8);
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<@PTR@>)
        ensures
            final(self).sep() == old(self).sep(),
            old(self).rest() is None ==> r is None && final(self).rest() is None,
            old(self).rest() matches Some(s) ==> r is Some && r->0@ == cut2(s, old(self).sep().0, old(self).sep().1).0 && final(self).rest() == cut2(s, old(self).sep().0, old(self).sep().1).1,
    { unimplemented!() }
    // Iterator::skip(1): one piece less
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: @T@<'a>)
        requires n == 1,
        ensures
            r.sep() == self.sep(),
            self.rest() is None ==> r.rest() is None,
            self.rest() matches Some(s) ==> r.rest() == cut2(s, self.sep().0, self.sep().1).1,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn @NAME@<'a>(s: @PTR@, c: u8) -> (r: @T@<'a>)
    ensures r.rest() == Some(@S@@), r.sep() == (c, c),
{ unimplemented!() }
#[verifier::external_body]
pub fn @NAME@2<'a>(s: @PTR@, c: u8, d: u8) -> (r: @T@<'a>)
    ensures r.rest() == Some(@S@@), r.sep() == (c, d),
{ unimplemented!() }
//@ endeach
// the pieces are disjoint parts of the slice, the separators stay between them
pub struct VxSplitMut<'a> { pub v: Option<&'a mut [u8]>, pub c: u8, pub d: u8 }
impl<'a> VxSplitMut<'a> {
    pub open spec fn rest(&self) -> Option<Seq<u8>> { match self.v { None => None, Some(s) => Some(s@) } }
    pub open spec fn sep(&self) -> (u8, u8) { (self.c, self.d) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut [u8]>)
        ensures
            final(self).sep() == old(self).sep(),
            old(self).rest() is None ==> r is None && final(self).rest() is None,
            old(self).rest() matches Some(s) ==> {
                let (p, t) = cut2(s, old(self).c, old(self).d);
                &&& r is Some && r->0@ == p && final(self).rest() == t
                // a slice cannot change its length through a borrow
                &&& final(r->0)@.len() == p.len()
                &&& t is None ==> final(old(self).v->0)@ == final(r->0)@
                &&& t is Some ==> final(old(self).v->0)@ == final(r->0)@ + seq![s[p.len() as int]] + final(final(self).v->0)@
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxSplitMut<'a>)
        requires n == 1,
        ensures
            r.sep() == self.sep(),
            self.rest() is None ==> r.rest() is None,
            self.rest() matches Some(s) ==> r.rest() == cut2(s, self.sep().0, self.sep().1).1,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_split_mut<'a>(s: &'a mut [u8], c: u8) -> (r: VxSplitMut<'a>)
    ensures r.rest() == Some(old(s)@), r.sep() == (c, c), r.v is Some && final(r.v->0)@ == final(s)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_split_mut2<'a>(s: &'a mut [u8], c: u8, d: u8) -> (r: VxSplitMut<'a>)
    ensures r.rest() == Some(old(s)@), r.sep() == (c, d), r.v is Some && final(r.v->0)@ == final(s)@,
{ unimplemented!() }
//@ each T PTR NAME S = VxSplitN &'a_[u8] vx_splitn s ; VxSplitNMut &'a_mut_[u8] vx_splitn_mut old(s)
#[verifier::external_body]
pub struct @T@<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> @T@<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn sep(&self) -> (u8, u8);
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<@PTR@>)
        ensures
            final(self).sep() == old(self).sep(),
            old(self).left() == 0 || old(self).rest() is None ==> r is None && final(self).rest() is None,
            old(self).left() > 0 ==> final(self).left() == old(self).left() - 1,
            old(self).left() == 1 && old(self).rest() is Some ==> r is Some && r->0@ == old(self).rest()->0 && final(self).rest() is None,
            old(self).left() > 1 && old(self).rest() is Some ==> r is Some && r->0@ == cut2(old(self).rest()->0, old(self).sep().0, old(self).sep().1).0
                && final(self).rest() == cut2(old(self).rest()->0, old(self).sep().0, old(self).sep().1).1,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn @NAME@<'a>(s: @PTR@, n: usize, c: u8) -> (r: @T@<'a>)
    ensures r.rest() == Some(@S@@), r.sep() == (c, c), r.left() == n,
{ unimplemented!() }
#[verifier::external_body]
pub fn @NAME@2<'a>(s: @PTR@, n: usize, c: u8, d: u8) -> (r: @T@<'a>)
    ensures r.rest() == Some(@S@@), r.sep() == (c, d), r.left() == n,
{ unimplemented!() }
//@ endeach
// slice operations vstd has no contract for
pub trait VxSliceExt {
    spec fn sv(&self) -> Seq<u8>;
    fn vx_get_to(&self, n: usize) -> (r: Option<&[u8]>)
        ensures (n <= self.sv().len() ==> r is Some && r->0@ == self.sv().take(n as int)), n > self.sv().len() ==> r is None;
    fn vx_get_from(&self, n: usize) -> (r: Option<&[u8]>)
        ensures (n <= self.sv().len() ==> r is Some && r->0@ == self.sv().skip(n as int)), n > self.sv().len() ==> r is None;
    fn vx_get_range(&self, a: usize, b: usize) -> (r: Option<&[u8]>)
        ensures (a <= b <= self.sv().len() ==> r is Some && r->0@ == self.sv().subrange(a as int, b as int)), !(a <= b <= self.sv().len()) ==> r is None;
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool)
        ensures r == p@.is_prefix_of(self.sv());
    fn vx_get_to_mut(&mut self, n: usize) -> (r: Option<&mut [u8]>)
        ensures (n <= old(self).sv().len() ==> r is Some && r->0@ == old(self).sv().take(n as int) && final(self).sv() == final(r->0)@ + old(self).sv().skip(n as int)), n > old(self).sv().len() ==> r is None && final(self).sv() == old(self).sv();
    fn vx_get_from_mut(&mut self, n: usize) -> (r: Option<&mut [u8]>)
        ensures (n <= old(self).sv().len() ==> r is Some && r->0@ == old(self).sv().skip(n as int) && final(self).sv() == old(self).sv().take(n as int) + final(r->0)@), n > old(self).sv().len() ==> r is None && final(self).sv() == old(self).sv();
    fn vx_get_range_mut(&mut self, a: usize, b: usize) -> (r: Option<&mut [u8]>)
        ensures
            a <= b <= old(self).sv().len() ==> r is Some && r->0@ == old(self).sv().subrange(a as int, b as int) && final(self).sv() == old(self).sv().take(a as int) + final(r->0)@ + old(self).sv().skip(b as int),
            !(a <= b <= old(self).sv().len()) ==> r is None && final(self).sv() == old(self).sv();
}
impl VxSliceExt for [u8] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_get_to(&self, n: usize) -> (r: Option<&[u8]>) { self.get(..n) }
    #[verifier::external_body]
    fn vx_get_from(&self, n: usize) -> (r: Option<&[u8]>) { self.get(n..) }
    #[verifier::external_body]
    fn vx_get_range(&self, a: usize, b: usize) -> (r: Option<&[u8]>) { self.get(a..b) }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_get_to_mut(&mut self, n: usize) -> (r: Option<&mut [u8]>) { self.get_mut(..n) }
    #[verifier::external_body]
    fn vx_get_from_mut(&mut self, n: usize) -> (r: Option<&mut [u8]>) { self.get_mut(n..) }
    #[verifier::external_body]
    fn vx_get_range_mut(&mut self, a: usize, b: usize) -> (r: Option<&mut [u8]>) { self.get_mut(a..b) }
}
#[verifier::external_body]
pub fn vx_range_clone(r: &core::ops::Range<usize>) -> (x: core::ops::Range<usize>)
    ensures x == *r,
{ r.clone() }
