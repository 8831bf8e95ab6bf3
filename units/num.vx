// ---- contract assumed of num_traits for the primitive integers ---------------
pub trait VxInt: Sized {
    spec fn val(self) -> int;
    spec fn maxv() -> int;
}
pub trait FromPrimitive: VxInt {
    fn from_u8(n: u8) -> (r: Option<Self>)
        ensures (n as int <= Self::maxv()) ==> r is Some && r->0.val() == n as int,
                (n as int > Self::maxv()) ==> r is None;
}
pub trait Zero: VxInt {
    fn zero() -> (r: Self)
        ensures r.val() == 0;
}
pub trait CheckedAdd: VxInt {
    fn checked_add(&self, o: &Self) -> (r: Option<Self>)
        ensures (0 <= self.val() && 0 <= o.val()) ==> (if self.val() + o.val() <= Self::maxv() { r is Some && r->0.val() == self.val() + o.val() } else { r is None });
}
pub trait CheckedMul: VxInt {
    fn checked_mul(&self, o: &Self) -> (r: Option<Self>)
        ensures (0 <= self.val() && 0 <= o.val()) ==> (if self.val() * o.val() <= Self::maxv() { r is Some && r->0.val() == self.val() * o.val() } else { r is None });
}
pub open spec fn beval(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { beval(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
// internal::BeBytes: discharged for every implementing type in unit bytes.vx
pub trait BeBytes: VxInt {
    spec fn nbytes() -> nat;
    spec fn be(self) -> Seq<u8>;
    // the bit pattern read as an unsigned number
    spec fn uval(self) -> nat;
    proof fn be_axiom(self)
        ensures self.be().len() == Self::nbytes(), 1 <= Self::nbytes() <= 16, beval(self.be()) == self.uval(),
            self.val() >= 0 ==> self.uval() == self.val(), self.uval() <= Self::maxv() ==> self.val() == self.uval(), 0 <= Self::maxv() < pow256(Self::nbytes());
    fn to_be_bytes(self, buf: &mut [u8]) -> (r: Option<usize>)
        ensures
            old(buf)@.len() < Self::nbytes() ==> r is None && final(buf)@ == old(buf)@,
            old(buf)@.len() >= Self::nbytes() ==> r == Some(Self::nbytes() as usize) && final(buf)@ == self.be() + old(buf)@.skip(Self::nbytes() as int);
    fn from_be_bytes(buf: &[u8]) -> (r: Option<Self>)
        ensures
            r is Some <==> beval(buf@) < pow256(Self::nbytes()),
            r is Some ==> r->0.uval() == beval(buf@);
}
pub trait PrimInt: VxInt {
    fn is_zero(&self) -> (r: bool)
        ensures r == (self.val() == 0);
}
pub trait NumCast: VxInt {
    fn from(n: usize) -> (r: Option<Self>)
        ensures (n as int <= Self::maxv()) ==> r is Some && r->0.val() == n as int,
                (n as int > Self::maxv()) ==> r is None;
}
