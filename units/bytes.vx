//@ include prelude.vx
//@ include num.vx
global size_of usize == 8;
// ---- specification: n-byte two's complement, most / least significant byte first
pub open spec fn bebytes(v: nat, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { bebytes(v / 256, (n - 1) as nat).push((v % 256) as u8) }
}
pub open spec fn leval(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { leval(s.skip(1)) * 256 + s[0] as nat }
}
pub open spec fn lebytes(v: nat, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + lebytes(v / 256, (n - 1) as nat) }
}
pub proof fn lemma_pow256()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000, pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
        pow256(15) == 0x100_0000_0000_0000_0000_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000, pow256(3) == 0x100_0000, pow256(0) == 1,
{
    reveal_with_fuel(pow256, 17);
    assert(pow256(4) == 0x1_0000_0000);
    assert(pow256(8) == 0x1_0000_0000_0000_0000);
    assert(pow256(15) == 0x100_0000_0000_0000_0000_0000_0000_0000);
}
pub proof fn lemma_be_round(v: nat, n: nat)
    requires v < pow256(n),
    ensures beval(bebytes(v, n)) == v, bebytes(v, n).len() == n,
    decreases n,
{
    if n > 0 {
        assert(v / 256 < pow256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_be_round(v / 256, (n - 1) as nat);
        assert(bebytes(v, n).drop_last() =~= bebytes(v / 256, (n - 1) as nat));
    }
}
pub proof fn lemma_be_len(v: nat, n: nat)
    ensures bebytes(v, n).len() == n, lebytes(v, n).len() == n,
    decreases n,
{
    if n > 0 { lemma_be_len(v / 256, (n - 1) as nat); }
}
pub proof fn lemma_le_round(v: nat, n: nat)
    requires v < pow256(n),
    ensures leval(lebytes(v, n)) == v,
    decreases n,
{
    if n > 0 {
        assert(v / 256 < pow256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_le_round(v / 256, (n - 1) as nat);
        assert(lebytes(v, n).skip(1) =~= lebytes(v / 256, (n - 1) as nat));
        assert(lebytes(v, n)[0] == (v % 256) as u8);
    }
}
pub proof fn lemma_be_bound(s: Seq<u8>)
    ensures beval(s) < pow256(s.len()),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_be_bound(s.drop_last());
        assert(beval(s) < 256 * pow256((s.len() - 1) as nat)) by (nonlinear_arith)
            requires beval(s.drop_last()) < pow256((s.len() - 1) as nat), beval(s) == beval(s.drop_last()) * 256 + s.last() as nat, s.last() < 256;
    }
}
pub proof fn lemma_le_bound(s: Seq<u8>)
    ensures leval(s) < pow256(s.len()),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_le_bound(s.skip(1));
        assert(leval(s) < 256 * pow256((s.len() - 1) as nat)) by (nonlinear_arith)
            requires leval(s.skip(1)) < pow256((s.len() - 1) as nat), leval(s) == leval(s.skip(1)) * 256 + s[0] as nat, s[0] < 256;
    }
}
pub proof fn lemma_pow_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow256(a) <= pow256(b), pow256(a) >= 1,
    decreases b,
{
    if b > 0 && a < b { lemma_pow_mono(a, (b - 1) as nat); }
    else if a > 0 { lemma_pow_mono((a - 1) as nat, (a - 1) as nat); }
}
// value of a ++ b, big endian: leading zeros do not matter, anything else overflows
pub proof fn lemma_be_split(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures beval(s) == beval(s.take(k)) * pow256((s.len() - k) as nat) + beval(s.skip(k)),
    decreases s.len() - k,
{
    if k == s.len() {
        assert(s.take(k) =~= s); assert(s.skip(k).len() == 0); assert(pow256(0) == 1); assert(beval(s) * 1 == beval(s)) by (nonlinear_arith);
    } else {
        let t = s.drop_last();
        lemma_be_split(t, k);
        assert(s.skip(k).last() == s.last());
        assert(pow256((s.len() - k) as nat) == 256 * pow256((t.len() - k) as nat));
        assert(t.take(k) =~= s.take(k));
        assert(s.skip(k).drop_last() =~= t.skip(k));
        let p = pow256((t.len() - k) as nat);
        assert(beval(s.take(k)) * (256 * p) == (beval(s.take(k)) * p) * 256) by (nonlinear_arith);
    }
}
pub proof fn lemma_be_zero(s: Seq<u8>)
    ensures (forall|i: int| 0 <= i < s.len() ==> s[i] == 0) <==> beval(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_be_zero(t);
        if beval(s) == 0 {
            assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { if i < t.len() { assert(t[i] == s[i]); } }
        }
        if forall|i: int| 0 <= i < s.len() ==> s[i] == 0 {
            assert forall|i: int| 0 <= i < t.len() implies t[i] == 0 by { assert(t[i] == s[i]); }
        }
    }
}
pub proof fn lemma_le_split(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures leval(s) == leval(s.take(k)) + pow256(k as nat) * leval(s.skip(k)),
    decreases k,
{
    if k == 0 {
        assert(s.skip(0) =~= s);
        assert(leval(s.take(0)) == 0); assert(pow256(0) == 1); assert(1 * leval(s) == leval(s)) by (nonlinear_arith);
    } else {
        let t = s.skip(1);
        lemma_le_split(t, k - 1);
        assert(s.take(k).skip(1) =~= t.take(k - 1));
        assert(t.skip(k - 1) =~= s.skip(k));
        let p = pow256((k - 1) as nat);
        let l = leval(s.skip(k));
        assert((256 * p) * l == (p * l) * 256) by (nonlinear_arith);
        assert(s.take(k)[0] == s[0]);
        assert(pow256(k as nat) == 256 * p);
    }
}
pub proof fn lemma_le_zero(s: Seq<u8>)
    ensures (forall|i: int| 0 <= i < s.len() ==> s[i] == 0) <==> leval(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        lemma_le_zero(t);
        if leval(s) == 0 {
            assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { if i > 0 { assert(t[i - 1] == s[i]); } }
        }
        if forall|i: int| 0 <= i < s.len() ==> s[i] == 0 {
            assert forall|i: int| 0 <= i < t.len() implies t[i] == 0 by { assert(t[i] == s[i + 1]); }
        }
    }
}
pub trait LeBytes: VxInt {
    spec fn nbytes_le() -> nat;
    spec fn le(self) -> Seq<u8>;
    spec fn uval_le(self) -> nat;
    proof fn le_axiom(self)
        ensures self.le().len() == Self::nbytes_le(), leval(self.le()) == self.uval_le(), self.uval_le() < pow256(Self::nbytes_le()),
            self.val() >= 0 ==> self.uval_le() == self.val(), self.uval_le() <= Self::maxv() ==> self.val() == self.uval_le();
    fn to_le_bytes(self, buf: &mut [u8]) -> (r: Option<usize>)
        ensures
            old(buf)@.len() < Self::nbytes_le() ==> r is None && final(buf)@ == old(buf)@,
            old(buf)@.len() >= Self::nbytes_le() ==> r == Some(Self::nbytes_le() as usize) && final(buf)@ == self.le() + old(buf)@.skip(Self::nbytes_le() as int);
    fn from_le_bytes(buf: &[u8]) -> (r: Option<Self>)
        ensures
            r is Some <==> leval(buf@) < pow256(Self::nbytes_le()),
            r is Some ==> r->0.uval_le() == leval(buf@);
}
//@ each T U N B M = u8 u8 1 0x1 0xff ; u16 u16 2 0x100 0xffff ; u32 u32 4 0x1000000 0xffffffff ; u64 u64 8 0x100000000000000 0xffffffffffffffff ; u128 u128 16 0x1000000000000000000000000000000 0xffffffffffffffffffffffffffffffff ; usize usize 8 0x100000000000000 0xffffffffffffffff ; i8 u8 1 0x1 0x7f ; i16 u16 2 0x100 0x7fff ; i32 u32 4 0x1000000 0x7fffffff ; i64 u64 8 0x100000000000000 0x7fffffffffffffff ; i128 u128 16 0x1000000000000000000000000000000 0x7fffffffffffffffffffffffffffffff ; isize usize 8 0x100000000000000 0x7fffffffffffffff
#[verifier::external_body]
pub fn vx_std_be_@T@(x: @T@) -> (r: [u8; @N@])
    ensures r@ == bebytes(x as @U@ as nat, @N@),
{ <@T@>::to_be_bytes(x) }
#[verifier::external_body]
pub fn vx_std_le_@T@(x: @T@) -> (r: [u8; @N@])
    ensures r@ == lebytes(x as @U@ as nat, @N@),
{ <@T@>::to_le_bytes(x) }
pub proof fn lemma_un_@T@(x: @T@)
    ensures x >= 0 ==> x as @U@ == x, (x as @U@) <= @T@::MAX ==> x as @U@ == x, 0 <= x as @U@,
{
    assert(x >= 0 ==> x as @U@ == x) by (bit_vector);
    assert((x as @U@) <= @M@ ==> x >= 0) by (bit_vector);
}
pub proof fn lemma_step_@T@(x: @T@, b: u8)
    requires (x as @U@) < @B@,
    ensures ((((x << 4u32) << 4u32) | (b as @T@)) as @U@) as nat == (x as @U@) as nat * 256 + b as nat,
{
    let y = (((x << 4u32) << 4u32) | (b as @T@)) as @U@;
    assert(y as u128 == add(mul(x as @U@ as u128, 256), b as u128) && (x as @U@ as u128) < @B@) by (bit_vector)
        requires (x as @U@) < @B@, y == (((x << 4u32) << 4u32) | (b as @T@)) as @U@;
}
impl VxInt for @T@ {
    open spec fn val(self) -> int { self as int }
    open spec fn maxv() -> int { @T@::MAX as int }
}
//@ file be_@T@ = src/internal/be_bytes.rs!impl_to_be_bytes num=@T@
//@ impl be_@T@ BeBytes for @T@
    open spec fn nbytes() -> nat { @N@ }
    open spec fn be(self) -> Seq<u8> { bebytes(self as @U@ as nat, @N@) }
    open spec fn uval(self) -> nat { self as @U@ as nat }
    proof fn be_axiom(self) { lemma_pow256(); lemma_be_round(self as @U@ as nat, @N@); lemma_un_@T@(self); }
//@ fn to_be_bytes
//@ opt novis
//@ subst < @T@ > :: to_be_bytes => vx_std_be_@T@
//@ ret r
//@ at start
    proof { lemma_be_len(self as @U@ as nat, @N@); }
//@ at before:Some(len)
    proof { assert(buf@ =~= bebytes(self as @U@ as nat, @N@) + old(buf)@.skip(@N@)); }
//@ end
//@ fn from_be_bytes
//@ opt novis
//@ opt loops=2
//@ ret r
//@ at start
    let ghost s = buf@;
    proof { lemma_pow256(); }
//@ loop 0 it
    invariant
        it.seq().len() == extra@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == extra@[j],
        vx_any1 <==> exists|j: int| 0 <= j < it.index@ && extra@[j] != 0,
//@ at before:return None
    proof {
        lemma_be_zero(extra@);
        lemma_be_split(s, s.len() - @N@);
        assert(s.take(s.len() - @N@) =~= extra@);
        let p = pow256(@N@);
        assert(beval(extra@) * p >= p) by (nonlinear_arith) requires beval(extra@) >= 1, p >= 0;
    }
//@ at loop1.before
    proof {
        lemma_be_bound(buf@);
        lemma_pow_mono(buf@.len() as nat, @N@);
        if s.len() > @N@ {
            assert(buf@ =~= s.skip(s.len() - @N@));
            lemma_be_zero(s.take(s.len() - @N@));
            lemma_be_split(s, s.len() - @N@);
            assert(0 * pow256(@N@) == 0);
        }
        assert(beval(buf@) == beval(s));
        assert(buf@.take(0).len() == 0);
        assert((0 as @T@) as @U@ == 0);
    }
//@ loop 1 it
    invariant
        it.seq().len() == buf@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == buf@[j],
        buf@.len() <= @N@,
        (res as @U@) as nat == beval(buf@.take(it.index@ as int)),
//@ at loop1.start
    proof {
        let k = it.index@ as int;
        assert(buf@.take(k + 1).drop_last() =~= buf@.take(k));
        lemma_pow256();
        lemma_be_bound(buf@.take(k));
        lemma_pow_mono(k as nat, (@N@ - 1) as nat);
        lemma_step_@T@(res, buf@[k]);
    }
//@ at end
    proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
//@ end
//@ endimpl
//@ file le_@T@ = src/internal/le_bytes.rs!impl_to_le_bytes num=@T@
//@ impl le_@T@ LeBytes for @T@
    open spec fn nbytes_le() -> nat { @N@ }
    open spec fn le(self) -> Seq<u8> { lebytes(self as @U@ as nat, @N@) }
    open spec fn uval_le(self) -> nat { self as @U@ as nat }
    proof fn le_axiom(self) { lemma_pow256(); lemma_be_len(self as @U@ as nat, @N@); lemma_le_round(self as @U@ as nat, @N@); lemma_un_@T@(self); }
//@ fn to_le_bytes
//@ opt novis
//@ subst < @T@ > :: to_le_bytes => vx_std_le_@T@
//@ ret r
//@ at start
    proof { lemma_be_len(self as @U@ as nat, @N@); }
//@ at before:Some(len)
    proof { assert(buf@ =~= lebytes(self as @U@ as nat, @N@) + old(buf)@.skip(@N@)); }
//@ end
//@ fn from_le_bytes
//@ opt novis
//@ opt loops=2
//@ ret r
//@ at start
    let ghost s = buf@;
    proof { lemma_pow256(); }
//@ loop 0 it
    invariant
        it.seq().len() == extra@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == extra@[j],
        vx_any1 <==> exists|j: int| 0 <= j < it.index@ && extra@[j] != 0,
//@ at before:return None
    proof {
        lemma_le_zero(extra@);
        lemma_le_split(s, @N@);
        assert(s.skip(@N@) =~= extra@);
        let p = pow256(@N@);
        assert(p * leval(extra@) >= p) by (nonlinear_arith) requires leval(extra@) >= 1, p >= 0;
    }
//@ at loop1.before
    proof {
        lemma_le_bound(buf@);
        lemma_pow_mono(buf@.len() as nat, @N@);
        if s.len() > @N@ {
            assert(buf@ =~= s.take(@N@));
            lemma_le_zero(s.skip(@N@));
            lemma_le_split(s, @N@);
            assert(pow256(@N@) * 0 == 0);
        }
        assert(leval(buf@) == leval(s));
        assert(buf@.skip(buf@.len() as int).len() == 0);
        assert((0 as @T@) as @U@ == 0);
    }
//@ loop 1
    invariant
        buf@.len() <= @N@,
        (res as @U@) as nat == leval(buf@.skip(buf@.len() - vx_i3)),
//@ at loop1.start
    proof {
        let k = buf@.len() - vx_i3;
        assert(buf@.skip(k - 1).skip(1) =~= buf@.skip(k));
        assert(buf@.skip(k - 1)[0] == buf@[k - 1]);
        lemma_pow256();
        lemma_le_bound(buf@.skip(k));
        lemma_pow_mono(vx_i3 as nat, (@N@ - 1) as nat);
        lemma_step_@T@(res, buf@[k - 1]);
    }
//@ at end
    proof { assert(buf@.skip(0) =~= buf@); }
//@ end
//@ endimpl
//@ endeach
