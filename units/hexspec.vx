// ---- specification: GDB hex -----------------------------------------------------
pub open spec fn hexval(c: u8) -> Option<u8> {
    if 0x30 <= c <= 0x39 { Some((c - 0x30) as u8) }
    else if 0x61 <= c <= 0x66 { Some((c - 0x61 + 10) as u8) }
    else if 0x41 <= c <= 0x46 { Some((c - 0x41 + 10) as u8) }
    else if c == 0x78 || c == 0x58 { Some(0u8) }
    else { None }
}
pub open spec fn all_hex(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> hexval(#[trigger] s[i]) is Some
}
// value of a digit string, most significant digit first
pub open spec fn hexnum(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { hexnum(s.drop_last()) * 16 + hexval(s.last())->0 as nat }
}
pub open spec fn hexpair(h: u8, l: u8) -> u8 {
    ((hexval(h)->0) * 16 + hexval(l)->0) as u8
}
// two digits per byte; an odd leading digit is a byte of its own
pub open spec fn hexbytes(s: Seq<u8>) -> Seq<u8> {
    if s.len() % 2 == 1 {
        Seq::new(((s.len() + 1) / 2) as nat, |k: int| if k == 0 { hexval(s[0])->0 } else { hexpair(s[2 * k - 1], s[2 * k]) })
    } else {
        Seq::new((s.len() / 2) as nat, |k: int| hexpair(s[2 * k], s[2 * k + 1]))
    }
}
// binary escapes: '}' c means c ^ 0x20
pub open spec fn binval(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == 0x7d {
        if s.len() < 2 { None }
        else { match binval(s.skip(2)) { Some(r) => Some(seq![s[1] ^ 0x20] + r), None => None } }
    } else {
        match binval(s.skip(1)) { Some(r) => Some(seq![s[0]] + r), None => None }
    }
}
pub proof fn lemma_hexnum_mono(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures hexnum(s.take(k)) <= hexnum(s),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_hexnum_mono(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(hexnum(s.take(k)) <= hexnum(s.take(k + 1))) by {
            let a = hexnum(s.take(k));
            assert(a * 16 >= a) by (nonlinear_arith) requires a >= 0;
        }
    } else {
        assert(s.take(k) =~= s);
    }
}
pub proof fn lemma_shl4(h: u8, l: u8)
    requires h < 16, l < 16,
    ensures (h << 4) | l == (h * 16 + l) as u8,
{
    assert((h << 4) | l == add(mul(h, 16), l)) by (bit_vector) requires h < 16, l < 16;
    assert((h << 4) | l == (h * 16 + l) as u8);
}
pub proof fn lemma_binval_unfold(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        i == s.len() ==> binval(s.skip(i)) == Some(Seq::<u8>::empty()),
        i < s.len() && s[i] != 0x7d ==> binval(s.skip(i)) == (match binval(s.skip(i + 1)) { Some(r) => Some(seq![s[i]] + r), None => None }),
        i < s.len() && s[i] == 0x7d && i + 1 == s.len() ==> binval(s.skip(i)) is None,
        i < s.len() && s[i] == 0x7d && i + 1 < s.len() ==> binval(s.skip(i)) == (match binval(s.skip(i + 2)) { Some(r) => Some(seq![s[i + 1] ^ 0x20] + r), None => None }),
{
    if i < s.len() {
        assert(s.skip(i)[0] == s[i]);
        assert(s.skip(i).skip(1) =~= s.skip(i + 1));
        if i + 1 < s.len() { assert(s.skip(i).skip(2) =~= s.skip(i + 2)); }
    }
}
