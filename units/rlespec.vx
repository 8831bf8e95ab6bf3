// ---- specification: packet framing and run-length encoding ----------------------
pub open spec fn rep(c: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| c) }

// The client's view of a byte stream: "c*n" stands for c followed by (n - 29) more copies of c.
pub struct Rl { pub d: Seq<u8>, pub star: bool, pub ok: bool }
pub open spec fn rl_step(s: Rl, b: u8) -> Rl {
    if s.star {
        Rl {
            d: s.d + rep(s.d.last(), (b - 29) as nat),
            star: false,
            // the count must be printable, denote at least 3 repeats, and never read as '#' or '$'
            ok: s.ok && 32 <= b <= 126 && b != 0x23 && b != 0x24,
        }
    } else if b == 0x2a {
        Rl { d: s.d, star: true, ok: s.ok && s.d.len() > 0 }
    } else {
        Rl { d: s.d.push(b), star: false, ok: s.ok }
    }
}
pub open spec fn rl(s: Seq<u8>) -> Rl
    decreases s.len(),
{
    if s.len() == 0 { Rl { d: Seq::empty(), star: false, ok: true } } else { rl_step(rl(s.drop_last()), s.last()) }
}
pub open spec fn sum8(s: Seq<u8>) -> u8
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { ((sum8(s.drop_last()) as int + s.last() as int) % 256) as u8 }
}
// no byte of the payload may be confused with framing
pub open spec fn clean(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x23 && s[i] != 0x24
}
pub open spec fn nostar(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x2a
}
pub broadcast proof fn lemma_rl_push(s: Seq<u8>, b: u8)
    ensures #[trigger] rl(s.push(b)) == rl_step(rl(s), b),
{
    assert(s.push(b).drop_last() =~= s);
}
pub broadcast proof fn lemma_sum_push(s: Seq<u8>, b: u8)
    ensures #[trigger] sum8(s.push(b)) == ((sum8(s) as int + b as int) % 256) as u8,
{
    assert(s.push(b).drop_last() =~= s);
}
pub open spec fn hexdigit(n: u8) -> u8 { if n < 10 { (0x30 + n) as u8 } else { (0x61 + n - 10) as u8 } }
pub open spec fn hex2(b: u8) -> Seq<u8> { seq![hexdigit(b / 16), hexdigit(b % 16)] }
pub open spec fn hexs(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { hexs(s.drop_last()) + hex2(s.last()) }
}
pub open spec fn esc1(b: u8) -> Seq<u8> {
    if b == 0x23 || b == 0x24 || b == 0x7d || b == 0x2a { seq![0x7du8, b ^ 0x20] } else { seq![b] }
}
pub open spec fn escs(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { escs(s.drop_last()) + esc1(s.last()) }
}
// the whole packet a client receives for logical payload `msg`: framed, checksummed, decodable
pub open spec fn is_packet(p: Seq<u8>, msg: Seq<u8>, rle: bool) -> bool {
    exists|body: Seq<u8>| #[trigger] packet_of(p, body)
        && (if rle { rl(body).d == msg && !rl(body).star && rl(body).ok && (clean(msg) ==> clean(body)) } else { body == msg })
}
pub open spec fn packet_of(p: Seq<u8>, body: Seq<u8>) -> bool {
    p == seq![0x24u8] + body + seq![0x23u8] + hex2(sum8(body))
}
pub proof fn lemma_rl_nonempty(s: Seq<u8>)
    requires s.len() > 0, rl(s).ok,
    ensures rl(s).d.len() > 0,
    decreases s.len(),
{
    if s.drop_last().len() > 0 { lemma_rl_nonempty(s.drop_last()); }
}
pub proof fn lemma_rep(c: u8, n: nat)
    ensures
        rep(c, 0) == Seq::<u8>::empty(),
        n > 0 ==> rep(c, n) == rep(c, (n - 1) as nat).push(c) && rep(c, n) == seq![c] + rep(c, (n - 1) as nat) && rep(c, n).last() == c,
{
    assert(rep(c, 0) =~= Seq::<u8>::empty());
    if n > 0 { assert(rep(c, n) =~= rep(c, (n - 1) as nat).push(c)); assert(rep(c, n) =~= seq![c] + rep(c, (n - 1) as nat)); }
}
pub proof fn lemma_nibbles(b: u8)
    ensures (b & 0xf0) >> 4 == b / 16, b & 0x0f == b % 16, b / 16 < 16, b % 16 < 16,
        hexdigit(b / 16) != 0x2a, hexdigit(b % 16) != 0x2a, hexdigit(b / 16) != 0x23, hexdigit(b % 16) != 0x23,
{
    assert((b & 0xf0) >> 4 == b / 16 && b & 0x0f == b % 16) by (bit_vector);
}
pub proof fn lemma_clean_push(s: Seq<u8>, b: u8)
    ensures clean(s.push(b)) <==> clean(s) && b != 0x23 && b != 0x24,
{
    if clean(s.push(b)) {
        assert(s.push(b)[s.len() as int] == b);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 0x23 && s[i] != 0x24 by { assert(s.push(b)[i] == s[i]); }
    }
}
pub proof fn lemma_clean_app(s: Seq<u8>, t: Seq<u8>)
    ensures clean(s + t) <==> clean(s) && clean(t),
{
    if clean(s + t) {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 0x23 && s[i] != 0x24 by { assert((s + t)[i] == s[i]); }
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 0x23 && t[i] != 0x24 by { assert((s + t)[i + s.len()] == t[i]); }
    }
}
pub proof fn lemma_esc()
    ensures 0x23u8 ^ 0x20 == 0x03, 0x24u8 ^ 0x20 == 0x04, 0x7du8 ^ 0x20 == 0x5d, 0x2au8 ^ 0x20 == 0x0a,
{
    assert(0x23u8 ^ 0x20 == 0x03 && 0x24u8 ^ 0x20 == 0x04 && 0x7du8 ^ 0x20 == 0x5d && 0x2au8 ^ 0x20 == 0x0a) by (bit_vector);
}
// the most compact big-endian byte string for v: no leading zero byte (except for 0 itself)
pub open spec fn is_num_text(w: Seq<u8>, v: int) -> bool {
    beval(w) == v && w.len() > 0 && (w[0] == 0 ==> w.len() == 1)
}
pub proof fn lemma_beval_zeros(s: Seq<u8>, z: int)
    requires 0 <= z <= s.len(), forall|j: int| 0 <= j < z ==> s[j] == 0,
    ensures beval(s) == beval(s.skip(z)),
    decreases s.len(),
{
    if z == s.len() {
        if s.len() > 0 { lemma_beval_zeros(s.drop_last(), z - 1); assert(s.drop_last().skip(z - 1) =~= Seq::<u8>::empty()); assert(beval(s.drop_last()) == 0); }
        assert(s.skip(z) =~= Seq::<u8>::empty());
    } else {
        lemma_beval_zeros(s.drop_last(), z);
        assert(s.skip(z).drop_last() =~= s.drop_last().skip(z));
    }
}
pub open spec fn decval(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { decval(s.drop_last()) * 10 + (s.last() - 0x30) as nat }
}
pub open spec fn is_dec_text(w: Seq<u8>, v: int) -> bool {
    decval(w) == v && w.len() > 0 && (w[0] == 0x30 ==> w.len() == 1)
    && forall|i: int| 0 <= i < w.len() ==> 0x30 <= #[trigger] w[i] <= 0x39
}
pub open spec fn is_pow10(p: nat) -> bool
    decreases p,
{
    p == 1 || (p >= 10 && p % 10 == 0 && is_pow10(p / 10))
}
pub proof fn lemma_decval_push(s: Seq<u8>, c: u8)
    ensures c >= 0x30 ==> decval(s.push(c)) == decval(s) * 10 + (c - 0x30),
{ assert(s.push(c).drop_last() =~= s); }
