// there is one most compact way to write a number
pub proof fn lemma_num_unique(a: Seq<u8>, b: Seq<u8>, v: int)
    requires is_num_text(a, v), is_num_text(b, v),
    ensures a == b,
    decreases a.len() + b.len(),
{
    if a.len() == 1 && b.len() == 1 {
        lemma_beval1(a); lemma_beval1(b);
        assert(a =~= b);
    } else if a.len() == 1 {
        lemma_beval1(a); lemma_beval_pos(b.drop_last());
    } else if b.len() == 1 {
        lemma_beval1(b); lemma_beval_pos(a.drop_last());
    } else {
        let (x, y) = (a.drop_last(), b.drop_last());
        assert(beval(x) * 256 + a.last() == beval(y) * 256 + b.last());
        assert(beval(x) == beval(y) && a.last() == b.last());
        assert(x[0] == a[0] && y[0] == b[0]);
        lemma_num_unique(x, y, beval(x) as int);
        assert(a =~= x.push(a.last())); assert(b =~= y.push(b.last()));
    }
}
pub proof fn lemma_beval1(a: Seq<u8>)
    requires a.len() == 1,
    ensures beval(a) == a[0],
{ assert(a.drop_last() =~= Seq::<u8>::empty()); assert(beval(a.drop_last()) == 0); }
pub proof fn lemma_beval_pos(a: Seq<u8>)
    requires a.len() > 0, a[0] != 0,
    ensures beval(a) > 0,
    decreases a.len(),
{ if a.len() == 1 { lemma_beval1(a); } else { lemma_beval_pos(a.drop_last()); } }
pub proof fn lemma_decval1(a: Seq<u8>)
    requires a.len() == 1, 0x30 <= a[0],
    ensures decval(a) == a[0] - 0x30,
{ assert(a.drop_last() =~= Seq::<u8>::empty()); assert(decval(a.drop_last()) == 0); }
pub proof fn lemma_decval_pos(a: Seq<u8>)
    requires a.len() > 0, a[0] > 0x30, forall|i: int| 0 <= i < a.len() ==> 0x30 <= #[trigger] a[i] <= 0x39,
    ensures decval(a) > 0,
    decreases a.len(),
{
    if a.len() == 1 { lemma_decval1(a); } else {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies 0x30 <= #[trigger] a.drop_last()[i] <= 0x39 by { assert(a.drop_last()[i] == a[i]); }
        lemma_decval_pos(a.drop_last());
    }
}
pub proof fn lemma_dec_unique(a: Seq<u8>, b: Seq<u8>, v: int)
    requires is_dec_text(a, v), is_dec_text(b, v),
    ensures a == b,
    decreases a.len() + b.len(),
{
    let (x, y) = (a.drop_last(), b.drop_last());
    assert forall|i: int| 0 <= i < x.len() implies 0x30 <= #[trigger] x[i] <= 0x39 by { assert(x[i] == a[i]); }
    assert forall|i: int| 0 <= i < y.len() implies 0x30 <= #[trigger] y[i] <= 0x39 by { assert(y[i] == b[i]); }
    assert(0x30 <= a[a.len() - 1] <= 0x39); assert(0x30 <= b[b.len() - 1] <= 0x39);
    if a.len() == 1 && b.len() == 1 {
        lemma_decval1(a); lemma_decval1(b);
        assert(a =~= b);
    } else if a.len() == 1 {
        lemma_decval1(a); lemma_decval_pos(y);
    } else if b.len() == 1 {
        lemma_decval1(b); lemma_decval_pos(x);
    } else {
        assert(decval(x) * 10 + (a.last() - 0x30) == decval(y) * 10 + (b.last() - 0x30));
        assert(decval(x) == decval(y) && a.last() == b.last());
        assert(x[0] == a[0] && y[0] == b[0]);
        lemma_dec_unique(x, y, decval(x) as int);
        assert(a =~= x.push(a.last())); assert(b =~= y.push(b.last()));
    }
}
pub open spec fn num(v: int) -> Seq<u8> { choose|w: Seq<u8>| is_num_text(w, v) }
pub open spec fn dec(v: int) -> Seq<u8> { choose|w: Seq<u8>| is_dec_text(w, v) }
pub broadcast proof fn lemma_num(w: Seq<u8>, v: int)
    requires #[trigger] is_num_text(w, v),
    ensures w == num(v),
{ lemma_num_unique(w, num(v), v); }
pub broadcast proof fn lemma_dec(w: Seq<u8>, v: int)
    requires #[trigger] is_dec_text(w, v),
    ensures w == dec(v),
{ lemma_dec_unique(w, dec(v), v); }
