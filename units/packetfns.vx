// `$body#hh...`: the body of a well-formed packet
pub open spec fn pkt_body(s: Seq<u8>) -> Option<Seq<u8>> {
    let (body, rest) = cut(s.skip(1), 0x23);
    match rest {
        None => None,
        Some(t) => {
            let cs = cut(t, 0x23).0;
            if cs.len() >= 2 && all_hex(cs.take(2)) && hexnum(cs.take(2)) == sum8(body) as nat { Some(body) } else { None }
        }
    }
}
//@ item src/protocol/packet.rs PacketBuf
impl<'a> PacketBuf<'a> {
    pub open spec fn wf(&self) -> bool { self.body_range.start <= self.body_range.end <= self.buf@.len() <= usize::MAX }
    pub open spec fn start(&self) -> int { self.body_range.start as int }
    pub open spec fn raw(&self) -> Seq<u8> { self.buf@ }
    pub open spec fn body(&self) -> Seq<u8> { self.buf@.subrange(self.body_range.start as int, self.body_range.end as int) }
    #[verifier::prophetic]
    pub open spec fn same_buf(&self, o: &Self) -> bool { self.buf@ == o.buf@ && final(self.buf)@ == final(o.buf)@ }
}
//@ impl src/protocol/packet.rs PacketBuf<'a>
//@ fn new
//@ ret r
//@ spec
    ensures
        old(pkt_buf)@.len() == 0 ==> r is Err,
        old(pkt_buf)@.len() > 0 ==> (r is Ok <==> pkt_body(old(pkt_buf)@) is Some),
        r is Ok ==> (r->Ok_0).wf() && (r->Ok_0).buf@ == old(pkt_buf)@,
        r is Ok ==> pkt_body(old(pkt_buf)@) == Some((r->Ok_0).body()),
        r is Ok ==> (r->Ok_0).start() == 1,
        r is Ok ==> final(r->Ok_0.buf)@ == final(pkt_buf)@,
        r is Err && old(pkt_buf)@.len() > 0 ==> !(r->Err_0 is EmptyBuf || r->Err_0 is MalformedCommand || r->Err_0 is UnexpectedHeader),
//@ loop 0 it
    invariant
        it.seq().len() == body@.len(), forall|i: int| 0 <= i < body@.len() ==> *#[trigger] it.seq()[i] == body@[i],
        a == sum8(body@.take(it.index@)),
//@ at loop0.start
    let ghost i = it.index@;
    proof { assert(body@.take(i + 1).drop_last() =~= body@.take(i)); }
//@ at loop0.after
    proof { assert(body@.take(body@.len() as int) =~= body@); }
//@ at before:let calculated
    let ghost s0 = pkt_buf@;
    proof {
        lemma_find2(s0.skip(1), 0x23, 0x23);
        assert(vstd::slice::spec_slice_len(pkt_buf) == s0.len());
        assert(body@.len() < s0.skip(1).len());
        assert(s0.subrange(1, body@.len() as int + 1) =~= body@);
    }
//@ end
//@ fn strip_prefix
//@ subst self . body_range . clone () => vx_range_clone(&self.body_range)
//@ subst body . starts_with => body.vx_starts_with
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_buf(old(self)),
        r == prefix@.is_prefix_of(old(self).body()),
        final(self).start() == old(self).start() + (if r { prefix@.len() as int } else { 0 }),
        r ==> final(self).body() == old(self).body().skip(prefix@.len() as int),
        !r ==> final(self).body() == old(self).body(),
//@ at start
    let ghost raw = self.buf@;
    let ghost b0 = self.body();
    let ghost l = self.body_range.start as int;
    let ghost h = self.body_range.end as int;
//@ at before:if body
    proof {
        assert(body@ =~= b0);
        if prefix@.is_prefix_of(b0) { assert(raw.subrange(l + prefix@.len(), h) =~= b0.skip(prefix@.len() as int)); }
        assert(raw.take(l) + b0 + raw.skip(h) =~= raw);
    }
//@ end
//@ fn into_body
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@ == self.body(),
        // everything outside the body stays as it is
        final(self.buf)@ == self.raw().take(self.body_range.start as int) + final(r)@ + self.raw().skip(self.body_range.end as int),
//@ end
//@ fn into_raw_buf
//@ ret r
//@ spec
    ensures r.0@ == self.raw(), r.1 == self.body_range, final(r.0)@ == final(self.buf)@,
//@ end
//@ fn full_len
//@ ret r
//@ spec
    ensures r == self.raw().len(),
//@ end
//@ endimpl
