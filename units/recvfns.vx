// ---- contract assumed of the `managed` crate: its enum, and indexing through Deref
pub enum ManagedSlice<'a, T> { Borrowed(&'a mut [T]), Owned(Vec<T>) }
impl<'a, T> ManagedSlice<'a, T> {
    pub open spec fn view(&self) -> Seq<T> {
        match self { ManagedSlice::Borrowed(s) => s@, ManagedSlice::Owned(v) => v@ }
    }
    pub open spec fn growable(&self) -> bool { self is Owned }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, i: usize, v: T)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, v), final(self).growable() == old(self).growable(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_deref_mut(&mut self) -> (r: &mut [T])
        ensures r@ == old(self)@, final(self)@ == final(r)@, final(r)@.len() == r@.len(), final(self).growable() == old(self).growable(),
    { unimplemented!() }
}
//@ item src/util/managed_vec.rs CapacityError
//@ item src/util/managed_vec.rs ManagedVec
//@ item src/protocol/recv_packet.rs State
//@ item src/protocol/recv_packet.rs RecvPacketStateMachine

// ---- specification: what is on the wire
// `cur`: bytes of the packet being received; returns the bytes still pending and what is handed out
pub open spec fn has_hash(s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == 0x23 }
// '$' then anything but '#'
pub open spec fn in_body(s: Seq<u8>) -> bool { s.len() >= 1 && s[0] == 0x24 && !has_hash(s.skip(1)) }
pub open spec fn after_hash(s: Seq<u8>, k: nat) -> bool {
    s.len() >= 2 + k && in_body(s.take(s.len() - k - 1)) && s[s.len() - k - 1] == 0x23
}
pub open spec fn is_frame(s: Seq<u8>) -> bool { after_hash(s, 2) || (s.len() == 1 && s[0] != 0x24) }
pub open spec fn frame_step(cur: Seq<u8>, b: u8) -> (Seq<u8>, Option<Seq<u8>>) {
    let n = cur.push(b);
    if is_frame(n) { (Seq::empty(), Some(n)) } else { (n, None) }
}
// everything handed out for a byte stream
pub open spec fn frames(s: Seq<u8>) -> (Seq<u8>, Seq<Seq<u8>>)
    decreases s.len(),
{
    if s.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (cur, out) = frames(s.drop_last());
        let (c2, o) = frame_step(cur, s.last());
        (c2, match o { Some(p) => out.push(p), None => out })
    }
}
pub proof fn lemma_trans(cur: Seq<u8>, b: u8)
    ensures
        cur.len() == 0 ==> (is_frame(cur.push(b)) <==> b != 0x24) && (b == 0x24 ==> in_body(cur.push(b))),
        in_body(cur) ==> !is_frame(cur.push(b)) && (b == 0x23 ==> after_hash(cur.push(b), 0)) && (b != 0x23 ==> in_body(cur.push(b))),
        after_hash(cur, 0) ==> !is_frame(cur.push(b)) && after_hash(cur.push(b), 1),
        after_hash(cur, 1) ==> is_frame(cur.push(b)),
{
    let n = cur.push(b);
    let k = n.len() as int;
    if in_body(cur) {
        assert(n[0] == 0x24);
        assert(n.take(k - 1) =~= cur);
        assert forall|i: int| 1 <= i < cur.len() implies cur[i] != 0x23 by { assert(cur.skip(1)[i - 1] == cur[i]); }
        if after_hash(n, 2) { assert(cur[k - 3] == 0x23); }
        if b != 0x23 {
            assert forall|i: int| 0 <= i < n.skip(1).len() implies n.skip(1)[i] != 0x23 by { if i + 1 < cur.len() { assert(n.skip(1)[i] == cur[i + 1]); } }
        }
    }
    if after_hash(cur, 0) {
        let bd = cur.take(cur.len() - 1);
        assert(n.take(k - 2) =~= bd);
        if after_hash(n, 2) {
            assert(bd[k - 3] == 0x23); assert(bd.skip(1)[k - 4] == 0x23);
        }
    }
    if after_hash(cur, 1) {
        assert(n.take(k - 3) =~= cur.take(cur.len() - 2));
    }
}
// a whole packet on the wire is handed out, whatever is in it
pub proof fn lemma_packet(pre: Seq<u8>, body: Seq<u8>, a: u8, b: u8)
    requires frames(pre).0.len() == 0, !has_hash(body),
    ensures
        frames(pre + seq![0x24u8] + body + seq![0x23u8, a, b]).0.len() == 0,
        frames(pre + seq![0x24u8] + body + seq![0x23u8, a, b]).1 == frames(pre).1.push(seq![0x24u8] + body + seq![0x23u8, a, b]),
{
    lemma_body(pre, body);
    let s0 = pre + seq![0x24u8] + body;
    let c0 = seq![0x24u8] + body;
    assert(c0.skip(1) =~= body);
    let s1 = s0.push(0x23); let s2 = s1.push(a); let s3 = s2.push(b);
    assert(s1.drop_last() =~= s0 && s2.drop_last() =~= s1 && s3.drop_last() =~= s2);
    let c1 = c0.push(0x23); let c2 = c1.push(a); let c3 = c2.push(b);
    lemma_trans(c0, 0x23); lemma_trans(c1, a); lemma_trans(c2, b);
    assert(frames(s1) == (c1, frames(pre).1));
    assert(frames(s2) == (c2, frames(pre).1));
    assert(s3 =~= s0 + seq![0x23u8, a, b]);
    assert(c3 =~= c0 + seq![0x23u8, a, b]);
}
pub proof fn lemma_body(pre: Seq<u8>, body: Seq<u8>)
    requires frames(pre).0.len() == 0, !has_hash(body),
    ensures frames(pre + seq![0x24u8] + body) == (seq![0x24u8] + body, frames(pre).1),
    decreases body.len(),
{
    let s = pre + seq![0x24u8] + body;
    let cur = frames(pre).0;
    if body.len() == 0 {
        assert(s =~= pre.push(0x24));
        assert(s.drop_last() =~= pre);
        lemma_trans(cur, 0x24);
        assert(cur.push(0x24) =~= seq![0x24u8] + body);
    } else {
        let bd = body.drop_last();
        assert forall|i: int| 0 <= i < bd.len() implies bd[i] != 0x23 by { assert(body[i] == bd[i]); }
        lemma_body(pre, bd);
        assert(s.drop_last() =~= pre + seq![0x24u8] + bd);
        let c = seq![0x24u8] + bd;
        assert(c.skip(1) =~= bd);
        assert(body[body.len() - 1] != 0x23);
        lemma_trans(c, body.last());
        assert(c.push(body.last()) =~= seq![0x24u8] + body);
    }
}
// outside a packet every byte but '$' is handed out on its own
pub proof fn lemma_single(pre: Seq<u8>, b: u8)
    requires frames(pre).0.len() == 0, b != 0x24,
    ensures frames(pre.push(b)).0.len() == 0, frames(pre.push(b)).1 == frames(pre).1.push(seq![b]),
{
    assert(pre.push(b).drop_last() =~= pre);
    lemma_trans(frames(pre).0, b);
    assert(frames(pre).0.push(b) =~= seq![b]);
}
// bytes behind the packet are left alone
pub open spec fn rest(b: Seq<u8>, n: nat) -> Seq<u8> { if n <= b.len() { b.skip(n as int) } else { Seq::empty() } }
impl State {
    pub open spec fn of(self, s: Seq<u8>) -> bool {
        match self {
            State::Ready => s.len() == 0,
            State::Body => in_body(s),
            State::Checksum1 => after_hash(s, 0),
            State::Checksum2 => after_hash(s, 1),
        }
    }
}
impl RecvPacketStateMachine {
    pub open spec fn pending(&self, b: Seq<u8>) -> Seq<u8> { b.take(self.idx as int) }
    pub open spec fn wf(&self, b: Seq<u8>) -> bool {
        &&& self.idx <= b.len()
        &&& self.state.of(self.pending(b))
    }
}
impl<'a, 'b, T> ManagedVec<'a, 'b, T> {
    #[verifier::prophetic]
    pub open spec fn same_ref(&self, o: &Self) -> bool { *final(self.buf) == *final(o.buf) }
}
//@ impl src/util/managed_vec.rs ManagedVec<'a, 'b, T>
//@ fn new_with_idx
//@ ret r
//@ spec
    ensures *r.buf == *old(buf), *final(r.buf) == *final(buf), r.len == len,
//@ end
//@ fn push
//@ opt index_set
//@ ret r
//@ spec
    requires old(self).len <= old(self).buf@.len(),
    ensures
        final(self).same_ref(old(self)),
        r is Err <==> old(self).len == old(self).buf@.len() && !old(self).buf.growable(),
        r is Err ==> final(self).buf@ == old(self).buf@,
        r is Ok && old(self).len < old(self).buf@.len() ==> final(self).buf@ == old(self).buf@.update(old(self).len as int, value),
        r is Ok && old(self).len == old(self).buf@.len() ==> final(self).buf@ == old(self).buf@.push(value),
        final(self).buf.growable() == old(self).buf.growable(),
//@ end
//@ endimpl
//@ impl src/protocol/recv_packet.rs RecvPacketStateMachine
//@ fn new
//@ ret r
//@ spec
    ensures r.idx == 0 && r.state is Ready, forall|b: Seq<u8>| #[trigger] r.wf(b) && r.pending(b) == Seq::<u8>::empty(),
//@ end
//@ fn pump
//@ subst Ok (Some (packet_buffer ) ) => Ok(Some(packet_buffer.vx_deref_mut()))
//@ ret r
//@ spec
    requires old(self).wf(old(packet_buffer)@), old(packet_buffer)@.len() < usize::MAX,
    ensures ({
        let cur = old(self).pending(old(packet_buffer)@);
        let st = frame_step(cur, byte);
        let n = cur.push(byte);
        let full = cur.len() == old(packet_buffer)@.len() && !old(packet_buffer).growable();
        &&& (r is Err <==> full)
        &&& (r matches Ok(None) ==> st.1 is None && final(self).wf(final(packet_buffer)@) && final(self).pending(final(packet_buffer)@) == st.0 && rest(final(packet_buffer)@, n.len()) == rest(old(packet_buffer)@, n.len()))
        &&& (r matches Ok(Some(b)) ==> st.1 is Some && final(self).state is Ready && final(self).idx == 0 && n.len() <= b@.len() && b@.take(n.len() as int) == n && st.1 == Some(n)
            && rest(b@, n.len()) == rest(old(packet_buffer)@, n.len()) && final(packet_buffer)@ == final(b)@)
        &&& (r is Err ==> final(packet_buffer)@ == old(packet_buffer)@)
        &&& final(packet_buffer).growable() == old(packet_buffer).growable()
        &&& !old(packet_buffer).growable() ==> (r matches Ok(Some(b)) ==> b@.len() == old(packet_buffer)@.len() && final(b)@.len() == b@.len()) && (r matches Ok(None) ==> final(packet_buffer)@.len() == old(packet_buffer)@.len())
    }),
//@ at start
    let ghost b0 = packet_buffer@;
    let ghost cur = b0.take(self.idx as int);
    proof { lemma_trans(cur, byte); }
//@ at before:self.idx += 1
    proof {
        let n = cur.push(byte);
        assert(buf.buf@.take(self.idx + 1) =~= n);
        assert(rest(buf.buf@, n.len()) =~= rest(b0, n.len()));
        assert(buf.buf@.take(0) =~= Seq::<u8>::empty());
    }
//@ end
//@ endimpl
