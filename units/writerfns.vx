// num_traits::one() / PrimInt::is_zero at the only type write_dec is instantiated with
//@ opaque
pub open spec fn is_id_text(t: Seq<u8>, k: SpecificIdKind) -> bool {
    match k {
        SpecificIdKind::All => t == seq![0x2du8, 0x31u8],
        SpecificIdKind::WithId(id) => exists|w: Seq<u8>| #[trigger] is_num_text(w, id@ as int) && t == hexs(w),
    }
}
//@ opaque
pub open spec fn is_tid_text(t: Seq<u8>, k: SpecificThreadId) -> bool {
    match k.pid {
        None => is_id_text(t, k.tid),
        Some(p) => exists|a: Seq<u8>, b: Seq<u8>| #[trigger] is_id_text(a, p) && #[trigger] is_id_text(b, k.tid) && t == seq![0x70u8] + a + seq![0x2eu8] + b,
    }
}
pub fn one() -> (r: usize) ensures r == 1 { 1 }
//@ each T N = usize 8 ; u8 1 ; u32 4 ; u64 8
impl VxInt for @T@ {
    open spec fn val(self) -> int { self as int }
    open spec fn maxv() -> int { @T@::MAX as int }
}
impl PrimInt for @T@ {
    fn is_zero(&self) -> (r: bool) { *self == 0 }
}
impl BeBytes for @T@ {
    open spec fn nbytes() -> nat { @N@ }
    uninterp spec fn be(self) -> Seq<u8>;
    open spec fn uval(self) -> nat { self as nat }
    axiom fn be_axiom(self);
    #[verifier::external_body]
    fn to_be_bytes(self, buf: &mut [u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from_be_bytes(buf: &[u8]) -> (r: Option<Self>) { unimplemented!() }
}
//@ endeach
//@ subst rle_char : u8 , => rle_char: u8, pub base: Ghost<Seq<u8>>, pub msg: Ghost<Seq<u8>>,
//@ subst rle_char : 0 , => rle_char: 0, base: Ghost(inner_out), msg: Ghost(Seq::empty()),
//@ item src/protocol/response_writer.rs Error
//@ item src/protocol/response_writer.rs ResponseWriter

impl<'a, C: Connection> ResponseWriter<'a, C> {
    // what the connection had carried when (or, before it is written: just before) this packet starts
    pub open spec fn start(&self) -> Seq<u8> { if self.started { self.base@ } else { self.inner.out() } }
    // bytes sent after the '$'
    pub open spec fn sent(&self) -> Seq<u8> {
        if self.started { self.inner.out().skip(self.base@.len() as int + 1) } else { Seq::empty() }
    }
    // the connection has failed: nothing is known of what it carries
    pub open spec fn dead(&self) -> bool { self.inner.broken() }
//@ opaque
    pub open spec fn raw_wf(&self) -> bool {
        ||| self.dead()
        ||| {
            &&& self.started ==> self.inner.out() == self.base@ + seq![0x24u8] + self.sent() && self.sent().len() > 0
            &&& self.checksum == sum8(self.sent())
        }
    }
    // the logical payload `msg` is what the client decodes, plus at most one pending run
//@ opaque
    pub open spec fn wf(&self) -> bool {
        &&& self.raw_wf()
        &&& self.rle_enabled ==> self.rle_repeat <= 98
        &&& {
            ||| self.dead()
            ||| {
                &&& !self.rle_enabled ==> self.sent() == self.msg@
                &&& self.rle_enabled ==> {
                    &&& self.msg@ == rl(self.sent()).d + rep(self.rle_char, self.rle_repeat as nat)
                    &&& !rl(self.sent()).star && rl(self.sent()).ok
                    &&& self.rle_repeat == 0 ==> self.msg@.len() == 0
                    &&& self.rle_repeat > 0 ==> self.rle_char != 0x2a
                    &&& clean(rl(self.sent()).d) ==> clean(self.sent())
                }
            }
        }
    }
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool {
        // (the connection reference itself is never swapped out)
        (self.dead() || self.start() == o.start()) && self.rle_enabled == o.rle_enabled && (o.dead() ==> self.dead()) && *final(self.inner) == *final(o.inner)
    }
    // `s` can be sent through this writer
    pub open spec fn ok_to_send(&self, s: Seq<u8>) -> bool { self.rle_enabled ==> nostar(s) }
}

//@ impl src/protocol/response_writer.rs ResponseWriter<'a, C> ==> impl<'a, C: Connection> ResponseWriter<'a, C>
//@ fn new
//@ ret r
//@ spec
    ensures r.wf(), r.rle_enabled == rle_enabled, r.msg@ == Seq::<u8>::empty(), r.start() == old(inner).out(), !r.started, *final(r.inner) == *final(inner), r.dead() == old(inner).broken(),
//@ at start
    let ghost inner_out = inner.out();
    proof { assert(rep(0, 0) =~= Seq::<u8>::empty()); }
//@ end
//@ fn as_conn
//@ ret r
//@ spec
    ensures
        *r == *old(self).inner, *final(r) == *final(self).inner, *final(final(self).inner) == *final(old(self).inner),
        *final(self) == (ResponseWriter { inner: final(self).inner, ..*old(self) }),
//@ end
//@ fn inner_write
//@ ret r
//@ spec
    requires old(self).raw_wf(),
    ensures
        final(self).raw_wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok && !old(self).dead() ==> final(self).sent() == old(self).sent().push(byte) && rl(final(self).sent()) == rl_step(rl(old(self).sent()), byte),
        final(self).same(old(self)), final(self).msg == old(self).msg,
        final(self).rle_char == old(self).rle_char, final(self).rle_repeat == old(self).rle_repeat,
//@ at start
    broadcast use {lemma_rl_push, lemma_sum_push};
    let ghost o = *self;
    proof {
        if !self.started { self.base@ = self.inner.out(); }
        let b = self.base@;
        assert forall|x: Seq<u8>, y: u8| #[trigger] (b + seq![0x24u8] + x).push(y) =~= b + seq![0x24u8] + x.push(y) by {}
        assert forall|x: Seq<u8>| (#[trigger] (b + seq![0x24u8] + x)).skip(b.len() as int + 1) =~= x by {}
        assert(b.push(0x24u8) =~= b + seq![0x24u8] + Seq::<u8>::empty());
    }
//@ end
//@ fn write
//@ attr #[verifier::rlimit(100)]
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec
    requires old(self).wf(), old(self).ok_to_send(seq![byte]),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> final(self).msg@ == old(self).msg@.push(byte),
        final(self).same(old(self)),
        r is Ok && old(self).rle_enabled ==> final(self).rle_char == byte && final(self).rle_repeat >= 1,
        // a run only stays pending while it repeats ...
        r is Ok && old(self).rle_enabled && (byte != old(self).rle_char || old(self).rle_repeat == 0) ==> final(self).rle_char == byte && final(self).rle_repeat == 1,
        r is Ok && old(self).rle_enabled && byte == old(self).rle_char && old(self).rle_repeat == 1 ==> final(self).rle_repeat == 2 && (old(self).dead() || final(self).sent() == old(self).sent()),
        // ... and is too short to be worth encoding below 4 copies
        r is Ok && old(self).rle_enabled && old(self).rle_repeat <= 3 && byte != old(self).rle_char
            ==> old(self).dead() || final(self).sent() == old(self).sent() + rep(old(self).rle_char, old(self).rle_repeat as nat),
//@ at start
    broadcast use {lemma_rl_push, lemma_sum_push};
    let ghost o = *self;
    proof { self.msg@ = self.msg@.push(byte); assert(seq![byte][0] == byte); }
//@ at loop0.before
    proof { assert(byte != 0x2a); }
//@ loop 0
    invariant
        self.raw_wf(), self.same(&o), self.rle_enabled, self.dead() == old(self).dead(), o.dead() == old(self).dead(),
        self.msg@ == o.msg@.push(byte),
        self.rle_char == o.rle_char,
        self.dead() || o.msg@ == rl(self.sent()).d + rep(self.rle_char, self.rle_repeat as nat),
        self.dead() || !rl(self.sent()).star && rl(self.sent()).ok,
        o.rle_repeat > 3 || self.rle_repeat == o.rle_repeat && (self.dead() || self.sent() == o.sent()),
        self.dead() || (clean(rl(self.sent()).d) ==> clean(self.sent())), nostar(seq![byte]), o.wf(), byte != 0x2a,
        o.msg == old(self).msg, o.sent() == old(self).sent(), o.start() == old(self).start(), o.rle_char == old(self).rle_char, o.rle_repeat == old(self).rle_repeat, o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner), old(self).wf(),
        self.rle_repeat <= o.rle_repeat <= 98, byte != o.rle_char || o.rle_repeat > 3,
    decreases self.rle_repeat,
//@ at loop0.start
    let ghost p = *self;
    proof {
        lemma_rep(self.rle_char, self.rle_repeat as nat);
    }
//@ at loop1.before
    proof { lemma_rep(p.rle_char, 0); assert(rl(p.sent()).d + Seq::<u8>::empty() =~= rl(p.sent()).d); assert(p.sent() + Seq::<u8>::empty() =~= p.sent()); }
//@ at loop1.start
    proof {
        lemma_rep(p.rle_char, (it.index@ + 1) as nat);
        lemma_clean_push(rl(self.sent()).d, p.rle_char);
        lemma_clean_push(self.sent(), p.rle_char);
        assert(p.sent() + rep(p.rle_char, (it.index@ + 1) as nat) =~= (p.sent() + rep(p.rle_char, it.index@ as nat)).push(p.rle_char));
        assert(rl(p.sent()).d + rep(p.rle_char, (it.index@ + 1) as nat) =~= (rl(p.sent()).d + rep(p.rle_char, it.index@ as nat)).push(p.rle_char));
    }
//@ loop 1 it
    invariant
        o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner), o.start() == old(self).start(), self.dead() || self.rle_char != 0x2a,
        self.raw_wf(), self.same(&o), self.rle_enabled, self.msg@ == o.msg@.push(byte),
        self.rle_char == p.rle_char, self.rle_repeat == p.rle_repeat,
        self.dead() == old(self).dead(), self.rle_repeat <= 98,
        self.dead() || {
            &&& self.sent() == p.sent() + rep(p.rle_char, it.index@ as nat)
            &&& rl(self.sent()).d == rl(p.sent()).d + rep(p.rle_char, it.index@ as nat)
            &&& clean(rl(self.sent()).d) ==> clean(self.sent())
            &&& !rl(self.sent()).star && rl(self.sent()).ok
        },
//@ at before:self.rle_repeat += 1
    proof {
        lemma_rep(self.rle_char, (self.rle_repeat + 1) as nat);
        if !self.dead() { assert(rl(self.sent()).d + rep(self.rle_char, (self.rle_repeat + 1) as nat) =~= self.msg@); }
    }
//@ at before:continue
    proof { if !self.dead() { lemma_clean_push(rl(p.sent()).d, p.rle_char); assert(rl(self.sent()).d + rep(self.rle_char, self.rle_repeat as nat) =~= o.msg@); } }
//@ at before:self.rle_char = byte
    proof {
        lemma_rep(byte, 1);
        if p.rle_repeat >= 4 {
            let k = p.rle_repeat;
            if !self.dead() { assert(rl(self.sent()).d =~= rl(p.sent()).d + rep(p.rle_char, k as nat)); }
        }
        if !self.dead() { assert(rl(self.sent()).d =~= o.msg@); 
        assert(rl(self.sent()).d + rep(byte, 1) =~= o.msg@.push(byte));
        if clean(o.msg@) { lemma_clean_app(rl(p.sent()).d, rep(p.rle_char, p.rle_repeat as nat)); } }
    }
//@ end
//@ fn write_hex
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> final(self).msg@ == old(self).msg@ + hex2(byte),
        final(self).same(old(self)),
        // both digits stay unencoded when they follow a '#'
        r is Ok && !old(self).dead() && old(self).rle_enabled && old(self).rle_char == 0x23 && old(self).rle_repeat == 1
            ==> final(self).rle_repeat <= 2 && 
                final(self).sent() + rep(final(self).rle_char, final(self).rle_repeat as nat) == old(self).sent() + seq![0x23u8] + hex2(byte)
                && final(self).rle_char != 0 && final(self).rle_repeat >= 1,
//@ at start
    let ghost o = *self;
    let ghost c0 = hexdigit(byte / 16);
    let ghost c1 = hexdigit(byte % 16);
    proof {
        lemma_nibbles(byte);
        lemma_rep(0x23, 1);
        lemma_rep(0x23, 0);
    }
//@ at loop0.before
    proof { assert(hex2(byte).take(0) =~= Seq::<u8>::empty()); assert(o.msg@ + Seq::<u8>::empty() =~= o.msg@); }
//@ loop 0 it
    invariant
        it.seq().len() == 2, *it.seq()[0] == byte / 16, *it.seq()[1] == byte % 16, 
        o.msg == old(self).msg, o.start() == old(self).start(), o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner),
        self.wf(), self.same(&o), self.dead() == o.dead(), o.dead() == old(self).dead(), self.msg@ == o.msg@ + hex2(byte).take(it.index@ as int),
        c0 == hexdigit(byte / 16), c1 == hexdigit(byte % 16),
        o.rle_enabled && o.rle_char == 0x23 && o.rle_repeat == 1 ==> {
            &&& it.index@ == 0 ==> *self == o
            &&& it.index@ == 1 ==> self.rle_repeat == 1 && self.rle_char == c0 && (self.dead() || self.sent() == o.sent().push(0x23))
            &&& it.index@ == 2 && c0 == c1 ==> self.rle_repeat == 2 && self.rle_char == c1 && (self.dead() || self.sent() == o.sent().push(0x23))
            &&& it.index@ == 2 && c0 != c1 ==> self.rle_repeat == 1 && self.rle_char == c1 && (self.dead() || self.sent() == o.sent().push(0x23).push(c0))
        },
//@ at loop0.start
    let ghost p = *self;
    proof {
        let k = it.index@ as int;
        assert(hex2(byte).take(k + 1) =~= hex2(byte).take(k).push(hex2(byte)[k]));
        lemma_rep(p.rle_char, p.rle_repeat as nat);
        if p.rle_repeat == 1 { lemma_rep(p.rle_char, 0); assert(rep(p.rle_char, 1) =~= seq![p.rle_char]); assert(p.sent() + seq![p.rle_char] =~= p.sent().push(p.rle_char)); }
        assert((o.msg@ + hex2(byte).take(k)).push(hex2(byte)[k]) =~= o.msg@ + hex2(byte).take(k).push(hex2(byte)[k]));
    }
//@ at end
    proof {
        assert(hex2(byte).take(2) =~= hex2(byte));
        lemma_rep(c1, 1); lemma_rep(c1, 2); lemma_rep(c1, 0);
        assert(o.sent().push(0x23).push(c0) + rep(c1, 1) =~= o.sent() + seq![0x23u8] + hex2(byte));
        if c0 == c1 { assert(o.sent().push(0x23) + rep(c1, 2) =~= o.sent() + seq![0x23u8] + hex2(byte)); }
    }
//@ end
//@ fn flush
//@ attr #[verifier::rlimit(50)]
//@ ret r
//@ spec
    requires self.wf(), self.ok_to_send(self.msg@), clean(self.msg@),
    ensures
        r is Ok && !self.dead() ==> self.start().is_prefix_of(final(self.inner).out()),
        r is Ok && !self.dead() ==> is_packet(final(self.inner).out().skip(self.start().len() as int), self.msg@, self.rle_enabled),
        final(self.inner).broken() == (self.dead() || r is Err), r is Ok ==> final(self.inner).flushed(),
//@ at start
    let ghost o = self;
    proof {
        lemma_rep(o.rle_char, o.rle_repeat as nat);
        if !o.dead() && o.rle_enabled && o.rle_repeat > 0 { assert(o.msg@.last() == o.rle_char); }
        lemma_rep(0x23, 1); lemma_rep(0x23, 0);
    }
//@ at after:let checksum = if
    let ghost body = if o.rle_enabled { vx_self.sent() } else { o.sent() };
    proof {
        if !o.dead() {
        if o.rle_enabled {
            assert(rl(body).d =~= o.msg@) by { assert((rl(body).d + rep(0x23, 1)).drop_last() =~= rl(body).d); assert(o.msg@.push(0x23).drop_last() =~= o.msg@); }
        } else {
            assert(vx_self.sent() =~= body + seq![0x23u8]);
        }
        assert(checksum == sum8(body));
        }
    }
    let ghost q = vx_self;
//@ at before:vx_self.inner.flush()
    proof {
        if !o.dead() {
        assert(vx_self.sent() =~= body + seq![0x23u8] + hex2(checksum));
        assert(vx_self.started) by { if !vx_self.started { assert(vx_self.sent().len() == 0); } }
        let p = vx_self.inner.out().skip(o.start().len() as int);
        assert(p =~= seq![0x24u8] + body + seq![0x23u8] + hex2(sum8(body)));
        assert(packet_of(p, body));
        assert(o.start().is_prefix_of(vx_self.inner.out()));
        }
    }
    let ghost fin = vx_self.inner.out();
//@ at end
    proof { if !o.dead() { assert(vx_self.inner.out() == fin); } }
//@ end
//@ fn write_str
//@ ret r
//@ spec
    requires old(self).wf(), old(self).ok_to_send(s.spec_bytes()),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> final(self).msg@ == old(self).msg@ + s.spec_bytes(),
        final(self).same(old(self)),
//@ at start
    let ghost o = *self;
    proof { assert(o.msg@ + s.spec_bytes().take(0) =~= o.msg@); }
//@ loop 0 it
    invariant
        it.seq().len() == s.spec_bytes().len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == s.spec_bytes()[j],
        o.rle_enabled ==> nostar(s.spec_bytes()),
        self.wf(), self.same(&o), self.dead() == o.dead(), o.dead() == old(self).dead(), o.msg == old(self).msg, o.start() == old(self).start(), o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner),
        self.msg@ == o.msg@ + s.spec_bytes().take(it.index@ as int),
//@ at loop0.start
    proof {
        let k = it.index@ as int;
        assert(o.msg@ + s.spec_bytes().take(k + 1) =~= (o.msg@ + s.spec_bytes().take(k)).push(s.spec_bytes()[k]));
        assert(*b == s.spec_bytes()[k]);
    }
//@ at end
    proof { assert(s.spec_bytes().take(s.spec_bytes().len() as int) =~= s.spec_bytes()); }
//@ end
//@ fn write_hex_buf
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> final(self).msg@ == old(self).msg@ + hexs(data@),
        final(self).same(old(self)),
//@ at start
    let ghost o = *self;
    proof { assert(o.msg@ + hexs(data@.take(0)) =~= o.msg@); }
//@ loop 0 it
    invariant
        it.seq().len() == data@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == data@[j],
        self.wf(), self.same(&o), self.dead() == o.dead(), o.dead() == old(self).dead(), o.msg == old(self).msg, o.start() == old(self).start(), o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner),
        self.msg@ == o.msg@ + hexs(data@.take(it.index@ as int)),
//@ at loop0.start
    proof {
        let k = it.index@ as int;
        assert(data@.take(k + 1).drop_last() =~= data@.take(k));
        assert(o.msg@ + hexs(data@.take(k + 1)) =~= (o.msg@ + hexs(data@.take(k))) + hex2(data@[k]));
    }
//@ at end
    proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ end
//@ fn write_binary
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> final(self).msg@ == old(self).msg@ + escs(data@),
        final(self).same(old(self)),
//@ at start
    let ghost o = *self;
    proof { assert(o.msg@ + escs(data@.take(0)) =~= o.msg@); lemma_esc(); }
//@ loop 0 it
    invariant
        it.seq().len() == data@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == data@[j],
        self.wf(), self.same(&o), self.dead() == o.dead(), o.dead() == old(self).dead(), o.msg == old(self).msg, o.start() == old(self).start(), o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner),
        self.msg@ == o.msg@ + escs(data@.take(it.index@ as int)),
//@ at loop0.start
    proof {
        lemma_esc();
        let k = it.index@ as int;
        let b = data@[k];
        assert(data@.take(k + 1).drop_last() =~= data@.take(k));
        assert(o.msg@ + escs(data@.take(k + 1)) =~= (o.msg@ + escs(data@.take(k))) + esc1(b));
        assert((o.msg@ + escs(data@.take(k))) + seq![b] =~= (o.msg@ + escs(data@.take(k))).push(b));
        assert((o.msg@ + escs(data@.take(k))) + seq![0x7du8, b ^ 0x20] =~= (o.msg@ + escs(data@.take(k))).push(0x7d).push(b ^ 0x20));
    }
//@ at end
    proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ end
//@ fn write_num
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok && digit.val() >= 0 ==> exists|w: Seq<u8>| #[trigger] is_num_text(w, digit.val()) && final(self).msg@ == old(self).msg@ + hexs(w),
        final(self).same(old(self)),
//@ at start
    let ghost o = *self;
    let ghost d = digit.be();
    let ghost mut z: int = 0; // leading zero bytes skipped so far
    proof {
        digit.be_axiom();
        assert(beval(seq![0u8]) == 0) by { assert(seq![0u8].drop_last() =~= Seq::<u8>::empty()); assert(beval(Seq::<u8>::empty()) == 0); }
        assert(hexs(seq![0u8]) =~= hex2(0)) by { let e = Seq::<u8>::empty(); assert(seq![0u8].drop_last() =~= e); assert(hexs(e) =~= e); assert(hexs(seq![0u8]) == hexs(seq![0u8].drop_last()) + hex2(0)); }
        assert(is_num_text(seq![0u8], 0));
    }
//@ at loop0.before
    proof { assert(buf@ =~= d); assert(o.msg@ + hexs(d.subrange(0, 0)) =~= o.msg@); }
//@ loop 0 it
    invariant
        it.seq().len() == d.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == d[j],
        self.wf(), self.same(&o), self.dead() == o.dead(), o.dead() == old(self).dead(), o.msg == old(self).msg, o.start() == old(self).start(), o.rle_enabled == old(self).rle_enabled, *final(o.inner) == *final(old(self).inner),
        0 <= z <= it.index@,
        forall|j: int| 0 <= j < z ==> d[j] == 0,
        vx_skip1 <==> z == it.index@,
        !vx_skip1 ==> d[z] != 0,
        self.msg@ == o.msg@ + hexs(d.subrange(z, it.index@ as int)),
//@ at loop0.start
    proof {
        let k = it.index@ as int;
        if vx_skip1 && d[k] == 0 {
            z = k + 1;
            assert(d.subrange(k, k) =~= d.subrange(k + 1, k + 1));
        } else {
            assert(d.subrange(z, k + 1).drop_last() =~= d.subrange(z, k));
            assert(o.msg@ + hexs(d.subrange(z, k + 1)) =~= (o.msg@ + hexs(d.subrange(z, k))) + hex2(d[k]));
        }
    }
//@ at end
    proof {
        let n = d.len() as int;
        if digit.val() >= 0 {
            lemma_beval_zeros(d, z);
            let w = d.subrange(z, n);
            assert(d.skip(z) =~= w);
            if z == n { assert(w.len() == 0); assert(beval(w) == 0); }
            assert(is_num_text(w, digit.val()));
        }
    }
//@ end
//@ fn write_dec
//@ attr #[verifier::rlimit(60)]
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::loop_isolation(false)]
//@ opt generics=
//@ opt nowhere
//@ subst : D => : usize
//@ subst in 0 .. 4 => in 0 .. 4usize
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> exists|w: Seq<u8>| #[trigger] is_dec_text(w, digit as int) && final(self).msg@ == old(self).msg@ + w,
        final(self).same(old(self)),
//@ at start
    let ghost o = *self;
    let ghost n0 = digit as nat;
    let ghost mut w: Seq<u8> = Seq::empty();
    proof {
        assert(o.msg@.push(0x30) =~= o.msg@ + seq![0x30u8]);
        lemma_decval_push(Seq::empty(), 0x30); assert(Seq::<u8>::empty().push(0x30u8) =~= seq![0x30u8]);
        assert(is_dec_text(seq![0x30u8], 0));
        assert(o.msg@ + w =~= o.msg@);
    }
//@ at before:let ten =
    proof { assert((1usize << 3) == 8 && (1usize << 1) == 2) by (bit_vector); }
//@ loop 0
    invariant
        ten == 10, digit == n0, n0 > 0, pow_10 >= 1, is_pow10(pow_10 as nat), pow_10 <= digit, d == digit / pow_10, digit == o_digit,
    decreases d,
//@ at loop0.before
    let ghost o_digit = digit;
    proof { assert(digit / 1 == digit); }
//@ at loop0.start
    proof { lemma_pow10_step(digit as nat, pow_10 as nat, d as nat); }
    let ghost p0 = pow_10;
//@ at loop1.before
    proof {
        lemma_digit_bound(digit as nat, pow_10 as nat, d as nat);
    }
    let ghost mut pp: nat = (pow_10 * 10) as nat;
    proof { assert(decval(w) == 0); assert(decval(w) * pp == 0) by (nonlinear_arith) requires decval(w) == 0; }
//@ loop 1
    invariant
        one == 1, ten == 10,
        self.wf(), self.same(&o), self.dead() == o.dead(), o.dead() == old(self).dead(),
        pp == (if pow_10 > 0 { (pow_10 * 10) as nat } else { 1 }),
        n0 == decval(w) * pp + digit,
        digit < pp,
        pow_10 == 0 || is_pow10(pow_10 as nat),
        w.len() == 0 ==> pow_10 > 0 && digit >= pow_10,
        w.len() > 0 ==> w[0] != 0x30,
        forall|i: int| 0 <= i < w.len() ==> 0x30 <= #[trigger] w[i] <= 0x39,
        self.msg@ == o.msg@ + w,
    decreases pow_10,
//@ at loop1.start
    let ghost q = (digit / pow_10) as usize;
    proof {
        lemma_digit_split(digit as nat, pow_10 as nat);
        lemma_bits(q);
    }
//@ loop 2
    invariant
        byte as int == (if i == 0 { 0 } else if i == 1 { q as int % 2 } else if i == 2 { q as int % 4 } else if i == 3 { q as int % 8 } else { q as int }),
        0 <= i <= 4,
//@ at loop2.start
    proof { lemma_bits(q); }
//@ at before:self.write(b'0' + byte)
    proof { assert(byte as int == q); lemma_nostar1((0x30 + byte) as u8); }
//@ at before:digit = digit % pow_10
    proof {
        let w2 = w.push((0x30 + byte) as u8);
        lemma_decval_push(w, (0x30 + byte) as u8);
        lemma_dec_step(decval(w), pow_10 as nat, digit as nat, n0);
        assert(o.msg@ + w2 =~= (o.msg@ + w).push((0x30 + byte) as u8));
        if w.len() == 0 { lemma_digit_nonzero(digit as nat, pow_10 as nat); }
        w = w2;
        pp = pow_10 as nat;
        assert(w2[0] == (if w2.len() == 1 { (0x30 + byte) as u8 } else { w2[0] }));
        if pow_10 > 1 { assert(pow_10 / 10 * 10 == pow_10); assert(is_pow10((pow_10 / 10) as nat)); }
    }
//@ at end
    proof { assert(decval(w) * 1 == decval(w)); assert(is_dec_text(w, n0 as int)); }
//@ end
//@ fn write_specific_id_kind
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> exists|t: Seq<u8>| #[trigger] is_id_text(t, tid) && final(self).msg@ == old(self).msg@ + t,
        final(self).same(old(self)),
//@ at start
    let ghost o = *self;
    proof {
        lemma_minus1(); lemma_rep(0, 0);
        assert(tid is All ==> is_id_text(seq![0x2du8, 0x31u8], tid));
        assert forall|w: Seq<u8>, v: int| #[trigger] is_num_text(w, v) && (tid matches SpecificIdKind::WithId(id) && id@ == v) implies is_id_text(hexs(w), tid) by {}
    }
//@ end
//@ fn write_specific_thread_id
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).dead() == (old(self).dead() || r is Err),
        r is Ok ==> exists|t: Seq<u8>| #[trigger] is_tid_text(t, tid) && final(self).msg@ == old(self).msg@ + t,
        final(self).same(old(self)),
//@ at start
    hide(ResponseWriter::wf);
    hide(is_id_text);
    let ghost o = *self;
    let ghost mut pre: Seq<u8> = Seq::empty();
    proof { lemma_tid_lits(); assert(o.msg@ + pre =~= o.msg@); }
//@ at after:self.write_specific_id_kind(pid)
    proof { pre = choose|a: Seq<u8>| #[trigger] is_id_text(a, pid) && self.msg@ == o.msg@ + seq![0x70u8] + a; }
//@ at before:self.write_specific_id_kind(tid.tid)
    let ghost m = *self;
//@ at end
    proof {
        let b = choose|b: Seq<u8>| #[trigger] is_id_text(b, tid.tid) && self.msg@ == m.msg@ + b;
        if tid.pid is Some {
            let t = seq![0x70u8] + pre + seq![0x2eu8] + b;
            assert(is_tid_text(t, tid));
            assert(self.msg@ =~= o.msg@ + t);
        } else {
            assert(is_tid_text(b, tid));
        }
    }
//@ end
//@ endimpl
//@ proofonly
pub proof fn lemma_minus1()
    ensures "-1".spec_bytes() == seq![0x2du8, 0x31u8], nostar("-1".spec_bytes()),
{
    reveal_strlit("-1"); lemma_ascii("-1");
    assert("-1".spec_bytes() =~= seq![0x2du8, 0x31u8]);
}
pub proof fn lemma_tid_lits()
    ensures "p".spec_bytes() == seq![0x70u8], ".".spec_bytes() == seq![0x2eu8],
{
    reveal_strlit("p"); reveal_strlit("."); lemma_ascii("p"); lemma_ascii(".");
    assert("p".spec_bytes() =~= seq![0x70u8]);
    assert(".".spec_bytes() =~= seq![0x2eu8]);
}
pub proof fn lemma_nostar1(b: u8)
    requires b != 0x2a,
    ensures nostar(seq![b]),
{}
pub proof fn lemma_pow10_step(n: nat, p: nat, d: nat)
    requires d == n / p, d >= 10, p >= 1, is_pow10(p),
    ensures p * 10 <= n, n / (p * 10) == d / 10, is_pow10(p * 10),
{
    assert(p * 10 <= n) by (nonlinear_arith) requires d == n / p, d >= 10, p >= 1;
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, p as int, 10);
    assert((p * 10) % 10 == 0 && (p * 10) / 10 == p);
}
pub proof fn lemma_digit_bound(n: nat, p: nat, d: nat)
    requires d == n / p, d < 10, p >= 1,
    ensures n < p * 10,
{
    assert(n < p * 10) by (nonlinear_arith) requires d == n / p, d < 10, p >= 1;
}
pub proof fn lemma_digit_split(n: nat, p: nat)
    requires p >= 1, n < p * 10,
    ensures n / p < 10, n == (n / p) * p + n % p, n % p < p,
{
    assert(n / p < 10) by (nonlinear_arith) requires p >= 1, n < p * 10;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, p as int);
    assert((n / p) * p == p * (n / p)) by (nonlinear_arith);
}
pub proof fn lemma_digit_nonzero(n: nat, p: nat)
    requires p >= 1, n >= p,
    ensures n / p >= 1,
{
    assert(n / p >= 1) by (nonlinear_arith) requires p >= 1, n >= p;
}
pub proof fn lemma_dec_step(v: nat, p: nat, digit: nat, n0: nat)
    requires p >= 1, n0 == v * (p * 10) + digit, digit < p * 10,
    ensures n0 == (v * 10 + digit / p) * p + digit % p,
{
    lemma_digit_split(digit, p);
    let q = digit / p;
    assert((v * 10 + q) * p == v * (p * 10) + q * p) by (nonlinear_arith);
}
pub proof fn lemma_bits(q: usize)
    requires q < 10,
    ensures
        ((q & (1usize << 0)) == 0) == (q % 2 == 0),
        ((q & (1usize << 1)) == 0) == (q % 4 == q % 2),
        ((q & (1usize << 2)) == 0) == (q % 8 == q % 4),
        ((q & (1usize << 3)) == 0) == (q == q % 8),
        q % 4 == q % 2 || q % 4 == q % 2 + 2,
        q % 8 == q % 4 || q % 8 == q % 4 + 4,
        q == q % 8 || q == q % 8 + 8,
        q % 2 == 0 || q % 2 == 1,
        1u8 << 0usize == 1, 1u8 << 1usize == 2, 1u8 << 2usize == 4, 1u8 << 3usize == 8,
{
    assert(((q & (1usize << 0)) == 0) == (q % 2 == 0)) by (bit_vector);
    assert(((q & (1usize << 1)) == 0) == (q % 4 == q % 2)) by (bit_vector);
    assert(((q & (1usize << 2)) == 0) == (q % 8 == q % 4)) by (bit_vector);
    assert(((q & (1usize << 3)) == 0) == (q == q % 8)) by (bit_vector) requires q < 10;
    assert(1u8 << 0usize == 1 && 1u8 << 1usize == 2 && 1u8 << 2usize == 4 && 1u8 << 3usize == 8) by (bit_vector);
}
//@ endproofonly
