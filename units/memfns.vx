// ---- m, M, X
//@ subst _x_upcase::X => X
//@ item src/protocol/commands/_m.rs m
//@ item src/protocol/commands/_m_upcase.rs M
//@ item src/protocol/commands/_x_upcase.rs X
//@ item @expanded mod protocol / mod commands / mod ext / XUpcasePacket
// a read of target memory, of the selected thread
pub open spec fn rd(e: Ev, multi: bool, tid: Tid) -> Option<(AUsize, Seq<u8>, Result<usize, TargetError<VxError>>)> {
    match e {
        Ev::SingleThreadBase_read_addrs(a, d, x) => if multi { None } else { Some((a, d, x)) },
        Ev::MultiThreadBase_read_addrs(a, d, t, x) => if multi && t == tid { Some((a, d, x)) } else { None },
        _ => None,
    }
}
pub open spec fn chunk(len: int, cap: int, k: int) -> int { if len - k * cap < cap { len - k * cap } else { cap } }
// contiguous reads from `base` on, each (but for the last) answered in full
#[verifier::opaque]
pub open spec fn reads(evs: Seq<Ev>, multi: bool, tid: Tid, base: int, len: int, cap: int) -> bool {
    &&& forall|k: int| 0 <= k < evs.len() ==> #[trigger] read_at(evs[k], multi, tid, base, len, cap, k)
    &&& forall|k: int| 0 <= k < evs.len() - 1 ==> #[trigger] read_full(evs[k], multi, tid, len, cap, k)
}
#[verifier::opaque]
pub open spec fn all_full(evs: Seq<Ev>, multi: bool, tid: Tid, len: int, cap: int) -> bool {
    forall|k: int| 0 <= k < evs.len() ==> #[trigger] read_full(evs[k], multi, tid, len, cap, k)
}
pub open spec fn read_at(e: Ev, multi: bool, tid: Tid, base: int, len: int, cap: int, k: int) -> bool {
    let x = rd(e, multi, tid);
    x is Some && (x->0).0.val() == base + k * cap && (x->0).1.len() == chunk(len, cap, k) && chunk(len, cap, k) > 0
}
pub open spec fn read_full(e: Ev, multi: bool, tid: Tid, len: int, cap: int, k: int) -> bool {
    chunk(len, cap, k) > 0 && (rd(e, multi, tid)->0).2 == Result::<usize, TargetError<VxError>>::Ok(chunk(len, cap, k) as usize)
}
pub proof fn lemma_reads_push(es: Seq<Ev>, e: Ev, multi: bool, tid: Tid, base: int, len: int, cap: int)
    requires reads(es, multi, tid, base, len, cap), all_full(es, multi, tid, len, cap), read_at(e, multi, tid, base, len, cap, es.len() as int),
    ensures reads(es.push(e), multi, tid, base, len, cap), read_full(e, multi, tid, len, cap, es.len() as int) ==> all_full(es.push(e), multi, tid, len, cap),
{
    reveal(reads); reveal(all_full);
    assert forall|k: int| 0 <= k < es.len() implies #[trigger] es.push(e)[k] == es[k] by {}
}
pub open spec fn read_data(evs: Seq<Ev>, multi: bool, tid: Tid) -> Seq<u8>
    decreases evs.len(),
{
    if evs.len() == 0 { Seq::empty() } else {
        let x = rd(evs.last(), multi, tid)->0;
        read_data(evs.drop_last(), multi, tid) + (match x.2 { Ok(n) => x.1.take(n as int), Err(_) => Seq::empty() })
    }
}
pub open spec fn m_spec<C: Connection>(s: St, f: St, tid: Tid, addr: Seq<u8>, len: int, cap: int, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if !be_fits::<AUsize>(addr) {
        f == s && r == HR::<C>::Err(InternalError::TargetMismatch)
    } else {
        exists|evs: Seq<Ev>| f.has == s.has && #[trigger] (s.log + evs) == f.log && m_evs::<C>(s.has.multi, evs, tid, beval(addr) as int, len, cap, reply, r)
    }
}
pub open spec fn herr_<C: Connection>(x: Result<usize, TargetError<VxError>>) -> Result<usize, InternalError<VxError, C::Error>> { x.herr() }
pub proof fn lemma_hexs_app(s: Seq<u8>, t: Seq<u8>)
    ensures hexs(s + t) == hexs(s) + hexs(t),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); assert(hexs(s) + hexs(t) =~= hexs(s)); } else {
        lemma_hexs_app(s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert(hexs(s + t) =~= hexs(s) + hexs(t));
    }
}
pub proof fn lemma_read_data_push(evs: Seq<Ev>, e: Ev, multi: bool, tid: Tid)
    ensures read_data(evs.push(e), multi, tid) == read_data(evs, multi, tid) + (match (rd(e, multi, tid)->0).2 { Ok(n) => (rd(e, multi, tid)->0).1.take(n as int), Err(_) => Seq::empty() }),
{
    assert(evs.push(e).drop_last() =~= evs);
}
pub open spec fn m_evs<C: Connection>(multi: bool, evs: Seq<Ev>, tid: Tid, base: int, len: int, cap: int, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    let x = (rd(evs.last(), multi, tid)->0).2;
    let c = chunk(len, cap, evs.len() - 1);
    &&& reads(evs, multi, tid, base, len, cap)
    &&& match r {
        Ok(h) => {
            // what was read, and nothing else
            &&& h is Handled && reply == Some(hexs(read_data(evs, multi, tid)))
            // everything, unless the target or the address space has no more
            &&& {
                ||| evs.len() * cap >= len
                ||| base + evs.len() * cap > AUsize::maxv()
                ||| evs.len() * cap > AUsize::maxv()
                ||| evs.len() > 0 && x is Ok && x->Ok_0 < c
                ||| evs.len() > 1 && herr_::<C>(x) matches Err(InternalError::NonFatalError(_))
            }
            &&& evs.len() == 1 ==> x is Ok
            &&& evs.len() > 0 && x is Ok ==> x->Ok_0 <= c
        },
        // an error reply only if nothing could be read
        Err(InternalError::NonFatalError(_)) => evs.len() == 1 && x is Err && Result::<HandlerStatus, InternalError<VxError, C::Error>>::Err(x.herr()->Err_0) == r,
        Err(InternalError::TargetError(_)) => evs.len() > 0 && x is Err && Result::<HandlerStatus, InternalError<VxError, C::Error>>::Err(x.herr()->Err_0) == r,
        Err(InternalError::PacketBufferOverflow) => evs.len() > 0 && x is Ok && x->Ok_0 > c,
        Err(InternalError::Connection(_, _)) => true,
        Err(_) => false,
    }
}
pub open spec fn w_spec<C: Connection>(s: St, f: St, tid: Tid, addr: Seq<u8>, val: Seq<u8>, r: HR<C>) -> bool {
    if !be_fits::<AUsize>(addr) {
        f == s && r == HR::<C>::Err(InternalError::TargetMismatch)
    } else if s.has.multi {
        exists|a: AUsize, x| be_num(addr, a) && f == #[trigger] s.did(Ev::MultiThreadBase_write_addrs(a, val, tid, x)) && ok_reply::<C>(x, r)
    } else {
        exists|a: AUsize, x| be_num(addr, a) && f == #[trigger] s.did(Ev::SingleThreadBase_write_addrs(a, val, x)) && ok_reply::<C>(x, r)
    }
}
pub open spec fn ok_reply<C: Connection>(x: Result<(), TargetError<VxError>>, r: HR<C>) -> bool {
    r == (match x.herr() { Ok(_) => HR::<C>::Ok(HandlerStatus::NeedsOk), Err(e) => Err(e) })
}
//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_base
//@ opt arm=Base::m
//@ opt sig=fn base_m(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: m<'_>) -> Result<HandlerStatus, InternalError<T::Error, C::Error>>
//@ ret r
//@ opt q
//@ opt and_then
//@ opt guards
//@ opt drop_use
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(cmd.buf)@.len() > 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        m_spec::<C>(old(target)@, final(target)@, old(self).current_mem_tid, cmd.addr@, cmd.len as int, old(cmd.buf)@.len() as int, if r is Ok { Some(final(res).msg@) } else { None }, r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    let ghost cap = cmd.buf@.len() as int;
    let ghost len = cmd.len as int;
    let ghost s0 = target@;
    let ghost multi = s0.has.multi;
    let ghost tid = self.current_mem_tid;
    let ghost base = beval(cmd.addr@) as int;
    let ghost mut evs: Seq<Ev> = seq![];
    proof {
        reveal(reads); reveal(all_full);
        assert(s0.log + evs =~= s0.log);
        assert(old(res).msg@ =~= hexs(read_data(evs, multi, tid)));
    }
//@ loop 0
    invariant_except_break
        all_full(evs, multi, tid, len, cap), evs.len() > 0 ==> read_full(evs.last(), multi, tid, len, cap, evs.len() - 1),
        i + n == len, n != 0 ==> i == evs.len() * cap, n == 0 ==> evs.len() * cap >= len,
    invariant
        *self == *old(self), cap > 0, cap == buf@.len(), cap == old(cmd.buf)@.len(), len == cmd.len as int, multi == s0.has.multi, s0 == old(target)@, tid == self.current_mem_tid,
        base == beval(cmd.addr@), addr.val() == base, be_fits::<AUsize>(cmd.addr@),
        old(res).msg@.len() == 0, rok(res), res.same(old(res)), res.msg@ == hexs(read_data(evs, multi, tid)),
        target@.has == s0.has, target@.log == s0.log + evs,
        reads(evs, multi, tid, base, len, cap),
    ensures
        m_evs::<C>(multi, evs, tid, base, len, cap, Some(res.msg@), HR::<C>::Ok(HandlerStatus::Handled)),
    decreases n,
//@ at loop0.start
    broadcast use {group_plain, ausize_unsigned};
    let ghost es = evs;
    proof { assert((es.len() + 1) * cap == es.len() * cap + cap) by(nonlinear_arith); assert(es.len() == 0 ==> es.len() * cap == 0) by(nonlinear_arith); assert(es.len() > 0 ==> es.len() * cap > 0) by(nonlinear_arith) requires cap > 0; }
//@ at before:let data_len = match data_len
    proof {
        let e = target@.log.last();
        evs = es.push(e);
        assert(target@.log =~= s0.log + evs);
        lemma_read_data_push(es, e, multi, tid);
        assert(es.len() == 0 ==> old(res).msg@ =~= hexs(read_data(es, multi, tid)));
        lemma_reads_push(es, e, multi, tid, base, len, cap);
        assert(data@.len() == chunk(len, cap, evs.len() - 1));
        lemma_hexs_app(read_data(es, multi, tid), (rd(e, multi, tid)->0).1.take(match (rd(e, multi, tid)->0).2 { Ok(n) => n as int, Err(_) => 0 }));
    }
//@ end
//@ fn handle_base
//@ opt arm=Base::M
//@ opt sig=fn base_m_upcase(&mut self, target: &mut T, cmd: M<'_>) -> Result<HandlerStatus, InternalError<T::Error, C::Error>>
//@ ret r
//@ opt q
//@ spec
    ensures *final(self) == *old(self),
        w_spec::<C>(old(target)@, final(target)@, old(self).current_mem_tid, cmd.addr@, cmd.val@, r),
//@ end
//@ endimpl
//@ impl src/stub/core_impl/x_upcase_packet.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_x_upcase_packet
//@ ret r
//@ opt q
//@ spec
    ensures *final(self) == *old(self), *final(_res) == *old(_res),
        !old(target)@.has.use_x_upcase_packet ==> final(target)@ == old(target)@ && r == HR::<C>::Ok(HandlerStatus::Handled),
        old(target)@.has.use_x_upcase_packet ==> match command {
            XUpcasePacket::X(cmd) => w_spec::<C>(old(target)@, final(target)@, old(self).current_mem_tid, cmd.addr@, cmd.val@, r),
        },
//@ end
//@ endimpl
