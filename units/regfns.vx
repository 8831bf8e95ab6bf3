// ---- g, G, p, P
//@ subst IsValidTid => VxTid
//@ subst Default :: default ( ) => ARegisters::default()
//@ item src/protocol/commands/_g_upcase.rs G
//@ item src/protocol/commands/_p.rs p
//@ item src/protocol/commands/_p_upcase.rs P
//@ subst _p_upcase::P => P
//@ subst _p::p => p
//@ item @expanded mod protocol / mod commands / mod ext / SingleRegisterAccess
// the reply to `g`: two hex digits per byte, `xx` for those the target does not have
pub open spec fn reg_text(s: Seq<Option<u8>>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { reg_text(s.drop_last()) + (match s.last() { Some(b) => hex2(b), None => seq![0x78u8, 0x78u8] }) }
}
pub open spec fn xx(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { xx((n - 1) as nat) + seq![0x78u8, 0x78u8] } }
pub proof fn lemma_xx()
    ensures "xx".spec_bytes() == seq![0x78u8, 0x78u8], plain(seq![0x78u8, 0x78u8]),
{
    reveal(plain);     reveal_strlit("xx"); lemma_ascii("xx");
    assert("xx".spec_bytes() =~= seq![0x78u8, 0x78u8]);
}
pub open spec fn g_reply<C: Connection>(regs: ARegisters, x: Result<(), TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x.herr() {
        Err(e) => r == HR::<C>::Err(e),
        Ok(_) => match r {
            Ok(h) => h is Handled && reply == Some(reg_text(regs.bytes())),
            Err(InternalError::Connection(_, _)) => true,
            Err(_) => false,
        },
    }
}
pub open spec fn ok_reply<C: Connection>(x: Result<(), TargetError<VxError>>, r: HR<C>) -> bool {
    r == (match x.herr() { Ok(_) => HR::<C>::Ok(HandlerStatus::NeedsOk), Err(e) => Err(e) })
}
// one register was read into `b`
pub open spec fn p_reply<C: Connection>(size: Option<NonZeroUsize>, cap: int, b: Seq<u8>, x: Result<usize, TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    let room = match size { Some(n) => n@ as int, None => cap };
    &&& b.len() == room
    &&& match x.herr() {
        Err(e) => r == HR::<C>::Err(e),
        Ok(0) => match size {
            Some(n) => match r { Ok(h) => h is Handled && reply == Some(xx(n@ as nat)), Err(InternalError::Connection(_, _)) => true, Err(_) => false },
            None => r == HR::<C>::Err(InternalError::TargetMismatch),
        },
        Ok(n) => if size is Some && n != room {
            r == HR::<C>::Err(InternalError::TargetMismatch)
        } else if n > room {
            r == HR::<C>::Err(InternalError::PacketBufferOverflow)
        } else {
            match r { Ok(h) => h is Handled && reply == Some(hexs(b.take(n as int))), Err(InternalError::Connection(_, _)) => true, Err(_) => false }
        },
    }
}
pub open spec fn sra_spec<C: Connection>(s: St, f: St, tid: Option<int>, command: SingleRegisterAccess<'_>, cap: int, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match command {
        SingleRegisterAccess::p(c) => match ARegId::of(c.reg_id) {
            // not a register: the empty reply
            None => f == s && r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(Seq::<u8>::empty()),
            Some((id, size)) => {
                if size matches Some(n) && n@ > cap {
                    f == s && r == HR::<C>::Err(InternalError::PacketBufferOverflow)
                } else {
                    exists|b: Seq<u8>, x| f == #[trigger] s.did(Ev::SingleRegisterAccess_read_register(tid, id, b, x)) && p_reply::<C>(size, cap, b, x, reply, r)
                }
            },
        },
        SingleRegisterAccess::P(c) => match ARegId::of(c.reg_id) {
            None => f == s && r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(Seq::<u8>::empty()),
            Some((id, _)) => exists|x| f == #[trigger] s.did(Ev::SingleRegisterAccess_write_register(tid, id, c.val@, x)) && ok_reply::<C>(x, r),
        },
    }
}
pub open spec fn sra_cap(c: SingleRegisterAccess<'_>) -> int { match c { SingleRegisterAccess::p(c) => c.buf@.len() as int, SingleRegisterAccess::P(_) => 0 } }
//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_base
//@ opt arm=Base::g
//@ opt sig=fn base_g(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<HandlerStatus, InternalError<T::Error, C::Error>>
//@ ret r
//@ opt q
//@ opt callbacks=gdb_serialize
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r), ({
        let (s, f) = (old(target)@, final(target)@);
        let reply = if r is Ok { Some(final(res).msg@) } else { None };
        if s.has.multi {
            exists|regs: ARegisters, x| f == #[trigger] s.did(Ev::MultiThreadBase_read_registers(regs, old(self).current_mem_tid, x)) && g_reply::<C>(regs, x, reply, r)
        } else {
            exists|regs: ARegisters, x| f == #[trigger] s.did(Ev::SingleThreadBase_read_registers(regs, x)) && g_reply::<C>(regs, x, reply, r)
        }
    }),
//@ at loop0.before
    broadcast use group_plain;
    let ghost tx = target@;
    proof { assert(res.msg@ =~= reg_text(regs.bytes().take(0))); }
//@ loop 0
    invariant
        *self == *old(self), vx_cb.all() == regs.bytes(), vx_cb.pos() <= vx_cb.all().len(), res.same(old(res)), res.wf(), target@ == tx,
        err is Ok ==> rok(res) && res.msg@ == reg_text(regs.bytes().take(vx_cb.pos() as int)),
    ensures vx_cb.pos() == regs.bytes().len(),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.start
    broadcast use group_plain;
    proof {
        lemma_xx();
        let k = vx_cb.pos() as int;
        if k < regs.bytes().len() {
            let b = regs.bytes()[k];
            assert(regs.bytes().take(k + 1).drop_last() =~= regs.bytes().take(k));
            if b is Some { assert(seq![b->0].drop_last() =~= Seq::<u8>::empty()); assert(hexs(seq![b->0]) =~= hex2(b->0)) by { assert(hexs(Seq::<u8>::empty()) =~= Seq::<u8>::empty()); } assert([b->0]@ =~= seq![b->0]); }
        }
    }
//@ at end
    proof { assert(regs.bytes().take(regs.bytes().len() as int) =~= regs.bytes()); }
//@ end
//@ fn handle_base
//@ opt arm=Base::G
//@ opt sig=fn base_g_upcase(&mut self, target: &mut T, cmd: G<'_>) -> Result<HandlerStatus, InternalError<T::Error, C::Error>>
//@ ret r
//@ opt q
//@ spec
    ensures *final(self) == *old(self), ({
        let (s, f) = (old(target)@, final(target)@);
        let d = ARegisters::dflt();
        if !d.accepts(cmd.vals@) {
            f == s && r == HR::<C>::Err(InternalError::TargetMismatch)
        } else if s.has.multi {
            exists|x| f == #[trigger] s.did(Ev::MultiThreadBase_write_registers(d.parsed(cmd.vals@), old(self).current_mem_tid, x)) && ok_reply::<C>(x, r)
        } else {
            exists|x| f == #[trigger] s.did(Ev::SingleThreadBase_write_registers(d.parsed(cmd.vals@), x)) && ok_reply::<C>(x, r)
        }
    }),
//@ end
//@ endimpl
//@ impl src/stub/core_impl/single_register_access.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn inner
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ opt q
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures res_frame(old(res), final(res), r),
        sra_spec::<C>(old(ops)@, final(ops)@, id.vx_tid(), command, sra_cap(command), if r is Ok { Some(final(res).msg@) } else { None }, r),
//@ at start
    broadcast use group_plain;
    proof { lemma_xx(); assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (Seq::<u8>::empty() + t)) == t by { assert(Seq::<u8>::empty() + t =~= t); } }
//@ at before:if len == 0
    proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
//@ loop 0 it
    invariant rok(res), res.same(old(res)), res.msg@ == xx(it.index@ as nat),
//@ end
//@ fn handle_single_register_access
//@ ret r
//@ opt q
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r), ({
        let (s, f) = (old(target)@, final(target)@);
        let reply = if r is Ok { Some(final(res).msg@) } else { None };
        if !s.has.support_single_register_access {
            f == s && r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(Seq::<u8>::empty())
        } else {
            sra_spec::<C>(s, f, if s.has.multi { Some(old(self).current_mem_tid@ as int) } else { None }, command, sra_cap(command), reply, r)
        }
    }),
//@ end
//@ endimpl
