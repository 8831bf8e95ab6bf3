// ---- one packet: acknowledged, handled, answered
// what the handlers of a command may do (the other units): it was handled with result `h`, saying
// `msg`, after sending the packets in `side` (console output)
pub uninterp spec fn handled<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: Command<'_>, side: Seq<u8>, msg: Seq<u8>, h: HR<C>) -> bool;
//@ include hcmd.vx
//@ impl src/stub/error.rs InternalError<T, C> ==> impl<T, C> InternalError<T, C>
//@ fn conn_read
//@ ret r
//@ spec
    ensures r == InternalError::<T, C>::Connection(e, ConnectionErrorKind::Read),
//@ end
//@ fn conn_write
//@ ret r
//@ spec
    ensures r == InternalError::<T, C>::Connection(e, ConnectionErrorKind::Write),
//@ end
//@ fn conn_init
//@ ret r
//@ spec
    ensures r == InternalError::<T, C>::Connection(e, ConnectionErrorKind::Init),
//@ end
//@ endimpl
pub type SR<C> = Result<State, InternalError<VxError, <C as Connection>::Error>>;
pub open spec fn sent_packet(a: Seq<u8>, b: Seq<u8>, msg: Seq<u8>, rle: bool) -> bool { a.is_prefix_of(b) && is_packet(b.skip(a.len() as int), msg, rle) }
// `o0`, `o1`: all that was sent before and after; `q`: everything sent has been flushed
#[verifier::opaque]
pub open spec fn answered<C: Connection>(s: St, o0: Seq<u8>, o1: Seq<u8>, q: bool, msg: Seq<u8>, h: HR<C>, r: SR<C>) -> bool {
    let rle = s.has.use_rle;
    match h {
        Ok(HandlerStatus::Handled) => r == SR::<C>::Ok(State::Pump) && sent_packet(o0, o1, msg, rle) && q,
        Ok(HandlerStatus::NeedsOk) => r == SR::<C>::Ok(State::Pump) && sent_packet(o0, o1, msg + ascii("OK"@), rle) && q,
        // no reply (yet)
        Ok(HandlerStatus::DeferredStopReason) => r == SR::<C>::Ok(State::DeferredStopReason) && o1 == o0 && q,
        Ok(HandlerStatus::Disconnect(d)) => r == SR::<C>::Ok(State::Disconnect(d)) && q && if d is Kill && !s.has.support_extended_mode { msg.len() == 0 ==> o1 == o0 } else { sent_packet(o0, o1, msg, rle) },
        Err(InternalError::NonFatalError(c)) => r == SR::<C>::Ok(State::Pump) && q && exists|w: Seq<u8>| #[trigger] is_num_text(w, c as int) && sent_packet(o0, o1, ascii("E"@) + hexs(w), rle),
        Err(e) => r == SR::<C>::Err(e),
    }
}
pub open spec fn ack(quiet: bool) -> Seq<u8> { if quiet { Seq::empty() } else { seq![0x2bu8] } }
#[verifier::opaque]
pub open spec fn on_command<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c0: C, c1: C, c: Command<'_>, r: SR<C>) -> bool {
    // the acknowledgement could not be sent, and nothing was done
    ||| !g0.features.quiet() && r is Err && r->Err_0 is Connection && g1 == g0 && s1 == s0
    ||| exists|side: Seq<u8>, msg: Seq<u8>, h: HR<C>| #[trigger] handled(g0, g1, s0, s1, c, side, msg, h) && {
            ||| answered::<C>(s1, c0.out() + ack(g0.features.quiet()) + side, c1.out(), c1.flushed(), msg, h, r)
            ||| (h is Ok || h->Err_0 is NonFatalError) && r is Err && r->Err_0 is Connection
        }
}
pub broadcast proof fn lemma_on_command<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c0: C, c1: C, c: Command<'_>, side: Seq<u8>, msg: Seq<u8>, h: HR<C>, r: SR<C>)
    requires #[trigger] handled(g0, g1, s0, s1, c, side, msg, h), answered::<C>(s1, c0.out() + ack(g0.features.quiet()) + side, c1.out(), c1.flushed(), msg, h, r) || (h is Ok || h->Err_0 is NonFatalError) && r is Err && r->Err_0 is Connection,
    ensures #[trigger] on_command(g0, g1, s0, s1, c0, c1, c, r),
{ reveal(on_command); }
pub broadcast proof fn lemma_fatal<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c0: C, c1: C, c: Command<'_>, side: Seq<u8>, msg: Seq<u8>, h: HR<C>, r: SR<C>)
    requires #[trigger] handled(g0, g1, s0, s1, c, side, msg, h), h is Err && !(h->Err_0 is NonFatalError) && r == SR::<C>::Err(h->Err_0),
    ensures #[trigger] on_command(g0, g1, s0, s1, c0, c1, c, r),
{ reveal(answered); lemma_on_command(g0, g1, s0, s1, c0, c1, c, side, msg, h, r); }
pub broadcast proof fn lemma_no_ack<C: Connection>(g0: GdbStubImpl<T, C>, s0: St, c0: C, c1: C, c: Command<'_>, r: SR<C>)
    requires !g0.features.quiet() && r is Err && r->Err_0 is Connection,
    ensures #[trigger] on_command(g0, g0, s0, s0, c0, c1, c, r),
{ reveal(on_command); }
pub open spec fn on_packet<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c0: C, c1: C, p: Packet<'_>, r: SR<C>) -> bool {
    match p {
        Packet::Ack => r == SR::<C>::Ok(State::Pump) && g1 == g0 && s1 == s0 && c1 == c0,
        Packet::Nack => r == SR::<C>::Err(InternalError::ClientSentNack) && g1 == g0 && s1 == s0 && c1 == c0,
        Packet::Interrupt => r == SR::<C>::Ok(State::CtrlCInterrupt) && g1 == g0 && s1 == s0 && c1 == c0,
        Packet::Command(c) => on_command(g0, g1, s0, s1, c0, c1, c, r),
    }
}
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_command(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: Command<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures handled(*old(self), *final(self), old(target)@, final(target)@, cmd, side_of(old(res), final(res)), final(res).msg@, r), cmd_frame(old(res), final(res), r),
            final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
//@ impl core GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_packet
//@ ret r
//@ attr #[verifier::spinoff_prover]
//@ opt q
//@ opt lits
//@ spec
    requires !old(conn).broken(),
    ensures on_packet(*old(self), *final(self), old(target)@, final(target)@, *old(conn), *final(conn), packet, r),
        final(target)@.has == old(target)@.has,
        r is Ok ==> !final(conn).broken(),
//@ at start
    broadcast use group_plain, lemma_on_command, lemma_fatal, lemma_no_ack;
    let ghost g0 = *self;
    let ghost s0 = target@;
//@ at after:let mut res
    let ghost res0 = res;
    let ghost w0 = res.start();
    assert(w0 =~= old(conn).out() + ack(g0.features.quiet()));
//@ at before:conn.flush()
    let ghost side = side_of(&res0, &res);
    let ghost msg = res.msg@;
    proof { lemma_unstarted(&res); }
    assert(res.inner.out() =~= w0 + side);
//@ at before:return Ok(State::DeferredStopReason)
    assert(answered::<C>(target@, w0 + side, conn.out(), conn.flushed(), msg, HR::<C>::Ok(HandlerStatus::DeferredStopReason), SR::<C>::Ok(State::DeferredStopReason))) by { reveal(answered); }
//@ at before:res.write_str("E")
    assert(res.msg@ =~= Seq::<u8>::empty());
    assert(Seq::<u8>::empty() + ascii("E"@) =~= ascii("E"@));
//@ at after:res.write_num(code)
    proof { let w = choose|w: Seq<u8>| #[trigger] is_num_text(w, code as int) && res.msg@ == ascii("E"@) + hexs(w); assert(plain(ascii("E"@) + hexs(w))); }
//@ at before:let is_kill
    proof { if res.msg@.len() == 0 { lemma_unstarted(&res); } }
    let ghost side = side_of(&res0, &res);
    let ghost said = res.msg@;
    assert(res.start() =~= w0 + side);
//@ at after:let state
    proof { reveal(answered); }
//@ end
//@ endimpl
// ---- the state machine
pub trait VxInto<D>: Sized {
    spec fn into_spec(self) -> D;
    fn vx_into(self) -> (r: D) ensures r == self.into_spec();
}
impl<S, D: VxFrom<S>> VxInto<D> for S {
    open spec fn into_spec(self) -> D { D::from_spec(self) }
    fn vx_into(self) -> D { vx_from(self) }
}
//@ subst . into ( ) => . vx_into ( )
//@ item src/stub/error.rs GdbStubError
// what the user can ask of the error which ended the session
//@ impl src/stub/error.rs GdbStubError<T, C>
//@ fn is_target_error
//@ ret r
//@ spec
    ensures r == (self.kind is TargetError),
//@ end
//@ fn into_target_error
//@ ret r
//@ spec
    ensures r == (match self.kind { InternalError::TargetError(e) => Some(e), _ => None }),
//@ end
//@ fn is_connection_error
//@ ret r
//@ spec
    ensures r == (self.kind is Connection),
//@ end
//@ fn into_connection_error
//@ ret r
//@ spec
    ensures r == (match self.kind { InternalError::Connection(e, k) => Some((e, k)), _ => None }),
//@ end
//@ endimpl
//@ impl src/stub/error.rs From<InternalError<T, C>> for GdbStubError<T, C> ==> impl<T, C> VxFrom<InternalError<T, C>> for GdbStubError<T, C>
    open spec fn from_spec(e: InternalError<T, C>) -> Self { GdbStubError { kind: e } }
//@ fn from
//@ ret r
//@ opt rename=vx_conv
//@ opt novis
//@ end
//@ endimpl
//@ impl src/stub/error.rs From<CapacityError<A>> for GdbStubError<T, C> ==> impl<A, T, C> VxFrom<CapacityError<A>> for GdbStubError<T, C>
    open spec fn from_spec(e: CapacityError<A>) -> Self { GdbStubError { kind: InternalError::PacketBufferOverflow } }
//@ fn from
//@ ret r
//@ opt rename=vx_conv
//@ opt novis
//@ end
//@ endimpl
//@ file SM = src/stub/state_machine.rs
pub mod state { use super::*;
//@ subst struct Idle < T : Target > => struct Idle
//@ subst < < T as Target > :: Arch as Arch > :: Usize => AUsize
//@ each S = Idle ; Running ; CtrlCInterrupt ; Disconnected
//@ item SM mod state / @S@
//@ endeach
}
//@ subst state :: Idle < T > => state :: Idle
//@ item SM GdbStubStateMachineReallyInner
//@ item SM GdbStubStateMachineInner
//@ item SM GdbStubStateMachine
//@ each S H = Idle Idle<T> ; Running Running ; CtrlCInterrupt CtrlCInterrupt ; Disconnected Disconnected
//@ impl @expanded mod stub / mod state_machine / From<GdbStubStateMachineInner<'a, state::@H@, T, C>> for GdbStubStateMachine<'a, T, C> ==> impl<'a, T: Target, C: Connection> VxFrom<GdbStubStateMachineInner<'a, state::@S@, T, C>> for GdbStubStateMachine<'a, T, C>
    open spec fn from_spec(e: GdbStubStateMachineInner<'a, state::@S@, T, C>) -> Self { GdbStubStateMachine::@S@(e) }
//@ fn from
//@ ret r
//@ opt rename=vx_conv
//@ opt novis
//@ end
//@ endimpl
//@ endeach
//@ impl SM Transition<'a, T, C> for GdbStubStateMachineInner<'a, S1, T, C> ==> impl<'a, S1, C: Connection> GdbStubStateMachineInner<'a, S1, T, C>
//@ fn transition
//@ ret r
//@ spec
    ensures r.i == self.i, r.state == state,
//@ end
//@ endimpl
// a stop of a single-threaded target is one of its only thread
pub open spec fn multi<U>(s: BaseStopReason<(), U>) -> BaseStopReason<Tid, U> {
    match s {
        BaseStopReason::DoneStep => BaseStopReason::DoneStep,
        BaseStopReason::Exited(c) => BaseStopReason::Exited(c),
        BaseStopReason::Terminated(g) => BaseStopReason::Terminated(g),
        BaseStopReason::Signal(g) => BaseStopReason::Signal(g),
        BaseStopReason::SignalWithThread { tid, signal } => BaseStopReason::SignalWithThread { tid: single_tid(), signal },
        BaseStopReason::SwBreak(_) => BaseStopReason::SwBreak(single_tid()),
        BaseStopReason::HwBreak(_) => BaseStopReason::HwBreak(single_tid()),
        BaseStopReason::Watch { tid, kind, addr } => BaseStopReason::Watch { tid: single_tid(), kind, addr },
        BaseStopReason::ReplayLog { tid, pos } => BaseStopReason::ReplayLog { tid: None, pos },
        BaseStopReason::CatchSyscall { tid, number, position } => BaseStopReason::CatchSyscall { tid: None, number, position },
    }
}
//@ impl src/stub/stop_reason.rs From<BaseStopReason<(), U>> for BaseStopReason<Tid, U> ==> impl<U> VxFrom<BaseStopReason<(), U>> for BaseStopReason<Tid, U>
    open spec fn from_spec(s: BaseStopReason<(), U>) -> Self { multi(s) }
//@ fn from
//@ ret r
//@ opt rename=vx_conv
//@ opt novis
//@ end
//@ endimpl
impl<U> VxFrom<BaseStopReason<Tid, U>> for BaseStopReason<Tid, U> {
    open spec fn from_spec(s: Self) -> Self { s }
    fn vx_conv(s: Self) -> Self { s }
}
pub trait IntoStopReason<T>: VxInto<MultiThreadStopReason<AUsize>> {}
impl IntoStopReason<T> for BaseStopReason<Tid, AUsize> {}
impl IntoStopReason<T> for BaseStopReason<(), AUsize> {}
impl<'a, C: Connection> GdbStubStateMachineReallyInner<'a, T, C> {
    pub open spec fn wf(&self) -> bool { self.recv_packet.wf(self.packet_buffer@) && !self.conn.broken() }
    pub open spec fn pending(&self) -> Seq<u8> { self.recv_packet.pending(self.packet_buffer@) }
    pub open spec fn full(&self) -> bool { self.pending().len() == self.packet_buffer@.len() && !self.packet_buffer.growable() }
    // nothing but the bytes of the packet being received differs
    pub open spec fn got(&self, o: &Self, p: Seq<u8>) -> bool { self.pending() == p && self.conn == o.conn && self.inner == o.inner && self.packet_buffer.growable() == o.packet_buffer.growable() }
}
pub type MR<'a, C> = Result<GdbStubStateMachine<'a, T, C>, GdbStubError<VxError, <C as Connection>::Error>>;
// the packet in a frame taken off the wire
pub open spec fn frame_packet(f: Seq<u8>, p: Result<Packet<'_>, PacketParseError>) -> bool {
    match p {
        Ok(Packet::Command(c)) => f[0] == 0x24 && pkt_body(f) == Some(c.source()),
        Ok(Packet::Ack) => f[0] == 0x2b,
        Ok(Packet::Nack) => f[0] == 0x2d,
        Ok(Packet::Interrupt) => f[0] == 0x03,
        Err(PacketParseError::MalformedCommand) => f[0] == 0x24 && pkt_body(f) is Some,
        Err(_) => f[0] == 0x24 && pkt_body(f) is None || f[0] != 0x24 && f[0] != 0x2b && f[0] != 0x2d && f[0] != 0x03,
    }
}
pub proof fn lemma_find_at(s: Seq<u8>, i: int, c: u8)
    requires 0 <= i < s.len(), s[i] == c, forall|j: int| 0 <= j < i ==> s[j] != c,
    ensures find2(s, c, c) == i,
{
    lemma_find2(s, c, c);
}
// what follows the frame in the buffer makes no difference
pub proof fn lemma_frame_body(b: Seq<u8>, f: Seq<u8>)
    requires f.len() <= b.len(), b.take(f.len() as int) == f, is_frame(f), f[0] == 0x24,
    ensures pkt_body(b) == pkt_body(f),
{
    let n = f.len() as int;
    let i = n - 4;
    assert forall|j: int| 0 <= j < n implies #[trigger] b[j] == f[j] by { assert(b.take(n)[j] == b[j]); }
    let p = f.take(n - 3);
    assert forall|k: int| 1 <= k < i + 1 implies #[trigger] f[k] != 0x23 by { assert(p.skip(1)[k - 1] == f[k]); }
    let (fs, bs) = (f.skip(1), b.skip(1));
    assert forall|j: int| 0 <= j < i implies fs[j] != 0x23 && bs[j] != 0x23 by { assert(f[j + 1] != 0x23); assert(bs[j] == b[j + 1]); }
    lemma_find_at(fs, i, 0x23);
    lemma_find_at(bs, i, 0x23);
    assert(fs.take(i) =~= bs.take(i));
    let (ft, bt) = (fs.skip(i + 1), bs.skip(i + 1));
    assert(ft.len() == 2 && bt.len() >= 2 && ft[0] == bt[0] && ft[1] == bt[1]);
    lemma_find2(ft, 0x23, 0x23);
    lemma_find2(bt, 0x23, 0x23);
    if ft[0] == 0x23 {
        lemma_find_at(ft, 0, 0x23); lemma_find_at(bt, 0, 0x23);
    } else if ft[1] == 0x23 {
        lemma_find_at(ft, 1, 0x23); lemma_find_at(bt, 1, 0x23);
    } else {
        assert(cut(ft, 0x23).0.take(2) =~= cut(bt, 0x23).0.take(2));
    }
}
// a fixed packet buffer keeps its size
pub open spec fn same_buffer<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, i1: GdbStubStateMachineReallyInner<'a, T, C>) -> bool {
    i1.packet_buffer.growable() == i0.packet_buffer.growable() && (i1.packet_buffer.growable() || i1.packet_buffer@.len() == i0.packet_buffer@.len())
}
// a byte was received and the session goes on: `x` is what it completed, if anything
pub open spec fn received<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, i1: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, byte: u8, x: Option<State>) -> bool {
    &&& !i0.full() && i1.wf() && same_buffer(i0, i1)
    &&& took(i0, i1, s0, s1, frame_step(i0.pending(), byte).0, frame_step(i0.pending(), byte).1, x)
}
pub open spec fn took<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, i1: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, n: Seq<u8>, f: Option<Seq<u8>>, x: Option<State>) -> bool {
    if f is None { s1 == s0 && x is None && i1.got(&i0, n) }
    else { i1.pending().len() == 0 && x is Some && exists|p: Packet<'_>| #[trigger] packet_did(i0, i1, s0, s1, p, x) && frame_packet(f->0, Ok(p)) }
}
pub open spec fn packet_did<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, i1: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, p: Packet<'_>, x: Option<State>) -> bool {
    x is Some && on_packet(i0.inner, i1.inner, s0, s1, i0.conn, i1.conn, p, SR::<C>::Ok(x->0))
}
// a byte was received and ended the session
pub open spec fn failed<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, byte: u8, e: InternalError<VxError, C::Error>) -> bool {
    if i0.full() { s1 == s0 && e is PacketBufferOverflow } else {
        match frame_step(i0.pending(), byte).1 {
            None => false,
            Some(f) => {
                ||| s1 == s0 && (e matches InternalError::PacketParse(p) && frame_packet(f, Err(p)))
                ||| exists|p: Packet<'_>, g1: GdbStubImpl<T, C>, c1: C| #[trigger] on_packet(i0.inner, g1, s0, s1, i0.conn, c1, p, SR::<C>::Err(e)) && frame_packet(f, Ok(p))
            },
        }
    }
}
// the target stopped, for this reason
pub open spec fn stopped<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, sr: MultiThreadStopReason<AUsize>, r: MR<'a, C>) -> bool {
    if !supported(s0, sr) { s1 == s0 && r == MR::<'a, C>::Err(GdbStubError { kind: InternalError::UnsupportedStopReason }) } else {
        match r {
            Err(e) => stop_err::<C>(s0, s1, e.kind),
            Ok(m) => ({
                let i1 = match m { GdbStubStateMachine::Idle(m) => m.i, GdbStubStateMachine::Disconnected(m) => m.i, GdbStubStateMachine::Running(m) => m.i, GdbStubStateMachine::CtrlCInterrupt(m) => m.i };
                &&& match stop_status(sr) {
                    // the client has the control again
                    FinishExecStatus::Handled => m matches GdbStubStateMachine::Idle(m) && m.state.deferred_ctrlc_stop_reason is None,
                    FinishExecStatus::Disconnect(d) => m matches GdbStubStateMachine::Disconnected(m) && m.state.reason == d,
                }
                &&& i1.wf() && i1.pending() == i0.pending() && i1.packet_buffer == i0.packet_buffer
                &&& selects(i0.inner, i1.inner, stop_tid(sr))
                // and exactly the stop reply was sent
                &&& i1.conn.flushed() && exists|msg: Seq<u8>| #[trigger] stop_text::<C>(s0, s1, i0.inner.features.mp(), sr, msg) && sent_packet(i0.conn.out(), i1.conn.out(), msg, s0.has.use_rle)
            }),
        }
    }
}
//@ impl SM GdbStubStateMachineInner<'a, state::Running, T, C> ==> impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::Running, T, C>
//@ fn report_stop
//@ ret r
//@ opt q
//@ opt lits
//@ subst map_err ( InternalError :: from ) => map_err(vx_from::<Error<C::Error>, InternalError<VxError, C::Error>>)
//@ spec
    requires self.i.wf(),
    ensures stopped(self.i, old(target)@, final(target)@, reason.into_spec(), r),
//@ at start
    broadcast use group_plain;
//@ end
//@ endimpl
pub open spec fn machine_i<'a, C: Connection>(m: GdbStubStateMachine<'a, T, C>) -> GdbStubStateMachineReallyInner<'a, T, C> {
    match m { GdbStubStateMachine::Idle(m) => m.i, GdbStubStateMachine::Disconnected(m) => m.i, GdbStubStateMachine::Running(m) => m.i, GdbStubStateMachine::CtrlCInterrupt(m) => m.i }
}
impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::Running, T, C> {
    pub open spec fn late_failure(self, s0: St, s1: St, byte: u8, e: GdbStubError<VxError, C::Error>) -> bool { false }
    pub open spec fn goes_on(self, s0: St, s1: St, byte: u8, m: GdbStubStateMachine<'a, T, C>) -> bool {
        match m {
            // still running
            GdbStubStateMachine::Running(m) => { received(self.i, m.i, s0, s1, byte, None) || received(self.i, m.i, s0, s1, byte, Some(State::Pump)) || received(self.i, m.i, s0, s1, byte, Some(State::DeferredStopReason)) },
            // nothing is reported before the target says how it took the interrupt
            GdbStubStateMachine::CtrlCInterrupt(m) => received(self.i, m.i, s0, s1, byte, Some(State::CtrlCInterrupt)) && !m.state.from_idle,
            GdbStubStateMachine::Disconnected(m) => received(self.i, m.i, s0, s1, byte, Some(State::Disconnect(m.state.reason))),
            GdbStubStateMachine::Idle(_) => false,
        }
    }
}
impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::Idle, T, C> {
    // the target was resumed while a stop was still to be reported
    pub open spec fn deferred(self, s0: St, s1: St, byte: u8, r: MR<'a, C>) -> bool {
        self.state.deferred_ctrlc_stop_reason is Some && exists|i1: GdbStubStateMachineReallyInner<'a, T, C>, s: St|
            #[trigger] received(self.i, i1, s0, s, byte, Some(State::DeferredStopReason)) && stopped(i1, s, s1, self.state.deferred_ctrlc_stop_reason->0, r)
    }
    pub open spec fn late_failure(self, s0: St, s1: St, byte: u8, e: GdbStubError<VxError, C::Error>) -> bool { self.deferred(s0, s1, byte, Err(e)) }
    pub open spec fn goes_on(self, s0: St, s1: St, byte: u8, m: GdbStubStateMachine<'a, T, C>) -> bool {
        self.deferred(s0, s1, byte, Ok(m)) || match m {
            // the client keeps the control
            GdbStubStateMachine::Idle(m) => m.state == self.state && { received(self.i, m.i, s0, s1, byte, None) || received(self.i, m.i, s0, s1, byte, Some(State::Pump)) },
            GdbStubStateMachine::Running(m) => self.state.deferred_ctrlc_stop_reason is None && received(self.i, m.i, s0, s1, byte, Some(State::DeferredStopReason)),
            GdbStubStateMachine::CtrlCInterrupt(m) => received(self.i, m.i, s0, s1, byte, Some(State::CtrlCInterrupt)) && m.state.from_idle,
            GdbStubStateMachine::Disconnected(m) => received(self.i, m.i, s0, s1, byte, Some(State::Disconnect(m.state.reason))),
        }
    }
}
//@ each S NAME INTR = Running Running false ; Idle<T> Idle true
//@ impl SM GdbStubStateMachineInner<'a, state::@S@, T, C> ==> impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::@NAME@, T, C>
//@ fn incoming_data
//@ ret r
//@ opt q
//@ spec
    requires self.i.wf(), self.i.packet_buffer@.len() < usize::MAX,
    ensures
        r matches Err(e) ==> failed(self.i, old(target)@, final(target)@, byte, e.kind) || self.late_failure(old(target)@, final(target)@, byte, e),
        r matches Ok(m) ==> self.goes_on(old(target)@, final(target)@, byte, m),
//@ at start
    let ghost i0 = self.i;
    let ghost f = frame_step(i0.pending(), byte).1;
    let ghost s0 = target@;
//@ at after:let packet_buffer
    proof { assert(is_frame(f->0)); if f->0[0] == 0x24 { lemma_frame_body(packet_buffer@, f->0); } assert(packet_buffer@[0] == packet_buffer@.take(f->0.len() as int)[0]); }
//@ at after:let state
    assert(forall|b: Seq<u8>| #[trigger] vx_self.i.recv_packet.wf(b) && vx_self.i.recv_packet.pending(b) == Seq::<u8>::empty()) by {
        assert forall|b: Seq<u8>| #[trigger] vx_self.i.recv_packet.wf(b) && vx_self.i.recv_packet.pending(b) == Seq::<u8>::empty() by { assert(b.take(0) =~= Seq::<u8>::empty()); }
    }
    assert(vx_self.i.wf());
    assert(frame_packet(f->0, Ok(pk)));
    assert(packet_did(i0, vx_self.i, s0, target@, pk, Some(state)));
    assert(received(i0, vx_self.i, s0, target@, byte, Some(state)));
//@ at before:let state
    let ghost pk = packet;
//@ end
//@ endimpl
//@ endeach

//@ impl SM GdbStubStateMachineInner<'a, state::CtrlCInterrupt, T, C> ==> impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::CtrlCInterrupt, T, C>
//@ fn interrupt_handled
//@ ret r
//@ subst stop_reason . map ( Into :: into ) => (match stop_reason { Some(vx_r) => Some(vx_r.vx_into()), None => None })
//@ spec
    requires self.i.wf(),
    ensures
        // the target was stopped all along: its stop is reported when the client resumes it
        self.state.from_idle ==> final(target)@ == old(target)@ && (r matches Ok(GdbStubStateMachine::Idle(m)) && m.i == self.i && m.state.deferred_ctrlc_stop_reason == match stop_reason { Some(s) => Some(s.into_spec()), None => None }),
        // the target was running: it still is, or its stop is reported at once
        !self.state.from_idle && stop_reason is None ==> final(target)@ == old(target)@ && (r matches Ok(GdbStubStateMachine::Running(m)) && m.i == self.i),
        !self.state.from_idle && stop_reason is Some ==> stopped(self.i, old(target)@, final(target)@, stop_reason->0.into_spec(), r),
//@ end
//@ endimpl
//@ impl SM GdbStubStateMachineInner<'a, state::Disconnected, T, C> ==> impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::Disconnected, T, C>
//@ fn get_reason
//@ ret r
//@ spec
    ensures r == self.state.reason,
//@ end
//@ fn return_to_idle
//@ ret r
//@ spec
    ensures r matches GdbStubStateMachine::Idle(m) && m.i == self.i && m.state.deferred_ctrlc_stop_reason is None,
//@ end
//@ endimpl
// ---- starting a session
//@ impl core GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn new
//@ ret r
//@ spec
    // acknowledgements are on, the packets are those of a single process, and the only thread is selected
    ensures !r.features.quiet() && !r.features.mp(), r.current_mem_tid == single_tid(), r.current_resume_tid == SpecificIdKind::WithId(single_tid()),
//@ at start
    assert(0u8 & 1u8 == 0u8 && 0u8 & 2u8 == 0u8 && 0u8 & 4u8 == 0u8) by(bit_vector);
//@ end
//@ endimpl
//@ subst core_impl :: => 
//@ subst state_machine :: => 
//@ item src/stub/mod.rs GdbStub
// (what the macro vec![0; n] calls)
#[verifier::external_body]
pub fn vx_from_elem<A: Copy>(a: A, n: usize) -> (r: Vec<A>) ensures r@ == Seq::new(n as nat, |i: int| a) { unimplemented!() }
//@ file BLD = src/stub/builder.rs
//@ item BLD GdbStubBuilderError
#[verifier::external]
impl core::fmt::Debug for GdbStubBuilderError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
//@ item BLD GdbStubBuilder
//@ impl @expanded mod stub / mod builder / GdbStubBuilder<'a, T, C> ==> impl<'a, C: Connection> GdbStubBuilder<'a, T, C>
//@ fn new
//@ ret r
//@ spec
    ensures r.conn == conn, r.packet_buffer is None, r.packet_buffer_size is None,
//@ end
//@ fn with_packet_buffer
//@ ret r
//@ spec
    ensures r.conn == self.conn, r.packet_buffer_size == self.packet_buffer_size, r.packet_buffer is Some, (*r.packet_buffer->0)@ == old(packet_buffer)@,
//@ end
//@ fn packet_buffer_size
//@ ret r
//@ spec
    ensures r == (GdbStubBuilder { packet_buffer_size: Some(size), ..self }),
//@ end
//@ fn build
//@ ret r
//@ opt mut_slices
//@ opt drop_use
//@ subst :: alloc :: vec :: from_elem => vx_from_elem
//@ spec
    ensures ({
        let too_small = self.packet_buffer matches Some(b) && self.packet_buffer_size matches Some(n) && n > b@.len();
        &&& too_small ==> r == Result::<GdbStub<'a, T, C>, GdbStubBuilderError>::Err(GdbStubBuilderError::PacketBufSizeMismatch)
        &&& !too_small ==> (r matches Ok(g) && g.conn == self.conn && !g.inner.features.quiet() && !g.inner.features.mp()
                // the packets it can take: as many bytes as asked for, those of the buffer, or 4096
                && g.packet_buffer@.len() == (match self.packet_buffer_size { Some(n) => n as nat, None => match self.packet_buffer { Some(b) => b@.len(), None => 4096 } })
                && g.packet_buffer.growable() == (self.packet_buffer is None))
    }),
//@ end
//@ endimpl
//@ impl src/stub/mod.rs GdbStub<'a, T, C> ==> impl<'a, C: Connection> GdbStub<'a, T, C>
//@ fn builder
//@ ret r
//@ spec
    ensures r.conn == conn, r.packet_buffer is None, r.packet_buffer_size is None,
//@ end
//@ fn new
//@ ret r
//@ spec
    ensures r.conn == conn, r.packet_buffer@.len() == 4096, r.packet_buffer.growable(), !r.inner.features.quiet() && !r.inner.features.mp(),
//@ end
//@ endimpl
//@ impl SM GdbStubStateMachineInner<'a, state::Idle<T>, T, C> ==> impl<'a, C: Connection> GdbStubStateMachineInner<'a, state::Idle, T, C>
//@ fn from_plain_gdbstub
//@ ret r
//@ spec
    ensures r.i.conn == stub.conn, r.i.inner == stub.inner, r.i.packet_buffer == stub.packet_buffer, r.i.recv_packet.wf(r.i.packet_buffer@) && r.i.pending() == Seq::<u8>::empty(), r.state.deferred_ctrlc_stop_reason is None,
//@ at start
    assert(stub.packet_buffer@.take(0) =~= Seq::<u8>::empty());
//@ end
//@ endimpl
//@ impl src/stub/mod.rs GdbStub<'a, T, C> ==> impl<'a, C: Connection> GdbStub<'a, T, C>
//@ fn run_state_machine
//@ ret r
//@ opt q
//@ opt map
//@ spec
    requires !self.conn.broken(),
    ensures final(target)@ == old(target)@, ({
        let cap = old(target)@.has;
        // a target without breakpoints has to say that it wants none
        let refused = !(cap.support_breakpoints && cap.support_sw_breakpoint) && !cap.guard_rail_implicit_sw_breakpoints;
        match r {
            Err(e) => if refused { e.kind is ImplicitSwBreakpoints } else { e.kind matches InternalError::Connection(_, k) && k is Init },
            Ok(m) => !refused && (m matches GdbStubStateMachine::Idle(m) && m.i.wf() && m.i.pending() == Seq::<u8>::empty() && m.i.packet_buffer == self.packet_buffer && m.i.inner == self.inner && m.state.deferred_ctrlc_stop_reason is None && m.i.conn.out() == self.conn.out()),
        }
    }),
//@ end
//@ endimpl
