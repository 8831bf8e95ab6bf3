// ---- run_blocking: a session from its start to its end
// assumed: reading and peeking send nothing; `did_read`: what came of it
pub trait ConnectionExt: Connection + Sized {
    spec fn did_read(c0: Self, c1: Self, r: Result<u8, Self::Error>) -> bool;
    fn read(&mut self) -> (r: Result<u8, Self::Error>)
        ensures Self::did_read(*old(self), *final(self), r), r is Ok ==> final(self).out() == old(self).out() && final(self).flushed() == old(self).flushed() && final(self).broken() == old(self).broken();
}
// assumed: the user's event loop reads from the connection, and does not write to it
//@ file RB = src/stub/mod.rs
//@ item RB mod run_blocking / Event
//@ item RB mod run_blocking / WaitForStopReasonError
pub trait BlockingEventLoop<C: ConnectionExt> {
    type StopReason: IntoStopReason<T>;
    spec fn waited(s0: St, s1: St, c0: C, c1: C, r: Result<Event<Self::StopReason>, WaitForStopReasonError<VxError, C::Error>>) -> bool;
    spec fn interrupted(s0: St, s1: St, r: Result<Option<Self::StopReason>, VxError>) -> bool;
    fn wait_for_stop_reason(target: &mut T, conn: &mut C) -> (r: Result<Event<Self::StopReason>, WaitForStopReasonError<VxError, C::Error>>)
        ensures Self::waited(old(target)@, final(target)@, *old(conn), *final(conn), r), final(target)@.has == old(target)@.has,
            r is Ok ==> final(conn).out() == old(conn).out() && final(conn).flushed() == old(conn).flushed() && final(conn).broken() == old(conn).broken();
    fn on_interrupt(target: &mut T) -> (r: Result<Option<Self::StopReason>, VxError>)
        ensures Self::interrupted(old(target)@, final(target)@, r), final(target)@.has == old(target)@.has;
}
// assumed: no buffer takes up the whole address space
#[verifier::external_body]
pub broadcast proof fn axiom_buffer_len(m: ManagedSlice<'_, u8>)
    ensures #[trigger] m@.len() < usize::MAX
{}
impl<A, B> VxFrom<GdbStubError<A, B>> for GdbStubError<A, B> {
    open spec fn from_spec(e: Self) -> Self { e }
    fn vx_conv(e: Self) -> Self { e }
}
pub type GE<C> = GdbStubError<VxError, <C as Connection>::Error>;
pub type Machine<'a, C> = GdbStubStateMachine<'a, T, C>;
pub open spec fn with_conn<'a, S, C: Connection>(m: GdbStubStateMachineInner<'a, S, T, C>, c: C) -> GdbStubStateMachineInner<'a, S, T, C> {
    GdbStubStateMachineInner { i: GdbStubStateMachineReallyInner { conn: c, ..m.i }, state: m.state }
}
pub open spec fn idle_took<'a, C: ConnectionExt>(m: GdbStubStateMachineInner<'a, state::Idle, T, C>, s0: St, s1: St, b: u8, r: MR<'a, C>) -> bool {
    match r { Ok(m1) => m.goes_on(s0, s1, b, m1), Err(e) => failed(m.i, s0, s1, b, e.kind) || m.late_failure(s0, s1, b, e) }
}
pub open spec fn running_took<'a, C: ConnectionExt>(m: GdbStubStateMachineInner<'a, state::Running, T, C>, s0: St, s1: St, b: u8, r: MR<'a, C>) -> bool {
    match r { Ok(m1) => m.goes_on(s0, s1, b, m1), Err(e) => failed(m.i, s0, s1, b, e.kind) || m.late_failure(s0, s1, b, e) }
}
pub open spec fn handled_interrupt<'a, C: ConnectionExt>(m: GdbStubStateMachineInner<'a, state::CtrlCInterrupt, T, C>, s0: St, s1: St, sr: Option<MultiThreadStopReason<AUsize>>, r: MR<'a, C>) -> bool {
    if m.state.from_idle { s1 == s0 && (r matches Ok(GdbStubStateMachine::Idle(n)) && n.i == m.i && n.state.deferred_ctrlc_stop_reason == sr) }
    else { match sr {
        None => s1 == s0 && (r matches Ok(GdbStubStateMachine::Running(n)) && n.i == m.i),
        Some(x) => stopped(m.i, s0, s1, x, r),
    } }
}
pub open spec fn sr_spec<S: IntoStopReason<T>>(r: Option<S>) -> Option<MultiThreadStopReason<AUsize>> { match r { Some(x) => Some(x.into_spec()), None => None } }
// what one turn does with the machine `m0`: it goes on, or the session ends with an error
#[verifier::opaque]
pub open spec fn turn<'a, C: ConnectionExt, E: BlockingEventLoop<C>>(m0: Machine<'a, C>, s0: St, s1: St, r: MR<'a, C>) -> bool {
    match m0 {
        // the client has the control: its next byte is taken
        GdbStubStateMachine::Idle(m) => {
            ||| exists|c1: C, e: C::Error| #[trigger] C::did_read(m.i.conn, c1, Err(e)) && s1 == s0 && (r matches Err(x) && x.kind == InternalError::<VxError, C::Error>::Connection(e, ConnectionErrorKind::Read))
            ||| exists|c1: C, b: u8| #[trigger] C::did_read(m.i.conn, c1, Ok(b)) && c1.out() == m.i.conn.out() && idle_took(with_conn(m, c1), s0, s1, b, r)
        },
        // the target runs: what the event loop saw first
        GdbStubStateMachine::Running(m) => exists|s: St, c1: C, w: Result<Event<E::StopReason>, WaitForStopReasonError<VxError, C::Error>>| #[trigger] E::waited(s0, s, m.i.conn, c1, w) && match w {
            Ok(Event::IncomingData(b)) => c1.out() == m.i.conn.out() && running_took(with_conn(m, c1), s, s1, b, r),
            Ok(Event::TargetStopped(sr)) => c1.out() == m.i.conn.out() && stopped(with_conn(m, c1).i, s, s1, sr.into_spec(), r),
            Err(WaitForStopReasonError::Target(e)) => s1 == s && (r matches Err(x) && x.kind == InternalError::<VxError, C::Error>::TargetError(e)),
            Err(WaitForStopReasonError::Connection(e)) => s1 == s && (r matches Err(x) && x.kind == InternalError::<VxError, C::Error>::Connection(e, ConnectionErrorKind::Read)),
        },
        // the client asked for an interrupt: the user is
        GdbStubStateMachine::CtrlCInterrupt(m) => exists|s: St, w: Result<Option<E::StopReason>, VxError>| #[trigger] E::interrupted(s0, s, w) && match w {
            Ok(sr) => handled_interrupt(m, s, s1, sr_spec(sr), r),
            Err(e) => s1 == s && (r matches Err(x) && x.kind == InternalError::<VxError, C::Error>::TargetError(e)),
        },
        GdbStubStateMachine::Disconnected(_) => false,
    }
}
pub broadcast proof fn lemma_received_wf<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, i1: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, byte: u8, x: Option<State>)
    requires #[trigger] received(i0, i1, s0, s1, byte, x),
    ensures i1.wf(),
{}
pub broadcast proof fn lemma_stopped_wf<'a, C: Connection>(i0: GdbStubStateMachineReallyInner<'a, T, C>, s0: St, s1: St, sr: MultiThreadStopReason<AUsize>, r: MR<'a, C>)
    requires #[trigger] stopped(i0, s0, s1, sr, r),
    ensures r matches Ok(m) ==> machine_i(m).wf(),
{}
pub proof fn lemma_next<'a, C: ConnectionExt, E: BlockingEventLoop<C>>(tr: Seq<(Machine<'a, C>, St)>, m: Machine<'a, C>, s: St)
    requires session::<C, E>(tr), turn::<C, E>(tr.last().0, tr.last().1, s, MR::<'a, C>::Ok(m)),
    ensures session::<C, E>(tr.push((m, s))),
{
    let tr1 = tr.push((m, s));
    assert forall|i: int| 0 <= i < tr1.len() - 1 implies turn::<C, E>((#[trigger] tr1[i]).0, tr1[i].1, tr1[i + 1].1, MR::<'a, C>::Ok(tr1[i + 1].0)) by {
        if i < tr.len() - 1 { assert(tr1[i] == tr[i] && tr1[i + 1] == tr[i + 1]); }
    }
}
// the session so far: the machine and the target after each turn
pub open spec fn session<'a, C: ConnectionExt, E: BlockingEventLoop<C>>(tr: Seq<(Machine<'a, C>, St)>) -> bool {
    tr.len() > 0 && forall|i: int| 0 <= i < tr.len() - 1 ==> turn::<C, E>((#[trigger] tr[i]).0, tr[i].1, tr[i + 1].1, MR::<'a, C>::Ok(tr[i + 1].0))
}
pub open spec fn opening<'a, C: Connection>(g: GdbStub<'a, T, C>, s: St, r: MR<'a, C>) -> bool {
    let refused = !(s.has.support_breakpoints && s.has.support_sw_breakpoint) && !s.has.guard_rail_implicit_sw_breakpoints;
    match r {
        Err(e) => if refused { e.kind is ImplicitSwBreakpoints } else { e.kind matches InternalError::Connection(_, k) && k is Init },
        Ok(m) => !refused && (m matches GdbStubStateMachine::Idle(m) && m.i.wf() && m.i.pending() == Seq::<u8>::empty() && m.i.packet_buffer == g.packet_buffer && m.i.inner == g.inner && m.state.deferred_ctrlc_stop_reason is None && m.i.conn.out() == g.conn.out()),
    }
}
//@ impl SM GdbStubStateMachineInner<'_, S, T, C> ==> impl<S, C: Connection> GdbStubStateMachineInner<'_, S, T, C>
//@ fn borrow_conn
//@ ret r
//@ spec
    ensures *r == old(self).i.conn, *final(self) == with_conn(*old(self), *final(r)),
//@ end
//@ endimpl
//@ impl src/stub/mod.rs GdbStub<'a, T, C> ==> impl<'a, C: ConnectionExt> GdbStub<'a, T, C>
//@ fn run_blocking
//@ ret r
//@ opt q
//@ opt map
//@ opt nowhere
//@ opt drop_use
//@ opt generics=<E: BlockingEventLoop<C>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ subst state_machine :: => 
//@ subst BlockingEventLoopEvent => Event
//@ spec
    requires !self.conn.broken(),
    ensures
        r matches Ok(reason) ==> exists|tr: Seq<(Machine<'a, C>, St)>| #[trigger] session::<C, E>(tr) && opening(self, old(target)@, Ok(tr[0].0)) && tr[0].1 == old(target)@
            && tr.last().1 == final(target)@ && (tr.last().0 matches GdbStubStateMachine::Disconnected(m) && m.state.reason == reason),
        r matches Err(e) ==> {
            ||| opening(self, old(target)@, MR::<'a, C>::Err(e)) && final(target)@ == old(target)@
            ||| exists|tr: Seq<(Machine<'a, C>, St)>| #[trigger] session::<C, E>(tr) && opening(self, old(target)@, Ok(tr[0].0)) && tr[0].1 == old(target)@
                && turn::<C, E>(tr.last().0, tr.last().1, final(target)@, MR::<'a, C>::Err(e))
        },
//@ at start
    hide(received); hide(stopped); hide(failed);
    broadcast use axiom_buffer_len, lemma_received_wf, lemma_stopped_wf;
    let ghost g0 = self;
    let ghost s0 = target@;
//@ at loop0.before
    let ghost mut tr: Seq<(Machine<'a, C>, St)> = seq![(gdb, target@)];
//@ loop 0
    invariant
        session::<C, E>(tr), opening(g0, s0, Ok(tr[0].0)), tr[0].1 == s0, s0 == old(target)@, g0 == self,
        tr.last() == (gdb, target@), machine_i(gdb).wf(),
//@ at loop0.start
    broadcast use axiom_buffer_len, lemma_received_wf, lemma_stopped_wf;
    reveal(turn);
    let ghost t0 = target@;
//@ at loop0.end
    proof { lemma_next::<C, E>(tr, gdb, target@); tr = tr.push((gdb, target@)); }
//@ end
//@ endimpl
