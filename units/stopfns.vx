// ---- stop replies
//@ item src/target/ext/base/reverse_exec.rs ReplayLogPosition
//@ item src/target/ext/catch_syscalls.rs CatchSyscallPosition
//@ item src/stub/stop_reason.rs BaseStopReason
//@ item src/stub/stop_reason.rs MultiThreadStopReason
//@ item src/stub/core_impl/resume.rs FinishExecStatus
pub type ER<C> = Result<FinishExecStatus, InternalError<VxError, <C as Connection>::Error>>;
pub type VR<C> = Result<(), InternalError<VxError, <C as Connection>::Error>>;
// `T` sig, with the thread it is about
#[verifier::opaque]
pub open spec fn t_text<C: Connection>(s: St, f: St, mp: bool, tid: Option<Tid>, sig: int, t: Seq<u8>) -> bool {
    exists|w: Seq<u8>| #[trigger] is_num_text(w, sig) && match tid {
        None => f == s && t == ascii("T"@) + hexs(w),
        Some(tid) => exists|pid: Pid, x: Seq<u8>| cur_pid::<C>(s, f, Ok(pid)) && #[trigger] is_tid_text(x, named(mp, pid, tid)) && t == ascii("T"@) + hexs(w) + ascii("thread:"@) + x + ascii(";"@),
    }
}
// the thread a stop is about becomes the selected one
pub open spec fn selects<C: Connection>(o: GdbStubImpl<T, C>, n: GdbStubImpl<T, C>, tid: Option<Tid>) -> bool {
    match tid { None => n == o, Some(t) => n == (GdbStubImpl { current_mem_tid: t, current_resume_tid: SpecificIdKind::WithId(t), ..o }) }
}
pub open spec fn not_non_fatal<V, C: Connection>(r: Result<V, InternalError<VxError, C::Error>>) -> bool { !(r matches Err(InternalError::NonFatalError(_))) }
pub open spec fn stop_err<C: Connection>(s: St, f: St, e: InternalError<VxError, C::Error>) -> bool {
    e is Connection || cur_pid::<C>(s, f, Err(e))
}
pub open spec fn sup_break(s: St, c: bool) -> bool { s.has.support_breakpoints && c }
pub open spec fn supported(s: St, sr: MultiThreadStopReason<AUsize>) -> bool {
    match sr {
        BaseStopReason::SwBreak(_) => s.has.support_breakpoints && s.has.support_sw_breakpoint,
        BaseStopReason::HwBreak(_) => s.has.support_breakpoints && s.has.support_hw_breakpoint,
        BaseStopReason::Watch { .. } => s.has.support_breakpoints && s.has.support_hw_watchpoint,
        BaseStopReason::ReplayLog { .. } => s.has.support_resume && (s.has.support_reverse_cont || s.has.support_reverse_step),
        BaseStopReason::CatchSyscall { .. } => s.has.support_catch_syscalls,
        _ => true,
    }
}
pub open spec fn watch_name(k: WatchKind) -> Seq<u8> { match k { WatchKind::Write => ascii("watch:"@), WatchKind::Read => ascii("rwatch:"@), WatchKind::ReadWrite => ascii("awatch:"@) } }
#[verifier::opaque]
pub open spec fn num_reply(c: Seq<u8>, n: int, reply: Seq<u8>) -> bool { exists|w: Seq<u8>| #[trigger] is_num_text(w, n) && reply == c + hexs(w) }
// the reply to a stop: `mp` whether processes are named
pub open spec fn stop_text<C: Connection>(s: St, f: St, mp: bool, sr: MultiThreadStopReason<AUsize>, reply: Seq<u8>) -> bool {
    match sr {
        BaseStopReason::DoneStep => f == s && num_reply(ascii("S"@), 5, reply),
        BaseStopReason::Signal(g) => f == s && num_reply(ascii("S"@), g.0 as int, reply),
        BaseStopReason::Exited(c) => f == s && num_reply(ascii("W"@), c as int, reply),
        BaseStopReason::Terminated(g) => f == s && num_reply(ascii("X"@), g.0 as int, reply),
        BaseStopReason::SignalWithThread { tid, signal } => t_text::<C>(s, f, mp, Some(tid), signal.0 as int, reply),
        BaseStopReason::SwBreak(tid) => exists|t: Seq<u8>| #[trigger] t_text::<C>(s, f, mp, Some(tid), 5, t) && reply == t + ascii("swbreak:;"@),
        BaseStopReason::HwBreak(tid) => exists|t: Seq<u8>| #[trigger] t_text::<C>(s, f, mp, Some(tid), 5, t) && reply == t + ascii("hwbreak:;"@),
        BaseStopReason::Watch { tid, kind, addr } => exists|t: Seq<u8>, w: Seq<u8>| #[trigger] t_text::<C>(s, f, mp, Some(tid), 5, t) && #[trigger] is_num_text(w, addr.val())
            && reply == t + watch_name(kind) + hexs(w) + ascii(";"@),
        BaseStopReason::ReplayLog { tid, pos } => exists|t: Seq<u8>| #[trigger] t_text::<C>(s, f, mp, tid, 5, t)
            && reply == t + ascii("replaylog:"@) + (match pos { ReplayLogPosition::Begin => ascii("begin"@), ReplayLogPosition::End => ascii("end"@) }) + ascii(";"@),
        BaseStopReason::CatchSyscall { tid, number, position } => exists|t: Seq<u8>, w: Seq<u8>| #[trigger] t_text::<C>(s, f, mp, tid, 5, t) && #[trigger] is_num_text(w, number.val())
            && reply == t + (match position { CatchSyscallPosition::Entry => ascii("syscall_entry:"@), CatchSyscallPosition::Return => ascii("syscall_return:"@) }) + hexs(w) + ascii(";"@),
    }
}
pub open spec fn stop_tid(sr: MultiThreadStopReason<AUsize>) -> Option<Tid> {
    match sr {
        BaseStopReason::SignalWithThread { tid, .. } => Some(tid),
        BaseStopReason::SwBreak(tid) => Some(tid),
        BaseStopReason::HwBreak(tid) => Some(tid),
        BaseStopReason::Watch { tid, .. } => Some(tid),
        BaseStopReason::ReplayLog { tid, .. } => tid,
        BaseStopReason::CatchSyscall { tid, .. } => tid,
        _ => None,
    }
}
// the session ends exactly when the process does
pub open spec fn stop_status(sr: MultiThreadStopReason<AUsize>) -> FinishExecStatus {
    match sr {
        BaseStopReason::Exited(c) => FinishExecStatus::Disconnect(DisconnectReason::TargetExited(c)),
        BaseStopReason::Terminated(g) => FinishExecStatus::Disconnect(DisconnectReason::TargetTerminated(g)),
        _ => FinishExecStatus::Handled,
    }
}
//@ impl src/stub/core_impl/resume.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn write_stop_common
//@ attr #[verifier::rlimit(100)]
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures final(res).same(old(res)), r is Ok ==> rok(final(res)), not_non_fatal::<(), C>(r),
        selects(*old(self), *final(self), tid) || r is Err && *final(self) == *old(self),
        match r {
            Ok(_) => exists|t: Seq<u8>| #[trigger] t_text::<C>(old(target)@, final(target)@, old(self).features.mp(), tid, signal.0 as int, t) && final(res).msg@ == old(res).msg@ + t,
            Err(e) => e is Connection || cur_pid::<C>(old(target)@, final(target)@, Err(e)),
        },
//@ at start
    broadcast use group_plain;
    let ghost m0 = res.msg@;
    let ghost s0 = target@;
    let ghost g0 = *self;
//@ at end
    proof {
        reveal(t_text);
        let sig = signal.0 as int;
        let f = target@;
        let mp = g0.features.mp();
        match tid {
            None => {
                let w = choose|w: Seq<u8>| #[trigger] is_num_text(w, sig) && res.msg@ == m0 + ascii("T"@) + hexs(w);
                let t = ascii("T"@) + hexs(w);
                assert(res.msg@ =~= m0 + t);
                assert(t_text::<C>(s0, f, mp, tid, sig, t));
            },
            Some(id) => {
                let (w, x, k, pid) = choose|w: Seq<u8>, x: Seq<u8>, k: SpecificThreadId, pid: Pid| #[trigger] cur_pid::<C>(s0, f, Ok(pid)) && k.tid == SpecificIdKind::WithId(id) && k.pid == (if mp { Some(SpecificIdKind::WithId(pid)) } else { None::<SpecificIdKind> }) && #[trigger] is_num_text(w, sig) && #[trigger] is_tid_text(x, k) && res.msg@ == m0 + ascii("T"@) + hexs(w) + ascii("thread:"@) + x + ascii(";"@);
                let t = ascii("T"@) + hexs(w) + ascii("thread:"@) + x + ascii(";"@);
                assert(res.msg@ =~= m0 + t);
                assert(k.tid == named(mp, pid, id).tid);
                assert(k.pid == named(mp, pid, id).pid);
                assert(t_text::<C>(s0, f, mp, tid, sig, t));
            },
        }
    }
//@ end
//@ fn finish_exec
//@ ret r
//@ opt q
//@ opt lits
//@ opt and_then
//@ opt guards
//@ opt drop_use
//@ attr #[verifier::rlimit(200)]
//@ attr #[verifier::spinoff_prover]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures final(res).same(old(res)), r is Ok ==> rok(final(res)), not_non_fatal::<FinishExecStatus, C>(r),
        if !supported(old(target)@, stop_reason) {
            final(target)@ == old(target)@ && *final(self) == *old(self) && r == ER::<C>::Err(InternalError::UnsupportedStopReason)
        } else {
            match r {
                Ok(st) => st == stop_status(stop_reason) && stop_text::<C>(old(target)@, final(target)@, old(self).features.mp(), stop_reason, final(res).msg@)
                    && selects(*old(self), *final(self), stop_tid(stop_reason)),
                Err(e) => stop_err::<C>(old(target)@, final(target)@, e),
            }
        },
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    let ghost s0 = target@;
    let ghost g0 = *self;
    proof {
        reveal(num_reply);
        assert(res.msg@ =~= Seq::<u8>::empty());
        assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); }
    }
//@ at end
    proof {
        assert(supported(s0, stop_reason));
        assert(selects(g0, *self, stop_tid(stop_reason)));
        let f = target@;
        let mp = g0.features.mp();
        match stop_reason {
            BaseStopReason::DoneStep => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::Signal(g) => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::Exited(c) => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::Terminated(g) => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::SignalWithThread { tid, signal } => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::SwBreak(tid) => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::HwBreak(tid) => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::Watch { tid, kind, addr } => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::ReplayLog { tid, pos } => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
            BaseStopReason::CatchSyscall { tid, number, position } => { assert(stop_text::<C>(s0, f, mp, stop_reason, res.msg@)); },
        }
    }
//@ end
//@ endimpl
