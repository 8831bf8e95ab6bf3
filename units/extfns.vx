pub assume_specification[ <NonZeroUsize as PartialEq>::eq ](a: &NonZeroUsize, b: &NonZeroUsize) -> (r: bool)
    ensures r == (*a == *b);
// ---- extended mode: !, R, vAttach, vRun, qC and the settings of a program to be run
//@ assume cmds2
//@ include arglist.vx
//@ assume -
impl<'a> VxArgIter for VxArgs<'a> { open spec fn items(&self) -> Seq<Seq<u8>> { arglist(self.rest()) } }
//@ each F T = exclamation_mark ExclamationMark ; _vAttach vAttach ; _qC qC ; _vRun vRun ; _QDisableRandomization QDisableRandomization ; _QEnvironmentHexEncoded QEnvironmentHexEncoded ; _QEnvironmentUnset QEnvironmentUnset ; _QEnvironmentReset QEnvironmentReset ; _QSetWorkingDir QSetWorkingDir ; _QStartupWithShell QStartupWithShell
pub mod @F@ { use super::*;
//@ item src/protocol/commands/@F@.rs @T@
}
//@ endeach
pub mod _r_upcase { use super::*;
//@ item src/protocol/commands/_r_upcase.rs R
}
pub mod ext { use super::*;
//@ item @expanded mod protocol / mod commands / mod ext / ExtendedMode
}
pub use ext::ExtendedMode; pub use exclamation_mark::ExclamationMark;
pub open spec fn needs_ok<C: Connection>(reply: Option<Seq<u8>>, r: HR<C>) -> bool { r == HR::<C>::Ok(HandlerStatus::NeedsOk) && reply == Some(Seq::<u8>::empty()) }
// a target call whose failure is reported to the client; `OK` if it succeeded
pub open spec fn ok_or_err<C: Connection, V>(x: Result<V, TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x {
        Err(e) => r == HR::<C>::Err(Result::<V, TargetError<VxError>>::Err(e).herr()->Err_0),
        Ok(_) => needs_ok::<C>(reply, r),
    }
}
// the program and the thread to name in reply to qC
pub open spec fn qc_tid(s: St, m: St, cur: Tid, t: Result<Tid, VxError>) -> bool {
    if s.has.multi && cur == single_tid() {
        exists|all: Seq<Tid>, x| m == #[trigger] s.did(Ev::MultiThreadBase_list_active_threads(all, x)) && t == (match x {
            Ok(_) => Result::<Tid, VxError>::Ok(if all.len() == 0 { single_tid() } else { all[0] }),
            Err(e) => Err(e),
        })
    } else { m == s && t == Result::<Tid, VxError>::Ok(if s.has.multi { cur } else { single_tid() }) }
}
pub broadcast proof fn lemma_qc(m: St, all: Seq<Tid>, x: Result<(), VxError>)
    requires m.has.multi,
    ensures 
        qc_tid(m, #[trigger] m.did(Ev::MultiThreadBase_list_active_threads(all, x)), single_tid(), match x { Ok(_) => Result::<Tid, VxError>::Ok(if all.len() == 0 { single_tid() } else { all[0] }), Err(e) => Err(e) }),
{}
#[verifier::opaque] pub open spec fn qc_spec<C: Connection>(s: St, f: St, mp: bool, cur: Tid, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    ||| f == s && io_err::<C>(r)
    ||| exists|p: Result<Pid, VxError>| {
            let m = #[trigger] s.did(Ev::CurrentActivePid_current_active_pid(p));
            match p {
                Err(e) => f == m && r == HR::<C>::Err(InternalError::TargetError(e)),
                Ok(pid) => exists|t: Result<Tid, VxError>| #[trigger] qc_tid(m, f, cur, t) && match t {
                    Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
                    Ok(tid) => match r {
                        Ok(h) => h is Handled && exists|w: Seq<u8>| #[trigger] is_tid_text(w, named(mp, pid, tid)) && reply == Some(ascii("QC"@) + w),
                        Err(_) => io_err::<C>(r),
                    },
                },
            }
        }
}
// the program was started or attached to: where it stopped is reported
pub open spec fn then_stop<C: Connection, V>(s: St, m: St, f: St, mp: bool, x: Result<V, TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x {
        Err(e) => f == m && r == HR::<C>::Err(Result::<V, TargetError<VxError>>::Err(e).herr()->Err_0),
        Ok(_) => stop_reply::<C>(m, f, mp, Seq::empty(), reply, r),
    }
}
pub open spec fn ext_spec<C: Connection>(s: St, f: St, mp: bool, cur: Tid, c: ExtendedMode<'_>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if !s.has.support_extended_mode { silent::<C>(s, f, reply, r) }
    else {
        match c {
            ExtendedMode::ExclamationMark(_) => exists|x: Result<(), VxError>| f == #[trigger] s.did(Ev::ExtendedMode_on_start(x)) && match x { Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)), Ok(_) => needs_ok::<C>(reply, r) },
            // no reply to R
            ExtendedMode::R(_) => exists|x: Result<(), VxError>| f == #[trigger] s.did(Ev::ExtendedMode_restart(x)) && match x { Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)), Ok(_) => r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(Seq::<u8>::empty()) },
            ExtendedMode::vAttach(c) =>
                if !s.has.support_current_active_pid { f == s && r == HR::<C>::Err(InternalError::MissingCurrentActivePidImpl) }
                else { exists|x: Result<(), TargetError<VxError>>| then_stop::<C, ()>(s, #[trigger] s.did(Ev::ExtendedMode_attach(c.pid, x)), f, mp, x, reply, r) },
            ExtendedMode::vRun(c) => exists|x: Result<Pid, TargetError<VxError>>| then_stop::<C, Pid>(s, #[trigger] s.did(Ev::ExtendedMode_run(oview(c.filename), arglist(Some(c.args.raw())), x)), f, mp, x, reply, r),
            ExtendedMode::qC(_) => if s.has.support_current_active_pid { qc_spec::<C>(s, f, mp, cur, reply, r) } else { silent::<C>(s, f, reply, r) },
            ExtendedMode::QDisableRandomization(c) => if s.has.support_configure_aslr { exists|x: Result<(), TargetError<VxError>>| f == #[trigger] s.did(Ev::ConfigureAslr_cfg_aslr(c.value, x)) && ok_or_err::<C, ()>(x, reply, r) } else { silent::<C>(s, f, reply, r) },
            ExtendedMode::QEnvironmentHexEncoded(c) => if s.has.support_configure_env { exists|x: Result<(), TargetError<VxError>>| f == #[trigger] s.did(Ev::ConfigureEnv_set_env(c.key@, oview(c.value), x)) && ok_or_err::<C, ()>(x, reply, r) } else { silent::<C>(s, f, reply, r) },
            ExtendedMode::QEnvironmentUnset(c) => if s.has.support_configure_env { exists|x: Result<(), TargetError<VxError>>| f == #[trigger] s.did(Ev::ConfigureEnv_remove_env(c.key@, x)) && ok_or_err::<C, ()>(x, reply, r) } else { silent::<C>(s, f, reply, r) },
            ExtendedMode::QEnvironmentReset(_) => if s.has.support_configure_env { exists|x: Result<(), TargetError<VxError>>| f == #[trigger] s.did(Ev::ConfigureEnv_reset_env(x)) && ok_or_err::<C, ()>(x, reply, r) } else { silent::<C>(s, f, reply, r) },
            ExtendedMode::QSetWorkingDir(c) => if s.has.support_configure_working_dir { exists|x: Result<(), TargetError<VxError>>| f == #[trigger] s.did(Ev::ConfigureWorkingDir_cfg_working_dir(oview(c.dir), x)) && ok_or_err::<C, ()>(x, reply, r) } else { silent::<C>(s, f, reply, r) },
            ExtendedMode::QStartupWithShell(c) => if s.has.support_configure_startup_shell { exists|x: Result<(), TargetError<VxError>>| f == #[trigger] s.did(Ev::ConfigureStartupShell_cfg_startup_with_shell(c.value, x)) && ok_or_err::<C, ()>(x, reply, r) } else { silent::<C>(s, f, reply, r) },
        }
    }
}
//@ impl src/stub/core_impl/extended_mode.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_extended_mode
//@ attr #[verifier::loop_isolation(false)]
//@ opt seg=let tid = match target.base_ops() => res.write_specific_thread_id
//@ opt segret=tid
//@ opt sig=fn qc_thread(&mut self, target: &mut T) -> Result<Tid, HR<C>>
//@ opt callbacks=list_active_threads
//@ opt q
//@ ret r
//@ spec
    ensures *final(self) == *old(self),
        exists|t: Result<Tid, VxError>| #[trigger] qc_tid(old(target)@, final(target)@, old(self).current_mem_tid, t) && r == (match t { Ok(t) => Result::<Tid, HR<C>>::Ok(t), Err(e) => Err(HR::<C>::Err(InternalError::TargetError(e))) }),
//@ at start
    broadcast use lemma_qc;
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(), err is Ok,
        first_tid == (if vx_cb.pos() == 0 { None::<Tid> } else { Some(vx_cb.all()[0]) }),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at end
    proof {
        let st0 = old(target)@;
        let cur = self.current_mem_tid;
        if st0.has.multi && cur == single_tid() { assert(exists|all: Seq<Tid>, x| target@ == #[trigger] st0.did(Ev::MultiThreadBase_list_active_threads(all, x))); }
        assert(qc_tid(st0, target@, cur, Result::<Tid, VxError>::Ok(tid)));
    }
//@ end
//@ fn handle_extended_mode
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@ opt cut0=let tid = match target.base_ops() => res.write_specific_thread_id => self.qc_thread(target) => let tid
//@ ret r
//@ opt q
//@ opt lits
//@ opt guards
//@ opt drop_use
//@ subst Args :: new (& mut cmd . args . into_iter () ) => cmd . args . into_iter ()
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, command matches ExtendedMode::vRun(c) ==> argchars(c.args.raw()),
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        ext_spec::<C>(old(target)@, final(target)@, old(self).features.mp(), old(self).current_mem_tid, command, rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use group_plain;
    let ghost s0 = target@;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ at before:res.write_str
    reveal(qc_spec);
//@ at before:let tid = match self
    let ghost m1 = target@;
    assert(m1 == s0.did(Ev::CurrentActivePid_current_active_pid(Result::<Pid, VxError>::Ok(pid))));
//@ end
//@ endimpl
