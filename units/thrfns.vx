// ---- threads and processes: ?, H, T, qfThreadInfo, qsThreadInfo
pub mod _h_upcase { use super::*;
//@ item src/protocol/commands/_h_upcase.rs Op
//@ item src/protocol/commands/_h_upcase.rs H
}
pub mod _t_upcase { use super::*;
//@ item src/protocol/commands/_t_upcase.rs T
}
//@ subst protocol :: commands :: _h_upcase :: => _h_upcase ::
pub uninterp spec fn single_tid() -> Tid;
pub uninterp spec fn fake_pid() -> Pid;
#[verifier::external_body]
pub fn vx_single_tid() -> (r: Tid) ensures r == single_tid() { unimplemented!() }
#[verifier::external_body]
pub fn vx_fake_pid() -> (r: Pid) ensures r == fake_pid() { unimplemented!() }
//@ subst SINGLE_THREAD_TID => vx_single_tid()
//@ subst FAKE_PID => vx_fake_pid()
pub assume_specification<A>[ bool::then_some ](b: bool, a: A) -> (r: Option<A>)
    ensures r == (if b { Some(a) } else { None::<A> });
pub open spec fn first_tid(s: Seq<Tid>) -> Option<Tid> { if s.len() == 0 { None } else { Some(s[0]) } }
// some thread of the target: the first it lists
pub open spec fn any_tid<C: Connection>(s: St, f: St, r: Result<Option<Tid>, InternalError<VxError, C::Error>>) -> bool {
    if !s.has.multi {
        f == s && r == Result::<Option<Tid>, InternalError<VxError, C::Error>>::Ok(Some(single_tid()))
    } else {
        exists|all: Seq<Tid>, x| f == #[trigger] s.did(Ev::MultiThreadBase_list_active_threads(all, x)) && r == (match x {
            Ok(_) => Result::<Option<Tid>, InternalError<VxError, C::Error>>::Ok(first_tid(all)),
            Err(e) => Err(InternalError::TargetError(e)),
        })
    }
}
// the process: the target's, if it says, else a fixed one
pub open spec fn cur_pid<C: Connection>(s: St, f: St, r: Result<Pid, InternalError<VxError, C::Error>>) -> bool {
    if s.has.support_extended_mode && s.has.support_current_active_pid {
        exists|x| f == #[trigger] s.did(Ev::CurrentActivePid_current_active_pid(x)) && r == (match x {
            Ok(p) => Result::<Pid, InternalError<VxError, C::Error>>::Ok(p),
            Err(e) => Err(InternalError::TargetError(e)),
        })
    } else {
        f == s && r == Result::<Pid, InternalError<VxError, C::Error>>::Ok(fake_pid())
    }
}
// how a thread is named to the client: with its process iff multiprocess was negotiated
pub open spec fn named(mp: bool, pid: Pid, tid: Tid) -> SpecificThreadId {
    SpecificThreadId { pid: if mp { Some(SpecificIdKind::WithId(pid)) } else { None }, tid: SpecificIdKind::WithId(tid) }
}
// the stop reply to ? and vAttach
#[verifier::opaque] pub open spec fn stop_reply<C: Connection>(s: St, f: St, mp: bool, base: Seq<u8>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    exists|m: St, t: Result<Option<Tid>, InternalError<VxError, C::Error>>| #[trigger] any_tid::<C>(s, m, t) && match t {
        Err(e) => f == m && r == HR::<C>::Err(e),
        Ok(None) => f == m && match r { Ok(h) => h is Handled && reply == Some(base + ascii("W00;"@)), Err(_) => io_err::<C>(r) },
        Ok(Some(tid)) => {
            ||| f == m && io_err::<C>(r)
            ||| exists|p: Result<Pid, InternalError<VxError, C::Error>>| #[trigger] cur_pid::<C>(m, f, p) && match p {
                Err(e) => r == HR::<C>::Err(e),
                Ok(pid) => match r {
                    Ok(h) => h is Handled && exists|w: Seq<u8>| #[trigger] is_tid_text(w, named(mp, pid, tid)) && reply == Some(base + ascii("T05thread:"@) + w + ascii(";"@)),
                    Err(_) => io_err::<C>(r),
                },
            }
        },
    }
}
//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn get_sane_any_tid
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ opt q
//@ opt map
//@ opt callbacks=list_active_threads
//@ spec
    ensures *final(self) == *old(self), any_tid::<C>(old(target)@, final(target)@, r),
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(),
        vx_cb.pos() <= vx_cb.all().len(),
        first_tid == (if vx_cb.pos() == 0 { None::<Tid> } else { Some(vx_cb.all()[0]) }),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ end
//@ fn get_current_pid
//@ ret r
//@ opt and_then
//@ spec
    ensures *final(self) == *old(self), cur_pid::<C>(old(target)@, final(target)@, r),
//@ end
//@ fn report_reasonable_stop_reason
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        stop_reply::<C>(old(target)@, final(target)@, old(self).features.mp(), old(res).msg@, if r is Ok { Some(final(res).msg@) } else { None }, r),
//@ at start
    reveal(stop_reply);
    broadcast use group_plain;
    proof {
        reveal_strlit("W00"); reveal_strlit(";"); reveal_strlit("W00;");
        assert forall|b: Seq<u8>| #[trigger] (b + ascii("W00"@) + ascii(";"@)) == b + ascii("W00;"@) by { assert(b + ascii("W00"@) + ascii(";"@) =~= b + ascii("W00;"@)); }
    }
//@ end
//@ endimpl
// the list of threads sent to the client
pub open spec fn is_thread_list(w: Seq<u8>, mp: bool, pid: Pid, l: Seq<Tid>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { w == Seq::<u8>::empty() }
    else if l.len() == 1 { is_tid_text(w, named(mp, pid, l[0])) }
    else { exists|a: Seq<u8>, b: Seq<u8>| is_thread_list(a, mp, pid, l.drop_last()) && is_tid_text(b, named(mp, pid, l.last())) && w == #[trigger] glue(a, b) }
}
pub open spec fn glue(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { a + ascii(","@) + b }
pub proof fn lemma_list_one(b: Seq<u8>, mp: bool, pid: Pid, l: Seq<Tid>)
    requires l.len() == 1, is_tid_text(b, named(mp, pid, l.last())),
    ensures is_thread_list(b, mp, pid, l),
{}
pub proof fn lemma_list_push(a: Seq<u8>, b: Seq<u8>, mp: bool, pid: Pid, l: Seq<Tid>)
    requires l.len() > 1, is_thread_list(a, mp, pid, l.drop_last()), is_tid_text(b, named(mp, pid, l.last())),
    ensures is_thread_list(glue(a, b), mp, pid, l),
{}
pub open spec fn h_spec<C: Connection>(s: St, f: St, o: GdbStubImpl<T, C>, n: GdbStubImpl<T, C>, kind: _h_upcase::Op, tid: IdKind, r: HR<C>) -> bool {
    let ok = r == HR::<C>::Ok(HandlerStatus::NeedsOk);
    match tid {
        IdKind::Any => exists|t: Result<Option<Tid>, InternalError<VxError, C::Error>>| #[trigger] any_tid::<C>(s, f, t) && match t {
            Err(e) => n == o && r == HR::<C>::Err(e),
            Ok(None) => n == o && r == HR::<C>::Err(InternalError::NonFatalError(1)),
            Ok(Some(t)) => ok && match kind {
                _h_upcase::Op::Other => n == (GdbStubImpl { current_mem_tid: t, ..o }),
                _h_upcase::Op::StepContinue => n == (GdbStubImpl { current_resume_tid: SpecificIdKind::WithId(t), ..o }),
            },
        },
        IdKind::All => f == s && match kind {
            _h_upcase::Op::Other => n == o && r == HR::<C>::Err(InternalError::PacketUnexpected),
            _h_upcase::Op::StepContinue => ok && n == (GdbStubImpl { current_resume_tid: SpecificIdKind::All, ..o }),
        },
        IdKind::WithId(t) => f == s && ok && match kind {
            _h_upcase::Op::Other => n == (GdbStubImpl { current_mem_tid: t, ..o }),
            _h_upcase::Op::StepContinue => n == (GdbStubImpl { current_resume_tid: SpecificIdKind::WithId(t), ..o }),
        },
    }
}
pub open spec fn alive_reply<C: Connection>(a: bool, r: HR<C>) -> bool { r == (if a { HR::<C>::Ok(HandlerStatus::NeedsOk) } else { Err(InternalError::NonFatalError(1)) }) }
pub open spec fn t_spec<C: Connection>(s: St, f: St, tid: IdKind, r: HR<C>) -> bool {
    match tid {
        IdKind::WithId(t) => if !s.has.multi {
            f == s && alive_reply::<C>(t == single_tid(), r)
        } else {
            exists|x| f == #[trigger] s.did(Ev::MultiThreadBase_is_thread_alive(t, x)) && match x { Ok(a) => alive_reply::<C>(a, r), Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)) }
        },
        _ => f == s && r == HR::<C>::Err(InternalError::PacketUnexpected),
    }
}
pub open spec fn qf_spec<C: Connection>(s: St, f: St, mp: bool, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    ||| f == s && io_err::<C>(r)
    ||| exists|m: St, p: Result<Pid, InternalError<VxError, C::Error>>| #[trigger] cur_pid::<C>(s, m, p) && match p {
        Err(e) => f == m && r == HR::<C>::Err(e),
        Ok(pid) => if !s.has.multi {
            f == m && match r { Ok(h) => h is Handled && exists|w: Seq<u8>| #[trigger] is_tid_text(w, named(mp, pid, single_tid())) && reply == Some(ascii("m"@) + w), Err(_) => io_err::<C>(r) }
        } else {
            exists|all: Seq<Tid>, x| f == #[trigger] m.did(Ev::MultiThreadBase_list_active_threads(all, x)) && match x {
                Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
                Ok(_) => match r { Ok(h) => h is Handled && exists|w: Seq<u8>| #[trigger] is_thread_list(w, mp, pid, all) && reply == Some(ascii("m"@) + w), Err(_) => io_err::<C>(r) },
            }
        },
    }
}
//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_base
//@ opt arm=Base::H
//@ opt sig=fn base_h(&mut self, target: &mut T, cmd: _h_upcase::H) -> Result<HandlerStatus, InternalError<T::Error, C::Error>>
//@ ret r
//@ opt q
//@ spec
    ensures h_spec::<C>(old(target)@, final(target)@, *old(self), *final(self), cmd.kind, cmd.thread.tid, r),
//@ end
//@ fn handle_base
//@ opt arm=Base::T
//@ opt sig=fn base_t(&mut self, target: &mut T, cmd: _t_upcase::T) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt map
//@ spec
    ensures *final(self) == *old(self), t_spec::<C>(old(target)@, final(target)@, cmd.thread.tid, r),
//@ end
//@ fn handle_base
//@ opt arm=Base::qsThreadInfo
//@ opt sig=fn base_qs(&mut self, res: &mut ResponseWriter<'_, C>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        match r { Ok(h) => h is Handled && final(res).msg@ == ascii("l"@), Err(_) => io_err::<C>(r) },
//@ at start
    broadcast use group_plain;
    proof { assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_base
//@ opt arm=Base::qfThreadInfo
//@ opt sig=fn base_qf(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ opt q
//@ opt map
//@ opt lits
//@ opt callbacks=list_active_threads
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        qf_spec::<C>(old(target)@, final(target)@, old(self).features.mp(), if r is Ok { Some(final(res).msg@) } else { None }, r),
//@ at start
    broadcast use group_plain;
    proof { assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ at loop0.before
    let ghost cb0 = vx_cb;
    let ghost mut w: Seq<u8> = Seq::empty();
    proof { assert(res.msg@ =~= ascii("m"@) + w); }
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(),
        first == (vx_cb.pos() == 0) || err is Err,
        err is Err ==> io_err::<C>(HR::<C>::Err(err->Err_0)),
        res.same(old(res)), res.wf(),
        err is Ok ==> rok(res) && is_thread_list(w, self.features.mp(), pid, vx_cb.all().take(vx_cb.pos() as int)) && res.msg@ == ascii("m"@) + w,
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.start
    let ghost m0 = res.msg@;
    let ghost k0 = vx_cb.pos() as int;
    let ghost mp = self.features.mp();
//@ at loop0.end
    proof {
        if err is Ok {
            let l1 = cb0.all().take(k0 + 1);
            assert(l1.drop_last() =~= cb0.all().take(k0));
            assert(l1.last() == cb0.all()[k0]);
            let m1 = if k0 == 0 { m0 } else { m0 + ascii(","@) };
            let b = choose|b: Seq<u8>| #[trigger] is_tid_text(b, named(mp, pid, tid)) && res.msg@ == m1 + b;
            let w0 = w;
            if k0 == 0 { w = b; } else { w = w0 + ascii(","@) + b; }
            assert(is_tid_text(b, named(mp, pid, l1.last())));
            if k0 == 0 { lemma_list_one(b, mp, pid, l1); } else { lemma_list_push(w0, b, mp, pid, l1); }
            assert(is_thread_list(w, mp, pid, l1));
            assert(res.msg@ =~= ascii("m"@) + w);
        }
    }
//@ at loop0.after
    proof { assert(cb0.all().take(cb0.all().len() as int) =~= cb0.all()); }
//@ end
//@ endimpl
