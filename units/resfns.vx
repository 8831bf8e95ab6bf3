// ---- c, s, vCont
// Arch::Usize: num_traits::PrimInt + FromPrimitive
impl FromPrimitive for AUsize {
    #[verifier::external_body]
    fn from_u8(n: u8) -> (r: Option<Self>) { unimplemented!() }
}
impl Zero for AUsize {
    #[verifier::external_body]
    fn zero() -> (r: Self) { unimplemented!() }
}
impl CheckedMul for AUsize {
    #[verifier::external_body]
    fn checked_mul(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
pub broadcast axiom fn ausize_wide() ensures #[trigger] AUsize::maxv() >= 255;
pub use _vCont::*;
pub mod _c { use super::*;
//@ item src/protocol/commands/_c.rs c
}
pub mod _s { use super::*;
//@ item src/protocol/commands/_s.rs s
}
//@ item @expanded mod protocol / mod commands / mod ext / Resume
pub type VR<C> = Result<(), InternalError<VxError, <C as Connection>::Error>>;
pub open spec fn tr<C: Connection>(x: Result<(), VxError>) -> VR<C> { match x { Ok(_) => Ok(()), Err(e) => Err(InternalError::TargetError(e)) } }
pub open spec fn sig(n: nat) -> Option<Signal> { Some(Signal(n as u8)) }
// an end of a range, as the packet spells it
pub open spec fn addr_ok(s: Seq<u8>) -> bool { s.len() > 0 && all_hex(s) && hexnum(s) <= AUsize::maxv() }
pub open spec fn malformed<C: Connection>() -> VR<C> { Err(InternalError::PacketParse(PacketParseError::MalformedCommand)) }
// a single-threaded target is resumed once, the way the first action says
pub open spec fn vcont1<C: Connection>(s: St, f: St, acts: Seq<Option<ActV>>, r: VR<C>) -> bool {
    if acts.len() == 0 || acts[0] is None || acts.len() > 1 && acts[1] is None {
        f == s && r == malformed::<C>()
    } else if acts.len() > 2 || acts.len() > 1 && !((acts[1]->0).0 is Continue) {
        f == s && r == VR::<C>::Err(InternalError::PacketUnexpected)
    } else {
        match (acts[0]->0).0 {
            KindV::Continue => exists|x| f == #[trigger] s.did(Ev::SingleThreadResume_resume(None, x)) && r == tr::<C>(x),
            KindV::ContinueWithSig(n) => exists|x| f == #[trigger] s.did(Ev::SingleThreadResume_resume(sig(n), x)) && r == tr::<C>(x),
            KindV::Step if s.has.support_single_step => exists|x| f == #[trigger] s.did(Ev::SingleThreadSingleStep_step(None, x)) && r == tr::<C>(x),
            KindV::StepWithSig(n) if s.has.support_single_step => exists|x| f == #[trigger] s.did(Ev::SingleThreadSingleStep_step(sig(n), x)) && r == tr::<C>(x),
            KindV::Range(a, b) if s.has.support_range_step => if !addr_ok(a) || !addr_ok(b) { f == s && r == VR::<C>::Err(InternalError::TargetMismatch) } else {
                exists|x: AUsize, y: AUsize, z| x.val() == hexnum(a) && y.val() == hexnum(b) && f == #[trigger] s.did(Ev::SingleThreadRangeStepping_resume_range_step(x, y, z)) && r == tr::<C>(z)
            },
            _ => f == s && r == VR::<C>::Err(InternalError::PacketUnexpected),
        }
    }
}
pub open spec fn one_thread(t: Option<TidV>) -> Option<nat> { match t { Some(t) => match t.tid { IdV::Id(n) => Some(n), _ => None }, None => None } }
// one action of a multi-threaded target reaches the thread it names
pub open spec fn step<C: Connection>(s: St, f: St, act: Option<ActV>, r: VR<C>) -> bool {
    let no = |e: InternalError<VxError, C::Error>| f == s && r == VR::<C>::Err(e);
    match act {
        None => f == s && r == malformed::<C>(),
        Some((kind, t)) => {
            let to = one_thread(t);
            match kind {
                KindV::Continue => if to is None { f == s && r is Ok } else {
                    exists|t: Tid, x| t@ == to->0 && f == #[trigger] s.did(Ev::MultiThreadResume_set_resume_action_continue(t, None, x)) && r == tr::<C>(x)
                },
                KindV::ContinueWithSig(n) => if to is None { f == s && r is Ok } else {
                    exists|t: Tid, x| t@ == to->0 && f == #[trigger] s.did(Ev::MultiThreadResume_set_resume_action_continue(t, sig(n), x)) && r == tr::<C>(x)
                },
                KindV::Step => if !s.has.support_single_step { no(InternalError::UnexpectedStepPacket) } else if to is None { no(InternalError::PacketUnexpected) } else {
                    exists|t: Tid, x| t@ == to->0 && f == #[trigger] s.did(Ev::MultiThreadSingleStep_set_resume_action_step(t, None, x)) && r == tr::<C>(x)
                },
                KindV::StepWithSig(n) => if !s.has.support_single_step { no(InternalError::UnexpectedStepPacket) } else if to is None { no(InternalError::PacketUnexpected) } else {
                    exists|t: Tid, x| t@ == to->0 && f == #[trigger] s.did(Ev::MultiThreadSingleStep_set_resume_action_step(t, sig(n), x)) && r == tr::<C>(x)
                },
                KindV::Range(a, b) => if !s.has.support_range_step || to is None { no(InternalError::PacketUnexpected) } else if !addr_ok(a) || !addr_ok(b) { no(InternalError::TargetMismatch) } else {
                    exists|t: Tid, p: AUsize, q: AUsize, x| t@ == to->0 && p.val() == hexnum(a) && q.val() == hexnum(b)
                        && f == #[trigger] s.did(Ev::MultiThreadRangeStepping_set_resume_action_range_step(t, p, q, x)) && r == tr::<C>(x)
                },
                KindV::Stop => no(InternalError::PacketUnexpected),
            }
        },
    }
}
// the actions in order, up to the first which fails; then all threads are resumed at once
pub open spec fn vcontn<C: Connection>(s: St, f: St, acts: Seq<Option<ActV>>, r: VR<C>) -> bool
    decreases acts.len(),
{
    if acts.len() == 0 {
        exists|x| f == #[trigger] s.did(Ev::MultiThreadResume_resume(x)) && r == tr::<C>(x)
    } else {
        exists|m: St, x: VR<C>| #[trigger] step::<C>(s, m, acts[0], x) && match x {
            Err(_) => f == m && r == x,
            Ok(_) => vcontn::<C>(m, f, acts.skip(1), r),
        }
    }
}
pub proof fn lemma_vcontn<C: Connection>(s: St, acts: Seq<Option<ActV>>)
    ensures
        acts.len() > 0 ==> forall|f: St, r: VR<C>| r is Err && step::<C>(s, f, acts[0], r) ==> #[trigger] vcontn::<C>(s, f, acts, r),
        acts.len() > 0 ==> forall|m: St, f: St, r: VR<C>| step::<C>(s, m, acts[0], Ok(())) && #[trigger] vcontn::<C>(m, f, acts.skip(1), r) ==> vcontn::<C>(s, f, acts, r),
{}
pub open spec fn multi_vcont<C: Connection>(s: St, f: St, acts: Seq<Option<ActV>>, r: VR<C>) -> bool {
    exists|x| match x {
        Err(e) => f == s.did(Ev::MultiThreadResume_clear_resume_actions(x)) && r == VR::<C>::Err(InternalError::TargetError(e)),
        Ok(_) => vcontn::<C>(#[trigger] s.did(Ev::MultiThreadResume_clear_resume_actions(x)), f, acts, r),
    }
}
pub open spec fn vcont<C: Connection>(s: St, f: St, acts: Seq<Option<ActV>>, r: VR<C>) -> bool {
    if !s.has.multi { vcont1::<C>(s, f, acts, r) } else { multi_vcont::<C>(s, f, acts, r) }
}
pub open spec fn ost(o: ResumeOps) -> St { match o { ResumeOps::SingleThread(o) => o@, ResumeOps::MultiThread(o) => o@ } }
pub open spec fn deferred<C: Connection>(x: VR<C>) -> HR<C> { match x { Ok(_) => Ok(HandlerStatus::DeferredStopReason), Err(e) => Err(e) } }
pub open spec fn asked(cmd: Resume, cur: SpecificIdKind) -> Option<Seq<Option<ActV>>> {
    match cmd {
        Resume::vCont(vCont::Query) => None,
        Resume::vCont(vCont::Actions(a)) => Some(a.items()),
        Resume::c(_) => Some(seq![Some((KindV::Continue, Some(TidV { pid: None, tid: cur.vw() })))]),
        Resume::s(_) => Some(seq![Some((KindV::Step, Some(TidV { pid: None, tid: cur.vw() })))]),
    }
}
pub open spec fn vcont_reply(s: St) -> Seq<u8> {
    let a = ascii("vCont;c;C"@);
    let b = if s.has.support_single_step { a + ascii(";s;S"@) } else { a };
    if s.has.support_range_step { b + ascii(";r"@) } else { b }
}
pub open spec fn resume_spec<C: Connection>(s: St, f: St, cur: SpecificIdKind, cmd: Resume, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if !s.has.support_resume {
        f == s && r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(Seq::<u8>::empty())
    } else {
        match asked(cmd, cur) {
            None => f == s && match r { Ok(h) => h is Handled && reply == Some(vcont_reply(s)), Err(_) => io_err::<C>(r) },
            // no reply before the target has stopped
            Some(acts) => exists|x: VR<C>| vcont::<C>(s, f, acts, x) && r == #[trigger] deferred::<C>(x) && (r is Ok ==> reply == Some(Seq::<u8>::empty())),
        }
    }
}
//@ impl src/stub/core_impl/resume.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn do_vcont_single_thread
//@ subst dyn SingleThreadResume < Arch = T :: Arch , Error = VxError , > => SingleThreadResumeDyn
//@ ret r
//@ opt q
//@ opt guards
//@ opt drop_use
//@ spec
    ensures vcont1::<C>(old(ops)@, final(ops)@, actions.items(), r),
//@ at start
    broadcast use ausize_wide;
    let ghost c0 = ops@;
    let ghost is = actions.items();
    proof { assert(is.len() > 1 ==> is.skip(1)[0] == is[1]); assert(is.len() > 1 ==> is.skip(1).skip(1) =~= is.skip(2)); }
//@ end
//@ fn do_vcont_multi_thread
//@ subst dyn MultiThreadResume < Arch = T :: Arch , Error = VxError , > => MultiThreadResumeDyn
//@ ret r
//@ opt q
//@ opt map
//@ opt guards
//@ opt for_next
//@ opt drop_use
//@ spec
    ensures multi_vcont::<C>(old(ops)@, final(ops)@, actions.items(), r),
//@ at loop0.before
    let ghost s1 = ops@;
    let ghost acts = vx_it.items();
//@ loop 0
    invariant
        acts == actions.items(),
        exists|x: Result<(), VxError>| x is Ok && s1 == #[trigger] old(ops)@.did(Ev::MultiThreadResume_clear_resume_actions(x)),
        forall|f: St, r: VR<C>| vcontn::<C>(ops@, f, vx_it.items(), r) ==> #[trigger] vcontn::<C>(s1, f, acts, r),
    ensures
        vx_it.items().len() == 0,
    decreases vx_it.items().len(),
//@ at loop0.start
    let ghost i0 = vx_it.items();
    let ghost c0 = ops@;
    broadcast use ausize_wide;
    proof { lemma_vcontn::<C>(c0, i0); }
//@ at loop0.end
    proof { assert(step::<C>(c0, ops@, i0[0], Ok(()))); }
//@ end
//@ fn do_vcont
//@ ret r
//@ opt q
//@ subst ResumeOps < '_ , T :: Arch , VxError > => ResumeOps<'_>
//@ spec
    ensures *final(self) == *old(self), match ops {
        ResumeOps::SingleThread(o) => exists|x: VR<C>| #[trigger] vcont1::<C>(o@, final(o)@, actions.items(), x) && r == deferred::<C>(x),
        ResumeOps::MultiThread(o) => exists|x: VR<C>| #[trigger] multi_vcont::<C>(o@, final(o)@, actions.items(), x) && r == deferred::<C>(x),
    },
//@ end
//@ fn handle_stop_resume
//@ ret r
//@ opt q
//@ opt lits
//@ opt hoist_if
//@ opt drop_use
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        resume_spec::<C>(old(target)@, final(target)@, old(self).current_resume_tid, command, if r is Ok { Some(final(res).msg@) } else { None }, r),
//@ at start
    let ghost cmd0 = command;
    broadcast use group_plain;
    proof {
        assert(res.msg@ =~= Seq::<u8>::empty());
        assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); }
    }
//@ at after:let mut ops
    let ghost g0 = ost(ops);
//@ at after:let actions
    proof {
        assert(ost(ops) == g0);
        assert(actions.items() =~= asked(cmd0, self.current_resume_tid)->0);
        assert(g0.has.multi <==> ops is MultiThread);
    }
//@ at after:let vx_c1
    proof { assert(ost(ops) == g0); }
//@ at after:let vx_c2
    proof { assert(ost(ops) == g0); }
//@ end
//@ endimpl
