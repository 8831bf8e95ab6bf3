// ---- qSupported, qAttached, D
pub mod _qSupported { use super::*;
//@ include qsupitems.vx
}
pub use _qSupported::Feature;
pub mod _qAttached { use super::*;
//@ item src/protocol/commands/_qAttached.rs qAttached
}
pub mod _d_upcase { use super::*;
//@ item src/protocol/commands/_d_upcase.rs D
}
//@ impl src/target/ext/extended_mode.rs AttachKind
//@ fn was_attached
//@ ret r
//@ spec
    ensures r == (self is Attach),
//@ end
//@ endimpl
// what the client said of `multiprocess`; a list with an empty entry is an error
pub open spec fn negotiated(rest: Option<Seq<u8>>, mp: bool) -> (Result<(), ()>, bool)
    decreases match rest { None => 0, Some(s) => 1 + s.len() },
{
    match rest {
        None => (Ok(()), mp),
        Some(s) => match _qSupported::feature_syntax(cut(s, 0x3b).0) {
            Err(_) => (Err(()), mp),
            Ok(None) => negotiated(cut_rest(s), mp),
            Ok(Some(on)) => negotiated(cut_rest(s), on),
        },
    }
}
pub open spec fn cut_rest(s: Seq<u8>) -> Option<Seq<u8>> { match cut(s, 0x3b).1 { Some(t) if t.len() < s.len() => Some(t), _ => None } }
pub broadcast proof fn lemma_cut_rest(s: Seq<u8>)
    ensures #[trigger] cut_rest(s) == cut(s, 0x3b).1,
{ lemma_find2(s, 0x3b, 0x3b); }
pub open spec fn opt(t: Seq<u8>, c: bool, lit: Seq<char>) -> Seq<u8> { if c { t + ascii(lit) } else { t } }
// each optional feature is advertised exactly if the target offers it
pub open spec fn sup_resume(cap: Caps, t: Seq<u8>) -> Seq<u8> {
    let t = opt(t, cap.support_resume && cap.support_reverse_cont, ";ReverseContinue+"@);
    let t = opt(t, cap.support_resume && cap.support_reverse_step, ";ReverseStep+"@);
    t
}
pub open spec fn sup_ext(cap: Caps, t: Seq<u8>) -> Seq<u8> {
    let t = opt(t, cap.support_extended_mode && cap.support_configure_aslr, ";QDisableRandomization+"@);
    let t = opt(t, cap.support_extended_mode && cap.support_configure_env, ";QEnvironmentHexEncoded+"@);
    let t = opt(t, cap.support_extended_mode && cap.support_configure_env, ";QEnvironmentUnset+"@);
    let t = opt(t, cap.support_extended_mode && cap.support_configure_env, ";QEnvironmentReset+"@);
    let t = opt(t, cap.support_extended_mode && cap.support_configure_startup_shell, ";QStartupWithShell+"@);
    let t = opt(t, cap.support_extended_mode && cap.support_configure_working_dir, ";QSetWorkingDir+"@);
    t
}
pub open spec fn sup_bp(cap: Caps, t: Seq<u8>) -> Seq<u8> {
    let t = opt(t, cap.support_breakpoints && cap.support_sw_breakpoint, ";swbreak+"@);
    let t = opt(t, cap.support_breakpoints && (cap.support_hw_breakpoint || cap.support_hw_watchpoint), ";hwbreak+"@);
    t
}
pub open spec fn sup_trace(cap: Caps, t: Seq<u8>) -> Seq<u8> {
    let t = opt(t, cap.support_tracepoints, ";QTBuffer:size+"@);
    let t = opt(t, cap.support_tracepoints && cap.support_tracepoint_source, ";TracepointSource+"@);
    let t = opt(t, cap.support_catch_syscalls, ";QCatchSyscalls+"@);
    t
}
pub open spec fn sup_xfer(cap: Caps, t: Seq<u8>) -> Seq<u8> {
    let t = opt(t, cap.use_target_description_xml && (AArch::xml() is Some || cap.support_target_description_xml_override), ";qXfer:features:read+"@);
    let t = opt(t, cap.support_memory_map, ";qXfer:memory-map:read+"@);
    let t = opt(t, cap.support_exec_file, ";qXfer:exec-file:read+"@);
    let t = opt(t, cap.support_auxv, ";qXfer:auxv:read+"@);
    let t = opt(t, cap.support_libraries_svr4, ";qXfer:libraries-svr4:read+"@);
    t
}
pub open spec fn supported(cap: Caps, w: Seq<u8>) -> Seq<u8> {
    let t = ascii("PacketSize="@) + hexs(w);
    let t = t + ascii(";vContSupported+;multiprocess+"@);
    let t = opt(t, cap.use_no_ack_mode, ";QStartNoAckMode+"@);
    sup_xfer(cap, sup_trace(cap, sup_bp(cap, sup_ext(cap, sup_resume(cap, t)))))
}
//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_base
//@ opt arm=Base::qSupported
//@ opt seg=if let Some(resume_ops) => if let Some(ops) = target.support_extended_mode()
//@ opt sig=fn qsupported_resume(res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<(), InternalError<VxError, C::Error>>
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures final(target)@ == old(target)@, final(res).same(old(res)),
        r is Ok ==> rok(final(res)) && final(res).msg@ == sup_resume(old(target)@.has, old(res).msg@),
        r matches Err(e) ==> e is Connection,
//@ at start
    broadcast use group_plain;
//@ end
//@ fn handle_base
//@ opt arm=Base::qSupported
//@ opt seg=if let Some(ops) = target.support_extended_mode() => if let Some(ops) = target.support_breakpoints()
//@ opt sig=fn qsupported_ext(res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<(), InternalError<VxError, C::Error>>
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures final(target)@ == old(target)@, final(res).same(old(res)),
        r is Ok ==> rok(final(res)) && final(res).msg@ == sup_ext(old(target)@.has, old(res).msg@),
        r matches Err(e) ==> e is Connection,
//@ at start
    broadcast use group_plain;
//@ end
//@ fn handle_base
//@ opt arm=Base::qSupported
//@ opt seg=if let Some(ops) = target.support_breakpoints() => if let Some(ops) = target.support_tracepoints()
//@ opt sig=fn qsupported_bp(res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<(), InternalError<VxError, C::Error>>
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures final(target)@ == old(target)@, final(res).same(old(res)),
        r is Ok ==> rok(final(res)) && final(res).msg@ == sup_bp(old(target)@.has, old(res).msg@),
        r matches Err(e) ==> e is Connection,
//@ at start
    broadcast use group_plain;
//@ end
//@ fn handle_base
//@ opt arm=Base::qSupported
//@ opt seg=if let Some(ops) = target.support_tracepoints() => if target.use_target_description_xml()
//@ opt sig=fn qsupported_trace(res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<(), InternalError<VxError, C::Error>>
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures final(target)@ == old(target)@, final(res).same(old(res)),
        r is Ok ==> rok(final(res)) && final(res).msg@ == sup_trace(old(target)@.has, old(res).msg@),
        r matches Err(e) ==> e is Connection,
//@ at start
    broadcast use group_plain;
//@ end
//@ fn handle_base
//@ opt arm=Base::qSupported
//@ opt seg=if target.use_target_description_xml() => Ok(HandlerStatus::Handled)
//@ opt sig=fn qsupported_xfer(res: &mut ResponseWriter<'_, C>, target: &mut T) -> Result<(), InternalError<VxError, C::Error>>
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)),
    ensures final(target)@ == old(target)@, final(res).same(old(res)),
        r is Ok ==> rok(final(res)) && final(res).msg@ == sup_xfer(old(target)@.has, old(res).msg@),
        r matches Err(e) ==> e is Connection,
//@ at start
    broadcast use group_plain;
//@ end
//@ fn handle_base
//@ opt arm=Base::qSupported
//@ opt sig=fn base_qsupported(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _qSupported::qSupported<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ opt cut0=if let Some(resume_ops) => if let Some(ops) = target.support_extended_mode() => Self::qsupported_resume(res, target)
//@ opt cut1=if let Some(ops) = target.support_extended_mode() => if let Some(ops) = target.support_breakpoints() => Self::qsupported_ext(res, target)
//@ opt cut2=if let Some(ops) = target.support_breakpoints() => if let Some(ops) = target.support_tracepoints() => Self::qsupported_bp(res, target)
//@ opt cut3=if let Some(ops) = target.support_tracepoints() => if target.use_target_description_xml() => Self::qsupported_trace(res, target)
//@ opt cut4=if target.use_target_description_xml() => Ok(HandlerStatus::Handled) => Self::qsupported_xfer(res, target)
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ ret r
//@ opt q
//@ opt lits
//@ opt drop_use
//@ opt for_next
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures final(target)@ == old(target)@, res_frame(old(res), final(res), r),
        ({
            let n = negotiated(Some(cmd.features.sv()), old(self).features.mp());
            &&& final(self).features.mp() == n.1 && final(self).features.quiet() == old(self).features.quiet()
            &&& *final(self) == (GdbStubImpl { features: final(self).features, ..*old(self) })
            &&& n.0 is Err ==> r == HR::<C>::Err(InternalError::PacketParse(PacketParseError::MalformedCommand))
            &&& n.0 is Ok ==> match r {
                Ok(h) => h is Handled && exists|w: Seq<u8>| #[trigger] is_num_text(w, cmd.packet_buffer_len as int) && final(res).msg@ == supported(old(target)@.has, w),
                Err(_) => io_err::<C>(r),
            }
        }),
//@ at start
    broadcast use {group_plain, lemma_cut_rest};
    let ghost g0 = *self;
    let ghost n = negotiated(Some(cmd.features.sv()), self.features.mp());
//@ loop 0
    invariant
        negotiated(vx_it.rest(), self.features.mp()) == n, self.features.quiet() == g0.features.quiet(),
        *self == (GdbStubImpl { features: self.features, ..g0 }), g0 == *old(self), n == negotiated(Some(cmd.features.sv()), g0.features.mp()),
        rok(res), res.same(old(res)), res.msg@.len() == 0, target@ == old(target)@,
    ensures
        vx_it.rest() is None,
    decreases match vx_it.rest() { None => 0, Some(s) => 1 + s.len() },
//@ at loop0.after
    assert(n == (Result::<(), ()>::Ok(()), self.features.mp()));
//@ at before:res.write_str("PacketSize=")
    assert(res.msg@ + ascii("PacketSize="@) =~= ascii("PacketSize="@));
    let ghost (s0, cap, g1) = (target@, target@.has, *self);
//@ at before:if target.use_no_ack_mode()
    let ghost w = choose|w: Seq<u8>| #[trigger] is_num_text(w, cmd.packet_buffer_len as int) && res.msg@ == ascii("PacketSize="@) + hexs(w) + ascii(";vContSupported+;multiprocess+"@);
    assert(is_num_text(w, cmd.packet_buffer_len as int));
//@ end
//@ fn handle_base
//@ opt arm=Base::qAttached
//@ opt sig=fn base_qattached(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _qAttached::qAttached) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        attached_spec::<C>(old(target)@, final(target)@, cmd.pid, rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use group_plain;
    proof { assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_base
//@ opt arm=Base::D
//@ opt sig=fn base_d(&mut self, res: &mut ResponseWriter<'_, C>, cmd: _d_upcase::D) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        match r { Ok(h) => h == HandlerStatus::Disconnect(DisconnectReason::Disconnect) && final(res).msg@ == ascii("OK"@), Err(_) => io_err::<C>(r) },
//@ at start
    broadcast use group_plain;
    proof { assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ endimpl
pub open spec fn attached_spec<C: Connection>(s: St, f: St, pid: Option<Pid>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if s.has.support_extended_mode && pid is Some {
        exists|x: Result<AttachKind, TargetError<VxError>>| f == #[trigger] s.did(Ev::ExtendedMode_query_if_attached(pid->0, x)) && match x {
            Err(e) => r == HR::<C>::Err(Result::<AttachKind, TargetError<VxError>>::Err(e).herr()->Err_0),
            Ok(k) => match r { Ok(h) => h is Handled && reply == Some(if k is Attach { ascii("1"@) } else { ascii("0"@) }), Err(_) => io_err::<C>(r) },
        }
    } else {
        f == s && match r { Ok(h) => h is Handled && reply == Some(ascii("1"@)), Err(_) => io_err::<C>(r) }
    }
}
