// ---- the handler
// a target call whose failure is reported to the client; `OK` if it succeeded
pub open spec fn t_ok<C: Connection, V>(x: Result<V, TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x {
        Err(e) => t_err::<C>(e, r),
        Ok(_) => r == HR::<C>::Ok(HandlerStatus::NeedsOk) && reply == Some(Seq::<u8>::empty()),
    }
}
pub open spec fn t_err<C: Connection>(e: TargetError<VxError>, r: HR<C>) -> bool { r == HR::<C>::Err(Result::<(), TargetError<VxError>>::Err(e).herr()->Err_0) }
// text, unless the connection broke
pub open spec fn t_txt<C: Connection>(t: Seq<u8>, reply: Option<Seq<u8>>, r: HR<C>) -> bool { io_err::<C>(r) || r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(t) }
// text collected from what the target delivered before it returned x
pub open spec fn t_got<C: Connection>(x: Result<(), TargetError<VxError>>, t: Seq<u8>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    io_err::<C>(r) || match x { Err(e) => t_err::<C>(e, r), Ok(_) => r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(t) }
}
// NB unlike res_frame this does not say that nothing was written when the target fails: what it
// delivered before failing has been (known finding late-tracepoint-error)
#[verifier::prophetic]
pub open spec fn tp_frame<C: Connection>(o: &ResponseWriter<'_, C>, n: &ResponseWriter<'_, C>, r: HR<C>) -> bool { n.same(o) && (r is Ok ==> rok(n)) }
pub open spec fn frame_app(m: Seq<u8>, d: FrameDescription) -> Seq<u8> {
    match d { FrameDescription::FrameNumber(n) => m + ascii("F"@) + nt(n as int), FrameDescription::Hit(t) => m + ascii("T"@) + nt(t.0 as int) }
}
pub open spec fn frames_app(l: Seq<FrameDescription>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { frame_app(frames_app(l.drop_last()), l.last()) } }
pub open spec fn numbered(l: Seq<FrameDescription>) -> bool decreases l.len() { l.len() > 0 && (l.last() is FrameNumber || numbered(l.drop_last())) }
pub open spec fn hexes(l: Seq<&'static [u8]>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { hexes(l.drop_last()) + hexs(l.last()@) } }
pub open spec fn news_app(l: Seq<&'static NewTracepoint<AUsize>>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { new_app(news_app(l.drop_last()), *l.last()) } }
pub open spec fn srcs_app(l: Seq<&'static SourceTracepoint<'static, AUsize>>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { src_app(srcs_app(l.drop_last()), l.last().vw()) } }
pub open spec fn acts_app(tp: Tracepoint, addr: AUsize, l: Seq<&'static TracepointAction<'static, AUsize>>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { act_app(acts_app(tp, addr, l.drop_last()), tp, addr, l.last().vw()) } }
pub open spec fn expls_app(m: Seq<u8>, l: Seq<ExperimentExplanation<'static>>) -> Seq<u8> decreases l.len() { if l.len() == 0 { m } else { expl_app(expls_app(m, l.drop_last()) + ascii(";"@), l.last()) } }
// what the next qTsP continues with
pub open spec fn nxt(c: Option<TracepointEnumerateCursor<AUsize>>, st: TStep) -> Option<TracepointEnumerateCursor<AUsize>> {
    match (c, st) {
        (None, _) => None,
        (_, TracepointEnumerateStep::Done) => None,
        (_, TracepointEnumerateStep::Next { tp, addr }) => Some(TracepointEnumerateCursor::New { tp, addr }),
        (Some(TracepointEnumerateCursor::Action { tp, addr, step }), TracepointEnumerateStep::Action) => Some(TracepointEnumerateCursor::Action { tp, addr, step: (step + 1) as u64 }),
        (Some(TracepointEnumerateCursor::Source { tp, addr, step }), TracepointEnumerateStep::Source) => Some(TracepointEnumerateCursor::Source { tp, addr, step: (step + 1) as u64 }),
        (Some(TracepointEnumerateCursor::New { tp, addr } | TracepointEnumerateCursor::Source { tp, addr, .. }), TracepointEnumerateStep::Action) => Some(TracepointEnumerateCursor::Action { tp, addr, step: 0 }),
        (Some(TracepointEnumerateCursor::New { tp, addr } | TracepointEnumerateCursor::Action { tp, addr, .. }), TracepointEnumerateStep::Source) => Some(TracepointEnumerateCursor::Source { tp, addr, step: 0 }),
    }
}
// m: after the target delivered the items whose text is t and returned x
pub open spec fn t_step<C: Connection>(m: St, f: St, x: Result<TStep, TargetError<VxError>>, cur: Option<TracepointEnumerateCursor<AUsize>>, t: Seq<u8>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    ||| io_err::<C>(r) && f == m
    ||| match x {
            Err(e) => f == m && t_err::<C>(e, r),
            Ok(st) => f == m.at(nxt(cur, st)) && r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(t),
        }
}
pub open spec fn is_frame_req(q: FrameRequest<&mut [u8]>, p: FrameRequest<AUsize>) -> bool {
    match q {
        FrameRequest::Select(n) => p == FrameRequest::<AUsize>::Select(n),
        FrameRequest::AtPC(a) => p matches FrameRequest::AtPC(x) && be_num(a@, x),
        FrameRequest::Hit(t) => p == FrameRequest::<AUsize>::Hit(t),
        FrameRequest::Between(a, b) => p matches FrameRequest::Between(x, y) && be_num(a@, x) && be_num(b@, y),
        FrameRequest::Outside(a, b) => p matches FrameRequest::Outside(x, y) && be_num(a@, x) && be_num(b@, y),
    }
}
pub open spec fn frame_req_fits(q: FrameRequest<&mut [u8]>) -> bool {
    match q {
        FrameRequest::Select(_) | FrameRequest::Hit(_) => true,
        FrameRequest::AtPC(a) => be_fits::<AUsize>(a@),
        FrameRequest::Between(a, b) | FrameRequest::Outside(a, b) => be_fits::<AUsize>(a@) && be_fits::<AUsize>(b@),
    }
}
pub open spec fn mism<C: Connection>(s: St, f: St, r: HR<C>) -> bool { f == s && r == HR::<C>::Err(InternalError::TargetMismatch) }
// m: after the target was told of the tracepoint
pub open spec fn new_then<C: Connection>(m: St, f: St, c: CreateTDP<'_>, x: Result<(), TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x {
        Err(_) => f == m && t_ok::<C, ()>(x, reply, r),
        Ok(_) => if c.more { f == m && t_ok::<C, ()>(x, reply, r) } else {
            exists|y| f == #[trigger] m.did(Ev::Tracepoints_tracepoint_create_complete(c.number, y)) && t_ok::<C, ()>(y, reply, r)
        },
    }
}
#[verifier::opaque]
pub open spec fn qtdp_new<C: Connection>(s: St, f: St, c: CreateTDP<'_>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match c.unsupported_option {
        Some(o) => f == s && r == HR::<C>::Err(InternalError::TracepointFeatureUnimplemented(o)),
        None => if !be_fits::<AUsize>(c.addr@) { mism::<C>(s, f, r) } else {
            exists|t: NewTracepoint<AUsize>, x| new_of(c, t) && new_then::<C>(#[trigger] s.did(Ev::Tracepoints_tracepoint_create_begin(t, x)), f, c, x, reply, r)
        },
    }
}
#[verifier::opaque]
pub open spec fn tp_spec<C: Connection>(s: St, f: St, c: Tracepoints<'_>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    let no = silent::<C>(s, f, reply, r);
    if !s.has.support_tracepoints { no } else {
        match c {
            Tracepoints::QTinit(_) => exists|x| f == #[trigger] s.did(Ev::Tracepoints_tracepoints_init(x)) && t_ok::<C, ()>(x, reply, r),
            Tracepoints::QTStart(_) => exists|x| f == #[trigger] s.did(Ev::Tracepoints_trace_experiment_start(x)) && t_ok::<C, ()>(x, reply, r),
            Tracepoints::QTStop(_) => exists|x| f == #[trigger] s.did(Ev::Tracepoints_trace_experiment_stop(x)) && t_ok::<C, ()>(x, reply, r),
            Tracepoints::QTBuffer(c) => exists|x| f == #[trigger] s.did(Ev::Tracepoints_trace_buffer_configure(c.0, x)) && t_ok::<C, ()>(x, reply, r),
            Tracepoints::QTDPsrc(c) => if !s.has.support_tracepoint_source { no } else if !be_fits::<AUsize>(c.addr@) { mism::<C>(s, f, r) } else {
                exists|t: TSrcV, x| src_of(c, t) && f == #[trigger] s.did(Ev::TracepointSource_tracepoint_attach_source(t, x)) && t_ok::<C, ()>(x, reply, r)
            },
            Tracepoints::QTDP(QTDP::Create(c)) => qtdp_new::<C>(s, f, c, reply, r),
            Tracepoints::QTDP(QTDP::Extend(_)) => true,
            // the status of the tracepoint asked about
            Tracepoints::qTP(c) => if !be_fits::<AUsize>(c.addr@) { mism::<C>(s, f, r) } else {
                exists|a: AUsize, x: Result<TracepointStatus, TargetError<VxError>>| be_num(c.addr@, a) && f == #[trigger] s.did(Ev::Tracepoints_tracepoint_status(c.tracepoint, a, x)) && match x {
                    Err(e) => t_err::<C>(e, r),
                    Ok(v) => t_txt::<C>(ascii("V"@) + nt(v.hit_count as int) + ascii(":"@) + nt(v.bytes_used as int), reply, r),
                }
            },
            // the data delivered, or `l` for the end
            Tracepoints::qTBuffer(c) => exists|all: Seq<&'static [u8]>, x| f == #[trigger] s.did(Ev::Tracepoints_trace_buffer_request(c.offset, c.length, all, x))
                && t_got::<C>(x, if all.len() == 0 { ascii("l"@) } else { hexes(all) }, reply, r),
            // the frame found, or F-1
            Tracepoints::QTFrame(c) => if !frame_req_fits(c.0) { mism::<C>(s, f, r) } else {
                exists|p: FrameRequest<AUsize>, all: Seq<FrameDescription>, x| is_frame_req(c.0, p) && f == #[trigger] s.did(Ev::Tracepoints_select_frame(p, all, x))
                    && t_got::<C>(x, if numbered(all) { frames_app(all) } else { frames_app(all) + ascii("F-1"@) }, reply, r)
            },
            // the first status delivered, and the explanations
            Tracepoints::qTStatus(_) => exists|all: Seq<ExperimentStatus<'static>>, x| tp_status::<C>(#[trigger] s.did(Ev::Tracepoints_trace_experiment_status(all, x)), f, all, x, reply, r),
            // from the start
            Tracepoints::qTfP(_) => exists|all: Seq<&'static NewTracepoint<AUsize>>, x: Result<TStep, TargetError<VxError>>| tp_first::<C>(#[trigger] s.at(None).did(Ev::Tracepoints_tracepoint_enumerate_start(None, all, x)), f, all, x, reply, r),
            // from where it is
            Tracepoints::qTsP(_) => match s.cur {
                None => no,
                Some(TracepointEnumerateCursor::New { tp, .. }) => exists|all: Seq<&'static NewTracepoint<AUsize>>, x: Result<TStep, TargetError<VxError>>| t_step::<C>(#[trigger] s.did(Ev::Tracepoints_tracepoint_enumerate_start(Some(tp), all, x)), f, x, s.cur, news_app(all), reply, r),
                Some(TracepointEnumerateCursor::Action { tp, addr, step }) => exists|all: Seq<&'static TracepointAction<'static, AUsize>>, x: Result<TStep, TargetError<VxError>>| t_step::<C>(#[trigger] s.did(Ev::Tracepoints_tracepoint_enumerate_action(tp, step, all, x)), f, x, s.cur, acts_app(tp, addr, all), reply, r),
                Some(TracepointEnumerateCursor::Source { tp, step, .. }) => if !s.has.support_tracepoint_source { f == s && r == HR::<C>::Err(InternalError::TracepointUnsupportedSourceEnumeration) } else {
                    exists|all: Seq<&'static SourceTracepoint<'static, AUsize>>, x: Result<TStep, TargetError<VxError>>| t_step::<C>(#[trigger] s.did(Ev::TracepointSource_tracepoint_enumerate_source(tp, step, all, x)), f, x, s.cur, srcs_app(all), reply, r)
                },
            },
            Tracepoints::qTfV(_) => no,
            Tracepoints::qTsV(_) => no,
        }
    }
}
pub open spec fn tp_first<C: Connection>(m: St, f: St, all: Seq<&'static NewTracepoint<AUsize>>, x: Result<TStep, TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    t_step::<C>(m, f, x, if all.len() == 0 { None } else { Some(TracepointEnumerateCursor::New { tp: all.last().number, addr: all.last().addr }) }, news_app(all), reply, r)
}
pub open spec fn tp_status<C: Connection>(m: St, f: St, all: Seq<ExperimentStatus<'static>>, x: Result<(), TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    ||| f == m && io_err::<C>(r)
    ||| match x {
            Err(e) => f == m && t_err::<C>(e, r),
            Ok(_) => if all.len() == 0 { f == m && r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(Seq::<u8>::empty()) } else {
                exists|l: Seq<ExperimentExplanation<'static>>, y| f == #[trigger] m.did(Ev::Tracepoints_trace_experiment_info(l, y)) && t_got::<C>(y, expls_app(status_app(Seq::empty(), all[0]), l), reply, r)
            },
        }
}
// a copy of what is behind a reference (used where only Copy parts of it are bound)
#[verifier::external_body]
pub fn vx_copied<X>(o: Option<&X>) -> (r: Option<X>) ensures r is Some == (o is Some), r is Some ==> r->0 == *(o->0) { unimplemented!() }
pub struct FrameConv {}
//@ impl src/stub/core_impl/tracepoints.rs From<FrameRequest<&'a mut [u8]>> for Option<FrameRequest<U>> ==> impl FrameConv
//@ fn from
//@ opt rename=vx_frame
//@ opt generics=<'a>
//@ opt retty=Option<FrameRequest<AUsize>>
//@ opt novis
//@ subst U :: from_be_bytes => AUsize::from_be_bytes
//@ ret r
//@ spec
    ensures r is Some <==> frame_req_fits(s), r is Some ==> is_frame_req(s, r->0),
//@ end
//@ endimpl
//@ impl src/stub/core_impl/tracepoints.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_tracepoint_state_machine_step
//@ ret r
//@ opt ref_pats
//@ opt novis
//@ spec
    ensures *final(self) == *old(self), r is Ok,
        final(target)@ == if old(target)@.has.support_tracepoints { old(target)@.at(nxt(old(target)@.cur, step)) } else { old(target)@ },
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTinit
//@ opt sig=fn tp_init(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTinit(_QTinit::QTinit), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTStart
//@ opt sig=fn tp_start(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTStart(_QTStart::QTStart), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTStop
//@ opt sig=fn tp_stop(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTStop(_QTStop::QTStop), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTBuffer
//@ opt sig=fn tp_config(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, conf: _QTBuffer_upcase::QTBuffer) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTBuffer(conf), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTDPsrc
//@ opt sig=fn tp_src(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, src: QTDPsrc<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ subst SourceTracepoint :: < AUsize > => SourceTracepoint::<AUsize>
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTDPsrc(src), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::qTP
//@ opt sig=fn tp_status_of(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, qtp: _qTP::qTP<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::qTP(qtp), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::qTBuffer
//@ opt sig=fn tp_buffer(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, buf: _qTBuffer::qTBuffer) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ opt callbacks=trace_buffer_request
//@ subst Err ( e . into ( ) ) => Err(vx_from(e))
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), tp_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::qTBuffer(buf), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        wrote is Err ==> io_err::<C>(HR::<C>::Err(wrote->Err_0)), wrote is Ok ==> rok(res) && res.msg@ == hexes(cb0.all().take(vx_cb.pos() as int)) && wrote->Ok_0 == (vx_cb.pos() > 0),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.end
    proof { let p = vx_cb.pos() as int; assert(cb0.all().take(p).drop_last() =~= cb0.all().take(p - 1)); assert(cb0.all().take(p).last() == cb0.all()[p - 1]); }
//@ at loop0.after
    proof { assert(cb0.all().take(cb0.all().len() as int) =~= cb0.all()); }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTFrame
//@ opt sig=fn tp_frame_sel(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, req: _QTFrame::QTFrame<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ opt iife=0 => Self::tp_frame_one(res, desc, &mut any_results)
//@ opt callbacks=select_frame
//@ subst req . 0 . into ( ) => FrameConv::vx_frame(req.0)
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), tp_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTFrame(req), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Err ==> io_err::<C>(HR::<C>::Err(err->Err_0)), err is Ok ==> rok(res) && res.msg@ == frames_app(cb0.all().take(vx_cb.pos() as int)) && any_results == numbered(cb0.all().take(vx_cb.pos() as int)),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.end
    proof { let p = vx_cb.pos() as int; assert(cb0.all().take(p).drop_last() =~= cb0.all().take(p - 1)); assert(cb0.all().take(p).last() == cb0.all()[p - 1]); }
//@ at loop0.after
    proof { assert(cb0.all().take(cb0.all().len() as int) =~= cb0.all()); }
//@ end
//@ fn handle_tracepoints
//@ opt iife_fn=0
//@ opt sig=fn tp_frame_one(res: &mut ResponseWriter<'_, C>, desc: FrameDescription, any_results: &mut bool) -> Result<(), InternalError<VxError, C::Error>>
//@ subst any_results = true => *any_results = true
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires old(res).wf(),
    ensures wrote(old(res), final(res), r is Ok, frame_app(old(res).msg@, desc)), werr::<C>(r),
        r is Ok ==> *final(any_results) == (*old(any_results) || desc is FrameNumber),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::qTStatus
//@ opt sig=fn tp_stat(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ opt callbacks=trace_experiment_status,trace_experiment_info
//@ opt and_then=result
//@ subst e . into ( ) => vx_from(e)
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), tp_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::qTStatus(_qTStatus::qTStatus), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Some ==> io_err::<C>(HR::<C>::Err(err->0)),
        err is None ==> rok(res) && has_status == (vx_cb.pos() > 0) && res.msg@ == if has_status { status_app(Seq::empty(), cb0.all()[0]) } else { Seq::<u8>::empty() },
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ at loop1.before
    let ghost cb1 = vx_cb; let ghost m0 = res.msg@;
//@ loop 1
    invariant
        vx_cb.all() == cb1.all(), vx_cb.result() == cb1.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Some ==> io_err::<C>(HR::<C>::Err(err->0)), err is None ==> rok(res) && res.msg@ == expls_app(m0, cb1.all().take(vx_cb.pos() as int)),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop1.end
    proof { let p = vx_cb.pos() as int; assert(cb1.all().take(p).drop_last() =~= cb1.all().take(p - 1)); assert(cb1.all().take(p).last() == cb1.all()[p - 1]); }
//@ at loop1.after
    proof { assert(cb1.all().take(cb1.all().len() as int) =~= cb1.all()); }
//@ end
//@ fn handle_tracepoints
//@ opt arm=Tracepoints::QTDP
//@ opt sig=fn tp_tdp(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, q: QTDP<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ opt tail=fn
//@ attr #[verifier::loop_isolation(false)]
//@ opt call0=QTDP::Extend => self.tp_extend(res, ops, dtdp)
//@ subst NewTracepoint :: < AUsize > => NewTracepoint::<AUsize>
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_tracepoints,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        tp_spec::<C>(old(ops)@, final(ops)@, Tracepoints::QTDP(q), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
    reveal(qtdp_new);
//@ end
//@ endimpl
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn tp_extend(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut TracepointsDyn, dtdp: ExtendTDP<'_>) -> (r: Result<HandlerStatus, InternalError<VxError, C::Error>>)
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r), final(res).msg@ == old(res).msg@ 
    { unimplemented!() }
}
//@ impl src/stub/core_impl/tracepoints.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_tracepoints
//@ opt call0=Tracepoints::QTinit => self.tp_init(res, ops)
//@ opt call1=Tracepoints::qTStatus => self.tp_stat(res, ops)
//@ opt call2=Tracepoints::qTP => self.tp_status_of(res, ops, qtp)
//@ opt call3=Tracepoints::QTDP => self.tp_tdp(res, ops, q)
//@ opt call4=Tracepoints::QTDPsrc => self.tp_src(res, ops, src)
//@ opt call5=Tracepoints::qTBuffer => self.tp_buffer(res, ops, buf)
//@ opt call6=Tracepoints::QTBuffer => self.tp_config(res, ops, conf)
//@ opt call7=Tracepoints::QTStart => self.tp_start(res, ops)
//@ opt call8=Tracepoints::QTStop => self.tp_stop(res, ops)
//@ opt call9=Tracepoints::QTFrame => self.tp_frame_sel(res, ops, req)
//@ opt tail=fn
//@ opt callbacks=tracepoint_enumerate_start,tracepoint_enumerate_action,tracepoint_enumerate_source
//@ ret r
//@ opt q
//@ opt lits
//@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), tp_frame(old(res), final(res), r),
        tp_spec::<C>(old(target)@, final(target)@, command, rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    reveal(tp_spec);
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); }
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Some ==> io_err::<C>(HR::<C>::Err(err->0)), err is None ==> rok(res) && res.msg@ == news_app(cb0.all().take(vx_cb.pos() as int)) && started == (if vx_cb.pos() == 0 { None::<(Tracepoint, AUsize)> } else { Some((cb0.all()[vx_cb.pos() - 1].number, cb0.all()[vx_cb.pos() - 1].addr)) }),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.end
    proof { let p = vx_cb.pos() as int; assert(cb0.all().take(p).drop_last() =~= cb0.all().take(p - 1)); assert(cb0.all().take(p).last() == cb0.all()[p - 1]); }
//@ at loop0.after
    proof { assert(cb0.all().take(cb0.all().len() as int) =~= cb0.all()); }
//@ at loop1.before
    let ghost cb1 = vx_cb;
//@ loop 1
    invariant
        vx_cb.all() == cb1.all(), vx_cb.result() == cb1.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Some ==> io_err::<C>(HR::<C>::Err(err->0)), err is None ==> rok(res) && res.msg@ == news_app(cb1.all().take(vx_cb.pos() as int)),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop1.end
    proof { let p = vx_cb.pos() as int; assert(cb1.all().take(p).drop_last() =~= cb1.all().take(p - 1)); assert(cb1.all().take(p).last() == cb1.all()[p - 1]); }
//@ at loop1.after
    proof { assert(cb1.all().take(cb1.all().len() as int) =~= cb1.all()); }
//@ at loop2.before
    let ghost cb2 = vx_cb;
//@ loop 2
    invariant
        vx_cb.all() == cb2.all(), vx_cb.result() == cb2.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Some ==> io_err::<C>(HR::<C>::Err(err->0)), err is None ==> rok(res) && res.msg@ == acts_app(tp, addr, cb2.all().take(vx_cb.pos() as int)),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop2.end
    proof { let p = vx_cb.pos() as int; assert(cb2.all().take(p).drop_last() =~= cb2.all().take(p - 1)); assert(cb2.all().take(p).last() == cb2.all()[p - 1]); }
//@ at loop2.after
    proof { assert(cb2.all().take(cb2.all().len() as int) =~= cb2.all()); }
//@ at loop3.before
    let ghost cb3 = vx_cb;
//@ loop 3
    invariant
        vx_cb.all() == cb3.all(), vx_cb.result() == cb3.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        err is Some ==> io_err::<C>(HR::<C>::Err(err->0)), err is None ==> rok(res) && res.msg@ == srcs_app(cb3.all().take(vx_cb.pos() as int)),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop3.end
    proof { let p = vx_cb.pos() as int; assert(cb3.all().take(p).drop_last() =~= cb3.all().take(p - 1)); assert(cb3.all().take(p).last() == cb3.all()[p - 1]); }
//@ at loop3.after
    proof { assert(cb3.all().take(cb3.all().len() as int) =~= cb3.all()); }
//@ end
//@ endimpl
