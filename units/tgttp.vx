//@ include tgt0.vx
// `cur`: the enumeration state the target stores for the stub (assumed: it gives out the same
// one each time and does not change it)
pub ghost struct St { pub log: Seq<Ev>, pub has: Caps, pub cur: Option<TracepointEnumerateCursor<AUsize>> }
impl St {
    pub open spec fn did(self, e: Ev) -> St { St { log: self.log.push(e), has: self.has, cur: self.cur } }
    pub open spec fn at(self, c: Option<TracepointEnumerateCursor<AUsize>>) -> St { St { log: self.log, has: self.has, cur: c } }
}
// ---- contract assumed of the `managed` crate: its enum, and reading through Deref
pub enum ManagedSlice<'a, T> { Borrowed(&'a mut [T]), Owned(Vec<T>) }
impl<'a, T> ManagedSlice<'a, T> {
    pub open spec fn view(&self) -> Seq<T> {
        match self { ManagedSlice::Borrowed(s) => s@, ManagedSlice::Owned(v) => v@ }
    }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_deref(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_deref_mut(&mut self) -> (r: &mut [T])
        ensures r@ == old(self)@, final(self)@ == final(r)@, final(r)@.len() == r@.len(),
    { unimplemented!() }
}
//@ each X = Tracepoint ; NewTracepoint ; TracepointAction ; TracepointSourceType ; SourceTracepoint ; ExperimentStatus ; ExperimentExplanation ; BufferShape ; TraceBufferConfig ; FrameRequest ; FrameDescription ; TracepointStatus ; TracepointEnumerateCursor ; TracepointEnumerateState ; TracepointEnumerateStep
//@ item src/target/ext/tracepoints.rs @X@
//@ endeach
// what an action says
pub ghost enum ActV { Registers(Seq<u8>), Memory(Option<u64>, AUsize, u64), Expression(Seq<u8>) }
impl<'a> TracepointAction<'a, AUsize> {
    pub open spec fn vw(&self) -> ActV {
        match self {
            TracepointAction::Registers { mask } => ActV::Registers(mask@),
            TracepointAction::Memory { basereg, offset, length } => ActV::Memory(*basereg, *offset, *length),
            TracepointAction::Expression { expr } => ActV::Expression(expr@),
        }
    }
}
pub ghost struct TSrcV { pub number: Tracepoint, pub addr: AUsize, pub kind: TracepointSourceType, pub start: u32, pub slen: u32, pub bytes: Seq<u8> }
impl<'a> SourceTracepoint<'a, AUsize> {
    pub open spec fn vw(&self) -> TSrcV { TSrcV { number: self.number, addr: self.addr, kind: self.kind, start: self.start, slen: self.slen, bytes: self.bytes@ } }
}
pub type TStep = TracepointEnumerateStep<AUsize>;
//@ dyn src/target/ext/tracepoints.rs Tracepoints ==> TracepointsDyn skip tracepoint_create_continue tracepoint_enumerate_state tracepoint_enumerate_start tracepoint_enumerate_action trace_buffer_request trace_experiment_status trace_experiment_info
//@ enddyn
impl TracepointsDyn {
    #[verifier::external_body]
    pub fn tracepoint_enumerate_state(&mut self) -> (r: &mut TracepointEnumerateState<AUsize>)
        ensures r.cursor == old(self)@.cur, final(self)@ == old(self)@.at(final(r).cursor),
            // assumed: fewer than 2^64 items are enumerated
            r.cursor matches Some(TracepointEnumerateCursor::Action { step, .. }) ==> step < u64::MAX,
            r.cursor matches Some(TracepointEnumerateCursor::Source { step, .. }) ==> step < u64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tracepoint_create_continue(&mut self, tp: Tracepoint, action: &TracepointAction<'_, AUsize>) -> (r: Result<(), TargetError<VxError>>)
        ensures final(self)@ == old(self)@.did(Ev::Tracepoints_tracepoint_create_continue(tp, action.vw(), r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tracepoint_enumerate_start(&mut self, tp: Option<Tracepoint>) -> (r: VxCb<&'static NewTracepoint<AUsize>, Result<TStep, TargetError<VxError>>>)
        ensures final(self)@ == old(self)@.did(Ev::Tracepoints_tracepoint_enumerate_start(tp, r.all(), r.result())), r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tracepoint_enumerate_action(&mut self, tp: Tracepoint, step: u64) -> (r: VxCb<&'static TracepointAction<'static, AUsize>, Result<TStep, TargetError<VxError>>>)
        ensures final(self)@ == old(self)@.did(Ev::Tracepoints_tracepoint_enumerate_action(tp, step, r.all(), r.result())), r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trace_buffer_request(&mut self, offset: u64, len: usize) -> (r: VxCb<&'static [u8], Result<(), TargetError<VxError>>>)
        ensures final(self)@ == old(self)@.did(Ev::Tracepoints_trace_buffer_request(offset, len, r.all(), r.result())), r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trace_experiment_status(&mut self) -> (r: VxCb<ExperimentStatus<'static>, Result<(), TargetError<VxError>>>)
        ensures final(self)@ == old(self)@.did(Ev::Tracepoints_trace_experiment_status(r.all(), r.result())), r.pos() == 0,
    { unimplemented!() }
    // assumed: what a target says in its own words is plain text
    #[verifier::external_body]
    pub fn trace_experiment_info(&mut self) -> (r: VxCb<ExperimentExplanation<'static>, Result<(), TargetError<VxError>>>)
        ensures final(self)@ == old(self)@.did(Ev::Tracepoints_trace_experiment_info(r.all(), r.result())), r.pos() == 0,
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).ok(),
    { unimplemented!() }
}
impl<'a> ExperimentExplanation<'a> {
    pub open spec fn ok(&self) -> bool { self matches ExperimentExplanation::Other(s) ==> plain(s.spec_bytes()) }
}
//@ dyn src/target/ext/tracepoints.rs TracepointSource ==> TracepointSourceDyn skip tracepoint_attach_source tracepoint_enumerate_source
//@ enddyn
impl TracepointSourceDyn {
    #[verifier::external_body]
    pub fn tracepoint_attach_source(&mut self, src: SourceTracepoint<'_, AUsize>) -> (r: Result<(), TargetError<VxError>>)
        ensures final(self)@ == old(self)@.did(Ev::TracepointSource_tracepoint_attach_source(src.vw(), r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tracepoint_enumerate_source(&mut self, tp: Tracepoint, step: u64) -> (r: VxCb<&'static SourceTracepoint<'static, AUsize>, Result<TStep, TargetError<VxError>>>)
        ensures final(self)@ == old(self)@.did(Ev::TracepointSource_tracepoint_enumerate_source(tp, step, r.all(), r.result())), r.pos() == 0,
    { unimplemented!() }
}
//@ dynend
    ExtendedMode_run(Option<Seq<u8>>, Seq<Seq<u8>>, Result<Pid, TargetError<VxError>>),
    Tracepoints_tracepoint_create_continue(Tracepoint, ActV, Result<(), TargetError<VxError>>),
    Tracepoints_tracepoint_enumerate_start(Option<Tracepoint>, Seq<&'static NewTracepoint<AUsize>>, Result<TStep, TargetError<VxError>>),
    Tracepoints_tracepoint_enumerate_action(Tracepoint, u64, Seq<&'static TracepointAction<'static, AUsize>>, Result<TStep, TargetError<VxError>>),
    Tracepoints_trace_buffer_request(u64, usize, Seq<&'static [u8]>, Result<(), TargetError<VxError>>),
    Tracepoints_trace_experiment_status(Seq<ExperimentStatus<'static>>, Result<(), TargetError<VxError>>),
    Tracepoints_trace_experiment_info(Seq<ExperimentExplanation<'static>>, Result<(), TargetError<VxError>>),
    TracepointSource_tracepoint_attach_source(TSrcV, Result<(), TargetError<VxError>>),
    TracepointSource_tracepoint_enumerate_source(Tracepoint, u64, Seq<&'static SourceTracepoint<'static, AUsize>>, Result<TStep, TargetError<VxError>>),
//@ enddynend
