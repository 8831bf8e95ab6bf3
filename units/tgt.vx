//@ include tgt0.vx
pub ghost struct St { pub log: Seq<Ev>, pub has: Caps }
impl St {
    pub open spec fn did(self, e: Ev) -> St { St { log: self.log.push(e), has: self.has } }
}
//@ dyn src/target/ext/tracepoints.rs Tracepoints ==> TracepointsDyn skip tracepoints_init tracepoint_create_begin tracepoint_create_continue tracepoint_create_complete tracepoint_status tracepoint_enumerate_state tracepoint_enumerate_start tracepoint_enumerate_action trace_buffer_configure trace_buffer_request trace_experiment_status trace_experiment_info trace_experiment_start trace_experiment_stop select_frame
//@ enddyn
//@ dyn src/target/ext/tracepoints.rs TracepointSource ==> TracepointSourceDyn skip tracepoint_attach_source tracepoint_enumerate_source
//@ enddyn
//@ dynend
    ExtendedMode_run(Option<Seq<u8>>, Seq<Seq<u8>>, Result<Pid, TargetError<VxError>>),
//@ enddynend
