// ---- which handler a command reaches (written by tools/gen_disp.py)
pub uninterp spec fn did_target_xml<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::TargetXml<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_target_xml(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::TargetXml<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_target_xml(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_resume<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::Resume<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_stop_resume(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::Resume<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_resume(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_x_upcase_packet<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::XUpcasePacket<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_x_upcase_packet(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::XUpcasePacket<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_x_upcase_packet(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_no_ack_mode<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::NoAckMode, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_no_ack_mode(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::NoAckMode) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_no_ack_mode(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_single_register_access<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::SingleRegisterAccess<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_single_register_access(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::SingleRegisterAccess<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_single_register_access(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_extended_mode<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::ExtendedMode<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_extended_mode(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::ExtendedMode<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_extended_mode(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_section_offsets<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::SectionOffsets, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_section_offsets(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::SectionOffsets) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_section_offsets(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_reverse_cont<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::ReverseCont, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_reverse_cont(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::ReverseCont) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_reverse_cont(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_reverse_step<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::ReverseStep, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_reverse_step(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::ReverseStep) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_reverse_step(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_memory_map<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::MemoryMap<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_memory_map(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::MemoryMap<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_memory_map(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_auxv<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::Auxv<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_auxv(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::Auxv<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_auxv(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_exec_file<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::ExecFile<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_exec_file(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::ExecFile<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_exec_file(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_host_io<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::HostIo<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_host_io(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::HostIo<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_host_io(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_catch_syscalls<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::CatchSyscalls<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_catch_syscalls(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::CatchSyscalls<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_catch_syscalls(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_thread_extra_info<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::ThreadExtraInfo<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_thread_extra_info(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::ThreadExtraInfo<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_thread_extra_info(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_lldb_register_info<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::LldbRegisterInfo, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_lldb_register_info(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::LldbRegisterInfo) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_lldb_register_info(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_libraries_svr4<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::LibrariesSvr4<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_libraries_svr4(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::LibrariesSvr4<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_libraries_svr4(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_tracepoints<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::Tracepoints<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_tracepoints(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::Tracepoints<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_tracepoints(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_breakpoints<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::Breakpoints<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_breakpoints(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::Breakpoints<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_breakpoints(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_monitor_cmd<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::MonitorCmd<'_>, side: Seq<u8>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_monitor_cmd(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, command: ext::MonitorCmd<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0, !old(res).started,
        ensures did_monitor_cmd(*old(self), *final(self), old(target)@, final(target)@, command, side_of(old(res), final(res)), final(res).msg@, r), cmd_frame(old(res), final(res), r), final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_qsupported<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _qSupported::qSupported<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_qsupported(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _qSupported::qSupported<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_qsupported(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_question_mark<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn report_reasonable_stop_reason(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_question_mark(*old(self), *final(self), old(target)@, final(target)@, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_qattached<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _qAttached::qAttached, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_qattached(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _qAttached::qAttached) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_qattached(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_g<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_g(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_g(*old(self), *final(self), old(target)@, final(target)@, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_g_upcase<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _g_upcase::G<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_g_upcase(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _g_upcase::G<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_g_upcase(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_m<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _m::m<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_m(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _m::m<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_m(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_m_upcase<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _m_upcase::M<'_>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_m_upcase(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _m_upcase::M<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_m_upcase(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_d<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _d_upcase::D, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_d(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _d_upcase::D) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_d(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_h<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _h_upcase::H, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_h(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _h_upcase::H) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_h(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_qf<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_qf(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_qf(*old(self), *final(self), old(target)@, final(target)@, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_qs<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_qs(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_qs(*old(self), *final(self), old(target)@, final(target)@, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub uninterp spec fn did_base_t<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: _t_upcase::T, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn base_t(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: _t_upcase::T) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0,
        ensures did_base_t(*old(self), *final(self), old(target)@, final(target)@, cmd, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
    { unimplemented!() }
}
pub open spec fn did_base<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::Base<'_>, msg: Seq<u8>, r: HR<C>) -> bool {
    match c {
        ext::Base::qSupported(c) => did_base_qsupported(g0, g1, s0, s1, c, msg, r),
        ext::Base::QuestionMark(_) => did_question_mark(g0, g1, s0, s1, msg, r),
        ext::Base::qAttached(c) => did_base_qattached(g0, g1, s0, s1, c, msg, r),
        ext::Base::g(_) => did_base_g(g0, g1, s0, s1, msg, r),
        ext::Base::G(c) => did_base_g_upcase(g0, g1, s0, s1, c, msg, r),
        ext::Base::m(c) => did_base_m(g0, g1, s0, s1, c, msg, r),
        ext::Base::M(c) => did_base_m_upcase(g0, g1, s0, s1, c, msg, r),
        ext::Base::D(c) => did_base_d(g0, g1, s0, s1, c, msg, r),
        ext::Base::H(c) => did_base_h(g0, g1, s0, s1, c, msg, r),
        ext::Base::qfThreadInfo(_) => did_base_qf(g0, g1, s0, s1, msg, r),
        ext::Base::qsThreadInfo(_) => did_base_qs(g0, g1, s0, s1, msg, r),
        ext::Base::T(c) => did_base_t(g0, g1, s0, s1, c, msg, r),
        ext::Base::k(_) => g1 == g0 && killed::<C>(s0, s1, None, rply::<C>(msg, r), r),
        ext::Base::vKill(c) => g1 == g0 && killed::<C>(s0, s1, Some(c.pid), rply::<C>(msg, r), r),
    }
}
#[verifier::prophetic]
pub open spec fn handled<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: Command<'_>, side: Seq<u8>, msg: Seq<u8>, h: HR<C>) -> bool {
    match c {
        Command::Base(c) => no_side::<C>(side, h) && did_base(g0, g1, s0, s1, c, msg, h),
        Command::TargetXml(c) => no_side::<C>(side, h) && did_target_xml(g0, g1, s0, s1, c, msg, h),
        Command::Resume(c) => no_side::<C>(side, h) && did_resume(g0, g1, s0, s1, c, msg, h),
        Command::XUpcasePacket(c) => no_side::<C>(side, h) && did_x_upcase_packet(g0, g1, s0, s1, c, msg, h),
        Command::NoAckMode(c) => no_side::<C>(side, h) && did_no_ack_mode(g0, g1, s0, s1, c, msg, h),
        Command::SingleRegisterAccess(c) => no_side::<C>(side, h) && did_single_register_access(g0, g1, s0, s1, c, msg, h),
        Command::ExtendedMode(c) => no_side::<C>(side, h) && did_extended_mode(g0, g1, s0, s1, c, msg, h),
        Command::MonitorCmd(c) => did_monitor_cmd(g0, g1, s0, s1, c, side, msg, h),
        Command::SectionOffsets(c) => no_side::<C>(side, h) && did_section_offsets(g0, g1, s0, s1, c, msg, h),
        Command::ReverseCont(c) => no_side::<C>(side, h) && did_reverse_cont(g0, g1, s0, s1, c, msg, h),
        Command::ReverseStep(c) => no_side::<C>(side, h) && did_reverse_step(g0, g1, s0, s1, c, msg, h),
        Command::MemoryMap(c) => no_side::<C>(side, h) && did_memory_map(g0, g1, s0, s1, c, msg, h),
        Command::Auxv(c) => no_side::<C>(side, h) && did_auxv(g0, g1, s0, s1, c, msg, h),
        Command::ExecFile(c) => no_side::<C>(side, h) && did_exec_file(g0, g1, s0, s1, c, msg, h),
        Command::HostIo(c) => no_side::<C>(side, h) && did_host_io(g0, g1, s0, s1, c, msg, h),
        Command::CatchSyscalls(c) => no_side::<C>(side, h) && did_catch_syscalls(g0, g1, s0, s1, c, msg, h),
        Command::ThreadExtraInfo(c) => no_side::<C>(side, h) && did_thread_extra_info(g0, g1, s0, s1, c, msg, h),
        Command::LldbRegisterInfo(c) => no_side::<C>(side, h) && did_lldb_register_info(g0, g1, s0, s1, c, msg, h),
        Command::LibrariesSvr4(c) => no_side::<C>(side, h) && did_libraries_svr4(g0, g1, s0, s1, c, msg, h),
        Command::Tracepoints(c) => no_side::<C>(side, h) && did_tracepoints(g0, g1, s0, s1, c, msg, h),
        Command::Breakpoints(c) => no_side::<C>(side, h) && did_breakpoints(g0, g1, s0, s1, c, msg, h),
        Command::Unknown(c) => g1 == g0 && s1 == s0 && did_unknown::<C>(s0, c@, side, rply::<C>(msg, h), h),
    }
}
//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_base
//@ subst Base < '_ > => ext :: Base < '_ >
//@ subst Base :: => ext :: Base ::
//@ opt call0=Base::qSupported => self.base_qsupported(res, target, cmd)
//@ opt call2=Base::qAttached => self.base_qattached(res, target, cmd)
//@ opt call3=Base::g => self.base_g(res, target)
//@ opt call4=Base::G => self.base_g_upcase(res, target, cmd)
//@ opt call5=Base::m => self.base_m(res, target, cmd)
//@ opt call6=Base::M => self.base_m_upcase(res, target, cmd)
//@ opt call7=Base::D => self.base_d(res, target, cmd)
//@ opt call8=Base::H => self.base_h(res, target, cmd)
//@ opt call9=Base::qfThreadInfo => self.base_qf(res, target)
//@ opt call10=Base::qsThreadInfo => self.base_qs(res, target)
//@ opt call11=Base::T => self.base_t(res, target, cmd)
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures did_base(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
//@ at start
    broadcast use group_plain;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ endimpl
