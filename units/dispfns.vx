// ---- which command a packet is (written by tools/gen_disp.py)
//@ include disptypes.vx
// the packet from behind its name on
#[verifier::prophetic]
pub open spec fn stripped<'a>(b: PacketBuf<'a>, b2: PacketBuf<'a>, n: nat) -> bool { b2.wf() && b2.same_buf(&b) && b2.start() == b.start() + n && b2.body() == b.body().skip(n as int) }
pub open spec fn named(b: Seq<u8>, name: Seq<char>) -> bool { ascii(name).is_prefix_of(b) }
// `c` is what stands behind the name of `n` bytes
#[verifier::prophetic]
pub open spec fn read<'a, P: ParseCommand<'a>>(b: PacketBuf<'a>, n: nat, c: P) -> bool {
    P::syntax(b.body().skip(n as int)) == Some(c.vw()) && exists|b2: PacketBuf<'a>| #[trigger] stripped(b, b2, n) && c.scratch(&b2)
}
#[verifier::prophetic]
pub open spec fn unread<'a>(b: PacketBuf<'a>, b2: PacketBuf<'a>) -> bool { b2.wf() && b2.same_buf(&b) && b2.start() == b.start() && b2.body() == b.body() }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_QuestionMark<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <question_mark::QuestionMark as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::QuestionMark(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_D<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_d_upcase::D as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::D(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_g<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_g::g as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::g(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_G<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_g_upcase::G<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::G(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_H<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_h_upcase::H as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::H(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_k<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_k::k as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::k(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_m<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_m::m<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::m(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_M<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_m_upcase::M<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::M(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_qAttached<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qAttached::qAttached as ParseCommand<'a>>::syntax(b.body().skip(9)) is None, Some(Command::Base(ext::Base::qAttached(c))) => read(b, 9, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_qfThreadInfo<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qfThreadInfo::qfThreadInfo as ParseCommand<'a>>::syntax(b.body().skip(12)) is None, Some(Command::Base(ext::Base::qfThreadInfo(c))) => read(b, 12, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_qsThreadInfo<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qsThreadInfo::qsThreadInfo as ParseCommand<'a>>::syntax(b.body().skip(12)) is None, Some(Command::Base(ext::Base::qsThreadInfo(c))) => read(b, 12, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_qSupported<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qSupported::qSupported<'a> as ParseCommand<'a>>::syntax(b.body().skip(10)) is None, Some(Command::Base(ext::Base::qSupported(c))) => read(b, 10, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_T<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_t_upcase::T as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Base(ext::Base::T(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_base_vKill<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vKill::vKill as ParseCommand<'a>>::syntax(b.body().skip(5)) is None, Some(Command::Base(ext::Base::vKill(c))) => read(b, 5, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_base(b: Seq<u8>) -> bool { named(b, "?"@) || named(b, "D"@) || named(b, "g"@) || named(b, "G"@) || named(b, "H"@) || named(b, "k"@) || named(b, "m"@) || named(b, "M"@) || named(b, "qAttached"@) || named(b, "qfThreadInfo"@) || named(b, "qsThreadInfo"@) || named(b, "qSupported"@) || named(b, "T"@) || named(b, "vKill"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_base<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "?"@) { is_base_QuestionMark(b, r) } else
    if named(b.body(), "D"@) { is_base_D(b, r) } else
    if named(b.body(), "g"@) { is_base_g(b, r) } else
    if named(b.body(), "G"@) { is_base_G(b, r) } else
    if named(b.body(), "H"@) { is_base_H(b, r) } else
    if named(b.body(), "k"@) { is_base_k(b, r) } else
    if named(b.body(), "m"@) { is_base_m(b, r) } else
    if named(b.body(), "M"@) { is_base_M(b, r) } else
    if named(b.body(), "qAttached"@) { is_base_qAttached(b, r) } else
    if named(b.body(), "qfThreadInfo"@) { is_base_qfThreadInfo(b, r) } else
    if named(b.body(), "qsThreadInfo"@) { is_base_qsThreadInfo(b, r) } else
    if named(b.body(), "qSupported"@) { is_base_qSupported(b, r) } else
    if named(b.body(), "T"@) { is_base_T(b, r) } else
    if named(b.body(), "vKill"@) { is_base_vKill(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_target_xml_qXferFeaturesRead<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qXfer_features_read::qXferFeaturesRead<'a> as ParseCommand<'a>>::syntax(b.body().skip(19)) is None, Some(Command::TargetXml(ext::TargetXml::qXferFeaturesRead(c))) => read(b, 19, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_target_xml(b: Seq<u8>) -> bool { named(b, "qXfer:features:read"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_target_xml<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qXfer:features:read"@) { is_target_xml_qXferFeaturesRead(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_resume_c<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_c::c<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Resume(ext::Resume::c(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_resume_s<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_s::s<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::Resume(ext::Resume::s(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_resume_vCont<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vCont::vCont<'a> as ParseCommand<'a>>::syntax(b.body().skip(5)) is None, Some(Command::Resume(ext::Resume::vCont(c))) => read(b, 5, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_resume(b: Seq<u8>) -> bool { named(b, "c"@) || named(b, "s"@) || named(b, "vCont"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_resume<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "c"@) { is_resume_c(b, r) } else
    if named(b.body(), "s"@) { is_resume_s(b, r) } else
    if named(b.body(), "vCont"@) { is_resume_vCont(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_x_upcase_packet_X<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_x_upcase::X<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::XUpcasePacket(ext::XUpcasePacket::X(c))) => read(b, 1, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_x_upcase_packet(b: Seq<u8>) -> bool { named(b, "X"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_x_upcase_packet<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "X"@) { is_x_upcase_packet_X(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_no_ack_mode_QStartNoAckMode<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QStartNoAckMode::QStartNoAckMode as ParseCommand<'a>>::syntax(b.body().skip(15)) is None, Some(Command::NoAckMode(ext::NoAckMode::QStartNoAckMode(c))) => read(b, 15, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_no_ack_mode(b: Seq<u8>) -> bool { named(b, "QStartNoAckMode"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_no_ack_mode<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "QStartNoAckMode"@) { is_no_ack_mode_QStartNoAckMode(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_single_register_access_p<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_p::p<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::SingleRegisterAccess(ext::SingleRegisterAccess::p(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_single_register_access_P<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_p_upcase::P<'a> as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::SingleRegisterAccess(ext::SingleRegisterAccess::P(c))) => read(b, 1, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_single_register_access(b: Seq<u8>) -> bool { named(b, "p"@) || named(b, "P"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_single_register_access<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "p"@) { is_single_register_access_p(b, r) } else
    if named(b.body(), "P"@) { is_single_register_access_P(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_ExclamationMark<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <exclamation_mark::ExclamationMark as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::ExclamationMark(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_qC<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qC::qC as ParseCommand<'a>>::syntax(b.body().skip(2)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::qC(c))) => read(b, 2, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_QDisableRandomization<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QDisableRandomization::QDisableRandomization as ParseCommand<'a>>::syntax(b.body().skip(21)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::QDisableRandomization(c))) => read(b, 21, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_QEnvironmentHexEncoded<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QEnvironmentHexEncoded::QEnvironmentHexEncoded<'a> as ParseCommand<'a>>::syntax(b.body().skip(22)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::QEnvironmentHexEncoded(c))) => read(b, 22, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_QEnvironmentReset<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QEnvironmentReset::QEnvironmentReset as ParseCommand<'a>>::syntax(b.body().skip(17)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::QEnvironmentReset(c))) => read(b, 17, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_QEnvironmentUnset<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QEnvironmentUnset::QEnvironmentUnset<'a> as ParseCommand<'a>>::syntax(b.body().skip(17)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::QEnvironmentUnset(c))) => read(b, 17, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_QSetWorkingDir<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QSetWorkingDir::QSetWorkingDir<'a> as ParseCommand<'a>>::syntax(b.body().skip(14)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::QSetWorkingDir(c))) => read(b, 14, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_QStartupWithShell<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QStartupWithShell::QStartupWithShell as ParseCommand<'a>>::syntax(b.body().skip(17)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::QStartupWithShell(c))) => read(b, 17, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_R<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_r_upcase::R as ParseCommand<'a>>::syntax(b.body().skip(1)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::R(c))) => read(b, 1, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_vAttach<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vAttach::vAttach as ParseCommand<'a>>::syntax(b.body().skip(7)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::vAttach(c))) => read(b, 7, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_extended_mode_vRun<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vRun::vRun<'a> as ParseCommand<'a>>::syntax(b.body().skip(4)) is None, Some(Command::ExtendedMode(ext::ExtendedMode::vRun(c))) => read(b, 4, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_extended_mode(b: Seq<u8>) -> bool { named(b, "!"@) || named(b, "qC"@) || named(b, "QDisableRandomization"@) || named(b, "QEnvironmentHexEncoded"@) || named(b, "QEnvironmentReset"@) || named(b, "QEnvironmentUnset"@) || named(b, "QSetWorkingDir"@) || named(b, "QStartupWithShell"@) || named(b, "R"@) || named(b, "vAttach"@) || named(b, "vRun"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_extended_mode<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "!"@) { is_extended_mode_ExclamationMark(b, r) } else
    if named(b.body(), "qC"@) { is_extended_mode_qC(b, r) } else
    if named(b.body(), "QDisableRandomization"@) { is_extended_mode_QDisableRandomization(b, r) } else
    if named(b.body(), "QEnvironmentHexEncoded"@) { is_extended_mode_QEnvironmentHexEncoded(b, r) } else
    if named(b.body(), "QEnvironmentReset"@) { is_extended_mode_QEnvironmentReset(b, r) } else
    if named(b.body(), "QEnvironmentUnset"@) { is_extended_mode_QEnvironmentUnset(b, r) } else
    if named(b.body(), "QSetWorkingDir"@) { is_extended_mode_QSetWorkingDir(b, r) } else
    if named(b.body(), "QStartupWithShell"@) { is_extended_mode_QStartupWithShell(b, r) } else
    if named(b.body(), "R"@) { is_extended_mode_R(b, r) } else
    if named(b.body(), "vAttach"@) { is_extended_mode_vAttach(b, r) } else
    if named(b.body(), "vRun"@) { is_extended_mode_vRun(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_monitor_cmd_qRcmd<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qRcmd::qRcmd<'a> as ParseCommand<'a>>::syntax(b.body().skip(5)) is None, Some(Command::MonitorCmd(ext::MonitorCmd::qRcmd(c))) => read(b, 5, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_monitor_cmd(b: Seq<u8>) -> bool { named(b, "qRcmd"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_monitor_cmd<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qRcmd"@) { is_monitor_cmd_qRcmd(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_section_offsets_qOffsets<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qOffsets::qOffsets as ParseCommand<'a>>::syntax(b.body().skip(8)) is None, Some(Command::SectionOffsets(ext::SectionOffsets::qOffsets(c))) => read(b, 8, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_section_offsets(b: Seq<u8>) -> bool { named(b, "qOffsets"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_section_offsets<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qOffsets"@) { is_section_offsets_qOffsets(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_reverse_cont_bc<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_bc::bc as ParseCommand<'a>>::syntax(b.body().skip(2)) is None, Some(Command::ReverseCont(ext::ReverseCont::bc(c))) => read(b, 2, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_reverse_cont(b: Seq<u8>) -> bool { named(b, "bc"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_reverse_cont<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "bc"@) { is_reverse_cont_bc(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_reverse_step_bs<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_bs::bs as ParseCommand<'a>>::syntax(b.body().skip(2)) is None, Some(Command::ReverseStep(ext::ReverseStep::bs(c))) => read(b, 2, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_reverse_step(b: Seq<u8>) -> bool { named(b, "bs"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_reverse_step<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "bs"@) { is_reverse_step_bs(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_memory_map_qXferMemoryMapRead<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qXfer_memory_map::qXferMemoryMapRead<'a> as ParseCommand<'a>>::syntax(b.body().skip(21)) is None, Some(Command::MemoryMap(ext::MemoryMap::qXferMemoryMapRead(c))) => read(b, 21, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_memory_map(b: Seq<u8>) -> bool { named(b, "qXfer:memory-map:read"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_memory_map<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qXfer:memory-map:read"@) { is_memory_map_qXferMemoryMapRead(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_auxv_qXferAuxvRead<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qXfer_auxv_read::qXferAuxvRead<'a> as ParseCommand<'a>>::syntax(b.body().skip(15)) is None, Some(Command::Auxv(ext::Auxv::qXferAuxvRead(c))) => read(b, 15, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_auxv(b: Seq<u8>) -> bool { named(b, "qXfer:auxv:read"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_auxv<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qXfer:auxv:read"@) { is_auxv_qXferAuxvRead(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_exec_file_qXferExecFileRead<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qXfer_exec_file::qXferExecFileRead<'a> as ParseCommand<'a>>::syntax(b.body().skip(20)) is None, Some(Command::ExecFile(ext::ExecFile::qXferExecFileRead(c))) => read(b, 20, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_exec_file(b: Seq<u8>) -> bool { named(b, "qXfer:exec-file:read"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_exec_file<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qXfer:exec-file:read"@) { is_exec_file_qXferExecFileRead(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFileOpen<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_open::vFileOpen<'a> as ParseCommand<'a>>::syntax(b.body().skip(10)) is None, Some(Command::HostIo(ext::HostIo::vFileOpen(c))) => read(b, 10, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFileClose<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_close::vFileClose as ParseCommand<'a>>::syntax(b.body().skip(11)) is None, Some(Command::HostIo(ext::HostIo::vFileClose(c))) => read(b, 11, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFilePread<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_pread::vFilePread<'a> as ParseCommand<'a>>::syntax(b.body().skip(11)) is None, Some(Command::HostIo(ext::HostIo::vFilePread(c))) => read(b, 11, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFilePwrite<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_pwrite::vFilePwrite<'a> as ParseCommand<'a>>::syntax(b.body().skip(12)) is None, Some(Command::HostIo(ext::HostIo::vFilePwrite(c))) => read(b, 12, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFileFstat<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_fstat::vFileFstat as ParseCommand<'a>>::syntax(b.body().skip(11)) is None, Some(Command::HostIo(ext::HostIo::vFileFstat(c))) => read(b, 11, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFileUnlink<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_unlink::vFileUnlink<'a> as ParseCommand<'a>>::syntax(b.body().skip(12)) is None, Some(Command::HostIo(ext::HostIo::vFileUnlink(c))) => read(b, 12, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFileReadlink<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_readlink::vFileReadlink<'a> as ParseCommand<'a>>::syntax(b.body().skip(14)) is None, Some(Command::HostIo(ext::HostIo::vFileReadlink(c))) => read(b, 14, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_host_io_vFileSetfs<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_vFile_setfs::vFileSetfs as ParseCommand<'a>>::syntax(b.body().skip(11)) is None, Some(Command::HostIo(ext::HostIo::vFileSetfs(c))) => read(b, 11, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_host_io(b: Seq<u8>) -> bool { named(b, "vFile:open"@) || named(b, "vFile:close"@) || named(b, "vFile:pread"@) || named(b, "vFile:pwrite"@) || named(b, "vFile:fstat"@) || named(b, "vFile:unlink"@) || named(b, "vFile:readlink"@) || named(b, "vFile:setfs"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_host_io<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "vFile:open"@) { is_host_io_vFileOpen(b, r) } else
    if named(b.body(), "vFile:close"@) { is_host_io_vFileClose(b, r) } else
    if named(b.body(), "vFile:pread"@) { is_host_io_vFilePread(b, r) } else
    if named(b.body(), "vFile:pwrite"@) { is_host_io_vFilePwrite(b, r) } else
    if named(b.body(), "vFile:fstat"@) { is_host_io_vFileFstat(b, r) } else
    if named(b.body(), "vFile:unlink"@) { is_host_io_vFileUnlink(b, r) } else
    if named(b.body(), "vFile:readlink"@) { is_host_io_vFileReadlink(b, r) } else
    if named(b.body(), "vFile:setfs"@) { is_host_io_vFileSetfs(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_catch_syscalls_QCatchSyscalls<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QCatchSyscalls::QCatchSyscalls<'a> as ParseCommand<'a>>::syntax(b.body().skip(14)) is None, Some(Command::CatchSyscalls(ext::CatchSyscalls::QCatchSyscalls(c))) => read(b, 14, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_catch_syscalls(b: Seq<u8>) -> bool { named(b, "QCatchSyscalls"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_catch_syscalls<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "QCatchSyscalls"@) { is_catch_syscalls_QCatchSyscalls(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_thread_extra_info_qThreadExtraInfo<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qThreadExtraInfo::qThreadExtraInfo<'a> as ParseCommand<'a>>::syntax(b.body().skip(16)) is None, Some(Command::ThreadExtraInfo(ext::ThreadExtraInfo::qThreadExtraInfo(c))) => read(b, 16, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_thread_extra_info(b: Seq<u8>) -> bool { named(b, "qThreadExtraInfo"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_thread_extra_info<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qThreadExtraInfo"@) { is_thread_extra_info_qThreadExtraInfo(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_lldb_register_info_qRegisterInfo<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qRegisterInfo::qRegisterInfo as ParseCommand<'a>>::syntax(b.body().skip(13)) is None, Some(Command::LldbRegisterInfo(ext::LldbRegisterInfo::qRegisterInfo(c))) => read(b, 13, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_lldb_register_info(b: Seq<u8>) -> bool { named(b, "qRegisterInfo"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_lldb_register_info<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qRegisterInfo"@) { is_lldb_register_info_qRegisterInfo(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_libraries_svr4_qXferLibrariesSvr4Read<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qXfer_libraries_svr4_read::qXferLibrariesSvr4Read<'a> as ParseCommand<'a>>::syntax(b.body().skip(25)) is None, Some(Command::LibrariesSvr4(ext::LibrariesSvr4::qXferLibrariesSvr4Read(c))) => read(b, 25, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_libraries_svr4(b: Seq<u8>) -> bool { named(b, "qXfer:libraries-svr4:read"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_libraries_svr4<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "qXfer:libraries-svr4:read"@) { is_libraries_svr4_qXferLibrariesSvr4Read(b, r) } else
    { false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTDPsrc<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTDPsrc::QTDPsrc<'a> as ParseCommand<'a>>::syntax(b.body().skip(7)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTDPsrc(c))) => read(b, 7, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTDP<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTDP::QTDP<'a> as ParseCommand<'a>>::syntax(b.body().skip(4)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTDP(c))) => read(b, 4, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTinit<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTinit::QTinit as ParseCommand<'a>>::syntax(b.body().skip(6)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTinit(c))) => read(b, 6, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTBuffer<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTBuffer_upcase::QTBuffer as ParseCommand<'a>>::syntax(b.body().skip(8)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTBuffer(c))) => read(b, 8, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTStart<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTStart::QTStart as ParseCommand<'a>>::syntax(b.body().skip(7)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTStart(c))) => read(b, 7, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTStop<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTStop::QTStop as ParseCommand<'a>>::syntax(b.body().skip(6)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTStop(c))) => read(b, 6, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_QTFrame<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_QTFrame::QTFrame<'a> as ParseCommand<'a>>::syntax(b.body().skip(7)) is None, Some(Command::Tracepoints(ext::Tracepoints::QTFrame(c))) => read(b, 7, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTBuffer<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTBuffer::qTBuffer as ParseCommand<'a>>::syntax(b.body().skip(8)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTBuffer(c))) => read(b, 8, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTStatus<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTStatus::qTStatus as ParseCommand<'a>>::syntax(b.body().skip(8)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTStatus(c))) => read(b, 8, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTP<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTP::qTP<'a> as ParseCommand<'a>>::syntax(b.body().skip(3)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTP(c))) => read(b, 3, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTfP<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTfP::qTfP as ParseCommand<'a>>::syntax(b.body().skip(4)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTfP(c))) => read(b, 4, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTsP<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTsP::qTsP as ParseCommand<'a>>::syntax(b.body().skip(4)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTsP(c))) => read(b, 4, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTfV<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTfV::qTfV as ParseCommand<'a>>::syntax(b.body().skip(4)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTfV(c))) => read(b, 4, c), _ => false }
}
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn is_tracepoints_qTsV<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    match r { None => <_qTsV::qTsV as ParseCommand<'a>>::syntax(b.body().skip(4)) is None, Some(Command::Tracepoints(ext::Tracepoints::qTsV(c))) => read(b, 4, c), _ => false }
}
#[verifier::opaque]
pub open spec fn any_tracepoints(b: Seq<u8>) -> bool { named(b, "QTDPsrc"@) || named(b, "QTDP"@) || named(b, "QTinit"@) || named(b, "QTBuffer"@) || named(b, "QTStart"@) || named(b, "QTStop"@) || named(b, "QTFrame"@) || named(b, "qTBuffer"@) || named(b, "qTStatus"@) || named(b, "qTP"@) || named(b, "qTfP"@) || named(b, "qTsP"@) || named(b, "qTfV"@) || named(b, "qTsV"@) }
#[verifier::prophetic] #[verifier::opaque]
pub open spec fn out_tracepoints<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if named(b.body(), "QTDPsrc"@) { is_tracepoints_QTDPsrc(b, r) } else
    if named(b.body(), "QTDP"@) { is_tracepoints_QTDP(b, r) } else
    if named(b.body(), "QTinit"@) { is_tracepoints_QTinit(b, r) } else
    if named(b.body(), "QTBuffer"@) { is_tracepoints_QTBuffer(b, r) } else
    if named(b.body(), "QTStart"@) { is_tracepoints_QTStart(b, r) } else
    if named(b.body(), "QTStop"@) { is_tracepoints_QTStop(b, r) } else
    if named(b.body(), "QTFrame"@) { is_tracepoints_QTFrame(b, r) } else
    if named(b.body(), "qTBuffer"@) { is_tracepoints_qTBuffer(b, r) } else
    if named(b.body(), "qTStatus"@) { is_tracepoints_qTStatus(b, r) } else
    if named(b.body(), "qTP"@) { is_tracepoints_qTP(b, r) } else
    if named(b.body(), "qTfP"@) { is_tracepoints_qTfP(b, r) } else
    if named(b.body(), "qTsP"@) { is_tracepoints_qTsP(b, r) } else
    if named(b.body(), "qTfV"@) { is_tracepoints_qTfV(b, r) } else
    if named(b.body(), "qTsV"@) { is_tracepoints_qTsV(b, r) } else
    { false }
}
#[verifier::opaque]
pub open spec fn any_breakpoints(b: Seq<u8>) -> bool { named(b, "z"@) || named(b, "Z"@) }
#[verifier::opaque]
pub open spec fn out_breakpoints<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    let s = bp_syntax(b.body().skip(1));
    match r {
        None => s is None,
        Some(Command::Breakpoints(ext::Breakpoints::z(c))) => named(b.body(), "z"@) && s == Some(c.vw()),
        Some(Command::Breakpoints(ext::Breakpoints::Z(c))) => named(b.body(), "Z"@) && s == Some(c.vw()),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn is_base(cap: Caps, b: Seq<u8>) -> bool { (true) && any_base(b) }
#[verifier::opaque]
pub open spec fn is_target_xml(cap: Caps, b: Seq<u8>) -> bool { (cap.use_target_description_xml && (AArch::xml() is Some || cap.support_target_description_xml_override)) && any_target_xml(b) }
#[verifier::opaque]
pub open spec fn is_resume(cap: Caps, b: Seq<u8>) -> bool { (cap.support_resume) && any_resume(b) }
#[verifier::opaque]
pub open spec fn is_x_upcase_packet(cap: Caps, b: Seq<u8>) -> bool { (cap.use_x_upcase_packet) && any_x_upcase_packet(b) }
#[verifier::opaque]
pub open spec fn is_no_ack_mode(cap: Caps, b: Seq<u8>) -> bool { (cap.use_no_ack_mode) && any_no_ack_mode(b) }
#[verifier::opaque]
pub open spec fn is_single_register_access(cap: Caps, b: Seq<u8>) -> bool { (cap.support_single_register_access) && any_single_register_access(b) }
#[verifier::opaque]
pub open spec fn is_extended_mode(cap: Caps, b: Seq<u8>) -> bool { (cap.support_extended_mode) && any_extended_mode(b) }
#[verifier::opaque]
pub open spec fn is_monitor_cmd(cap: Caps, b: Seq<u8>) -> bool { (cap.support_monitor_cmd) && any_monitor_cmd(b) }
#[verifier::opaque]
pub open spec fn is_section_offsets(cap: Caps, b: Seq<u8>) -> bool { (cap.support_section_offsets) && any_section_offsets(b) }
#[verifier::opaque]
pub open spec fn is_reverse_cont(cap: Caps, b: Seq<u8>) -> bool { (cap.support_resume && cap.support_reverse_cont) && any_reverse_cont(b) }
#[verifier::opaque]
pub open spec fn is_reverse_step(cap: Caps, b: Seq<u8>) -> bool { (cap.support_resume && cap.support_reverse_step) && any_reverse_step(b) }
#[verifier::opaque]
pub open spec fn is_memory_map(cap: Caps, b: Seq<u8>) -> bool { (cap.support_memory_map) && any_memory_map(b) }
#[verifier::opaque]
pub open spec fn is_auxv(cap: Caps, b: Seq<u8>) -> bool { (cap.support_auxv) && any_auxv(b) }
#[verifier::opaque]
pub open spec fn is_exec_file(cap: Caps, b: Seq<u8>) -> bool { (cap.support_exec_file) && any_exec_file(b) }
#[verifier::opaque]
pub open spec fn is_host_io(cap: Caps, b: Seq<u8>) -> bool { (cap.support_host_io) && any_host_io(b) }
#[verifier::opaque]
pub open spec fn is_catch_syscalls(cap: Caps, b: Seq<u8>) -> bool { (cap.support_catch_syscalls) && any_catch_syscalls(b) }
#[verifier::opaque]
pub open spec fn is_thread_extra_info(cap: Caps, b: Seq<u8>) -> bool { (cap.multi && cap.support_thread_extra_info) && any_thread_extra_info(b) }
#[verifier::opaque]
pub open spec fn is_lldb_register_info(cap: Caps, b: Seq<u8>) -> bool { (cap.use_lldb_register_info && (AArch::has_lldb() || cap.support_lldb_register_info_override)) && any_lldb_register_info(b) }
#[verifier::opaque]
pub open spec fn is_libraries_svr4(cap: Caps, b: Seq<u8>) -> bool { (cap.support_libraries_svr4) && any_libraries_svr4(b) }
#[verifier::opaque]
pub open spec fn is_tracepoints(cap: Caps, b: Seq<u8>) -> bool { (cap.support_tracepoints) && any_tracepoints(b) }
#[verifier::opaque]
pub open spec fn is_breakpoints(cap: Caps, b: Seq<u8>) -> bool { (cap.support_breakpoints) && any_breakpoints(b) }
// a packet is the command it names if the target offers that, and unknown otherwise
#[verifier::prophetic]
pub open spec fn parsed<'a>(cap: Caps, b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    if is_base(cap, b.body()) { out_base(b, r) } else
    if is_target_xml(cap, b.body()) { out_target_xml(b, r) } else
    if is_resume(cap, b.body()) { out_resume(b, r) } else
    if is_x_upcase_packet(cap, b.body()) { out_x_upcase_packet(b, r) } else
    if is_no_ack_mode(cap, b.body()) { out_no_ack_mode(b, r) } else
    if is_single_register_access(cap, b.body()) { out_single_register_access(b, r) } else
    if is_extended_mode(cap, b.body()) { out_extended_mode(b, r) } else
    if is_monitor_cmd(cap, b.body()) { out_monitor_cmd(b, r) } else
    if is_section_offsets(cap, b.body()) { out_section_offsets(b, r) } else
    if is_reverse_cont(cap, b.body()) { out_reverse_cont(b, r) } else
    if is_reverse_step(cap, b.body()) { out_reverse_step(b, r) } else
    if is_memory_map(cap, b.body()) { out_memory_map(b, r) } else
    if is_auxv(cap, b.body()) { out_auxv(b, r) } else
    if is_exec_file(cap, b.body()) { out_exec_file(b, r) } else
    if is_host_io(cap, b.body()) { out_host_io(b, r) } else
    if is_catch_syscalls(cap, b.body()) { out_catch_syscalls(b, r) } else
    if is_thread_extra_info(cap, b.body()) { out_thread_extra_info(b, r) } else
    if is_lldb_register_info(cap, b.body()) { out_lldb_register_info(b, r) } else
    if is_libraries_svr4(cap, b.body()) { out_libraries_svr4(b, r) } else
    if is_tracepoints(cap, b.body()) { out_tracepoints(b, r) } else
    if is_breakpoints(cap, b.body()) { out_breakpoints(b, r) } else
    { r matches Some(Command::Unknown(u)) && u@ == b.body() }
}
//@ inner hack = @expanded mod protocol / mod commands / Command<'a> :: from_packet
pub fn drop<A>(a: A) {}
//@ impl hack Hack for T ==> impl VxT
//@ fn support_base
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_base
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; true }),
//@ end
//@ fn support_target_xml
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_target_xml
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.use_target_description_xml && (AArch::xml() is Some || cap.support_target_description_xml_override) }),
//@ end
//@ fn support_resume
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_resume
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.support_resume }),
//@ end
//@ fn support_x_upcase_packet
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_x_upcase_packet
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.use_x_upcase_packet }),
//@ end
//@ fn support_no_ack_mode
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_no_ack_mode
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.use_no_ack_mode }),
//@ end
//@ fn support_single_register_access
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_single_register_access
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.support_single_register_access }),
//@ end
//@ fn support_reverse_cont
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_reverse_cont
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.support_resume && cap.support_reverse_cont }),
//@ end
//@ fn support_reverse_step
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_reverse_step
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.support_resume && cap.support_reverse_step }),
//@ end
//@ fn support_thread_extra_info
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_thread_extra_info
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.multi && cap.support_thread_extra_info }),
//@ end
//@ fn support_lldb_register_info
//@ ret r
//@ opt map
//@ opt drop_use
//@ opt rename=hack_lldb_register_info
//@ opt vis=pub
//@ spec
    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; cap.use_lldb_register_info && (AArch::has_lldb() || cap.support_lldb_register_info_override) }),
//@ end
//@ endimpl
//@ impl @expanded mod protocol / mod commands / Command<'a> ==> impl<'a> Command<'a>
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("?".as_bytes()) => if buf.strip_prefix("D".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_QuestionMark(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "?"@) && unread(b0, b), Err(x) => named(b0.body(), "?"@) && is_base_QuestionMark(b0, x) },
//@ at start
    proof { reveal(is_base_QuestionMark); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("D".as_bytes()) => if buf.strip_prefix("g".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_D(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "D"@) && unread(b0, b), Err(x) => named(b0.body(), "D"@) && is_base_D(b0, x) },
//@ at start
    proof { reveal(is_base_D); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("g".as_bytes()) => if buf.strip_prefix("G".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_g(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "g"@) && unread(b0, b), Err(x) => named(b0.body(), "g"@) && is_base_g(b0, x) },
//@ at start
    proof { reveal(is_base_g); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("G".as_bytes()) => if buf.strip_prefix("H".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_G(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "G"@) && unread(b0, b), Err(x) => named(b0.body(), "G"@) && is_base_G(b0, x) },
//@ at start
    proof { reveal(is_base_G); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("H".as_bytes()) => if buf.strip_prefix("k".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_H(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "H"@) && unread(b0, b), Err(x) => named(b0.body(), "H"@) && is_base_H(b0, x) },
//@ at start
    proof { reveal(is_base_H); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("k".as_bytes()) => if buf.strip_prefix("m".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_k(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "k"@) && unread(b0, b), Err(x) => named(b0.body(), "k"@) && is_base_k(b0, x) },
//@ at start
    proof { reveal(is_base_k); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("m".as_bytes()) => if buf.strip_prefix("M".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_m(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "m"@) && unread(b0, b), Err(x) => named(b0.body(), "m"@) && is_base_m(b0, x) },
//@ at start
    proof { reveal(is_base_m); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("M".as_bytes()) => if buf.strip_prefix("qAttached".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_M(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "M"@) && unread(b0, b), Err(x) => named(b0.body(), "M"@) && is_base_M(b0, x) },
//@ at start
    proof { reveal(is_base_M); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qAttached".as_bytes()) => if buf.strip_prefix("qfThreadInfo".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_qAttached(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qAttached"@) && unread(b0, b), Err(x) => named(b0.body(), "qAttached"@) && is_base_qAttached(b0, x) },
//@ at start
    proof { reveal(is_base_qAttached); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 9));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qfThreadInfo".as_bytes()) => if buf.strip_prefix("qsThreadInfo".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_qfThreadInfo(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qfThreadInfo"@) && unread(b0, b), Err(x) => named(b0.body(), "qfThreadInfo"@) && is_base_qfThreadInfo(b0, x) },
//@ at start
    proof { reveal(is_base_qfThreadInfo); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 12));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qsThreadInfo".as_bytes()) => if buf.strip_prefix("qSupported".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_qsThreadInfo(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qsThreadInfo"@) && unread(b0, b), Err(x) => named(b0.body(), "qsThreadInfo"@) && is_base_qsThreadInfo(b0, x) },
//@ at start
    proof { reveal(is_base_qsThreadInfo); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 12));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qSupported".as_bytes()) => if buf.strip_prefix("T".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_qSupported(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qSupported"@) && unread(b0, b), Err(x) => named(b0.body(), "qSupported"@) && is_base_qSupported(b0, x) },
//@ at start
    proof { reveal(is_base_qSupported); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 10));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("T".as_bytes()) => if buf.strip_prefix("vKill".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_base_T(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "T"@) && unread(b0, b), Err(x) => named(b0.body(), "T"@) && is_base_T(b0, x) },
//@ at start
    proof { reveal(is_base_T); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vKill".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_base_vKill(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vKill"@) && unread(b0, b), Err(x) => named(b0.body(), "vKill"@) && is_base_vKill(b0, x) },
//@ at start
    proof { reveal(is_base_vKill); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 5));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_base().is_some() => if target.support_target_xml().is_some()
//@ opt cut00=if buf.strip_prefix("?".as_bytes()) => if buf.strip_prefix("D".as_bytes()) => Self::rd_base_QuestionMark(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix("D".as_bytes()) => if buf.strip_prefix("g".as_bytes()) => Self::rd_base_D(buf, Ghost(b0)) => buf
//@ opt cut02=if buf.strip_prefix("g".as_bytes()) => if buf.strip_prefix("G".as_bytes()) => Self::rd_base_g(buf, Ghost(b0)) => buf
//@ opt cut03=if buf.strip_prefix("G".as_bytes()) => if buf.strip_prefix("H".as_bytes()) => Self::rd_base_G(buf, Ghost(b0)) => buf
//@ opt cut04=if buf.strip_prefix("H".as_bytes()) => if buf.strip_prefix("k".as_bytes()) => Self::rd_base_H(buf, Ghost(b0)) => buf
//@ opt cut05=if buf.strip_prefix("k".as_bytes()) => if buf.strip_prefix("m".as_bytes()) => Self::rd_base_k(buf, Ghost(b0)) => buf
//@ opt cut06=if buf.strip_prefix("m".as_bytes()) => if buf.strip_prefix("M".as_bytes()) => Self::rd_base_m(buf, Ghost(b0)) => buf
//@ opt cut07=if buf.strip_prefix("M".as_bytes()) => if buf.strip_prefix("qAttached".as_bytes()) => Self::rd_base_M(buf, Ghost(b0)) => buf
//@ opt cut08=if buf.strip_prefix("qAttached".as_bytes()) => if buf.strip_prefix("qfThreadInfo".as_bytes()) => Self::rd_base_qAttached(buf, Ghost(b0)) => buf
//@ opt cut09=if buf.strip_prefix("qfThreadInfo".as_bytes()) => if buf.strip_prefix("qsThreadInfo".as_bytes()) => Self::rd_base_qfThreadInfo(buf, Ghost(b0)) => buf
//@ opt cut10=if buf.strip_prefix("qsThreadInfo".as_bytes()) => if buf.strip_prefix("qSupported".as_bytes()) => Self::rd_base_qsThreadInfo(buf, Ghost(b0)) => buf
//@ opt cut11=if buf.strip_prefix("qSupported".as_bytes()) => if buf.strip_prefix("T".as_bytes()) => Self::rd_base_qSupported(buf, Ghost(b0)) => buf
//@ opt cut12=if buf.strip_prefix("T".as_bytes()) => if buf.strip_prefix("vKill".as_bytes()) => Self::rd_base_T(buf, Ghost(b0)) => buf
//@ opt cut13=if buf.strip_prefix("vKill".as_bytes()) => $ => Self::rd_base_vKill(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_base(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_base ( ) => target . hack_base ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_base(cap, b0.body()) && unread(b0, b),
            Err(x) => is_base(cap, b0.body()) && out_base(b0, x),
        } }),
//@ at start
    proof { reveal(any_base); reveal(out_base); reveal(is_base); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qXfer:features:read".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_target_xml_qXferFeaturesRead(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qXfer:features:read"@) && unread(b0, b), Err(x) => named(b0.body(), "qXfer:features:read"@) && is_target_xml_qXferFeaturesRead(b0, x) },
//@ at start
    proof { reveal(is_target_xml_qXferFeaturesRead); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 19));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_target_xml().is_some() => if target.support_resume().is_some()
//@ opt cut00=if buf.strip_prefix("qXfer:features:read".as_bytes()) => $ => Self::rd_target_xml_qXferFeaturesRead(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_target_xml(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_target_xml ( ) => target . hack_target_xml ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_target_xml(cap, b0.body()) && unread(b0, b),
            Err(x) => is_target_xml(cap, b0.body()) && out_target_xml(b0, x),
        } }),
//@ at start
    proof { reveal(any_target_xml); reveal(out_target_xml); reveal(is_target_xml); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("c".as_bytes()) => if buf.strip_prefix("s".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_resume_c(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "c"@) && unread(b0, b), Err(x) => named(b0.body(), "c"@) && is_resume_c(b0, x) },
//@ at start
    proof { reveal(is_resume_c); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("s".as_bytes()) => if buf.strip_prefix("vCont".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_resume_s(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "s"@) && unread(b0, b), Err(x) => named(b0.body(), "s"@) && is_resume_s(b0, x) },
//@ at start
    proof { reveal(is_resume_s); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vCont".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_resume_vCont(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vCont"@) && unread(b0, b), Err(x) => named(b0.body(), "vCont"@) && is_resume_vCont(b0, x) },
//@ at start
    proof { reveal(is_resume_vCont); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 5));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_resume().is_some() => if target.support_x_upcase_packet().is_some()
//@ opt cut00=if buf.strip_prefix("c".as_bytes()) => if buf.strip_prefix("s".as_bytes()) => Self::rd_resume_c(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix("s".as_bytes()) => if buf.strip_prefix("vCont".as_bytes()) => Self::rd_resume_s(buf, Ghost(b0)) => buf
//@ opt cut02=if buf.strip_prefix("vCont".as_bytes()) => $ => Self::rd_resume_vCont(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_resume(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_resume ( ) => target . hack_resume ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_resume(cap, b0.body()) && unread(b0, b),
            Err(x) => is_resume(cap, b0.body()) && out_resume(b0, x),
        } }),
//@ at start
    proof { reveal(any_resume); reveal(out_resume); reveal(is_resume); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("X".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_x_upcase_packet_X(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "X"@) && unread(b0, b), Err(x) => named(b0.body(), "X"@) && is_x_upcase_packet_X(b0, x) },
//@ at start
    proof { reveal(is_x_upcase_packet_X); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_x_upcase_packet().is_some() => if target.support_no_ack_mode().is_some()
//@ opt cut00=if buf.strip_prefix("X".as_bytes()) => $ => Self::rd_x_upcase_packet_X(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_x_upcase_packet(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_x_upcase_packet ( ) => target . hack_x_upcase_packet ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_x_upcase_packet(cap, b0.body()) && unread(b0, b),
            Err(x) => is_x_upcase_packet(cap, b0.body()) && out_x_upcase_packet(b0, x),
        } }),
//@ at start
    proof { reveal(any_x_upcase_packet); reveal(out_x_upcase_packet); reveal(is_x_upcase_packet); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QStartNoAckMode".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_no_ack_mode_QStartNoAckMode(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QStartNoAckMode"@) && unread(b0, b), Err(x) => named(b0.body(), "QStartNoAckMode"@) && is_no_ack_mode_QStartNoAckMode(b0, x) },
//@ at start
    proof { reveal(is_no_ack_mode_QStartNoAckMode); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 15));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_no_ack_mode().is_some() => if target.support_single_register_access().is_some()
//@ opt cut00=if buf.strip_prefix("QStartNoAckMode".as_bytes()) => $ => Self::rd_no_ack_mode_QStartNoAckMode(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_no_ack_mode(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_no_ack_mode ( ) => target . hack_no_ack_mode ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_no_ack_mode(cap, b0.body()) && unread(b0, b),
            Err(x) => is_no_ack_mode(cap, b0.body()) && out_no_ack_mode(b0, x),
        } }),
//@ at start
    proof { reveal(any_no_ack_mode); reveal(out_no_ack_mode); reveal(is_no_ack_mode); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("p".as_bytes()) => if buf.strip_prefix("P".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_single_register_access_p(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "p"@) && unread(b0, b), Err(x) => named(b0.body(), "p"@) && is_single_register_access_p(b0, x) },
//@ at start
    proof { reveal(is_single_register_access_p); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("P".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_single_register_access_P(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "P"@) && unread(b0, b), Err(x) => named(b0.body(), "P"@) && is_single_register_access_P(b0, x) },
//@ at start
    proof { reveal(is_single_register_access_P); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_single_register_access().is_some() => if target.support_extended_mode().is_some()
//@ opt cut00=if buf.strip_prefix("p".as_bytes()) => if buf.strip_prefix("P".as_bytes()) => Self::rd_single_register_access_p(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix("P".as_bytes()) => $ => Self::rd_single_register_access_P(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_single_register_access(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_single_register_access ( ) => target . hack_single_register_access ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_single_register_access(cap, b0.body()) && unread(b0, b),
            Err(x) => is_single_register_access(cap, b0.body()) && out_single_register_access(b0, x),
        } }),
//@ at start
    proof { reveal(any_single_register_access); reveal(out_single_register_access); reveal(is_single_register_access); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("!".as_bytes()) => if buf.strip_prefix("qC".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_ExclamationMark(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "!"@) && unread(b0, b), Err(x) => named(b0.body(), "!"@) && is_extended_mode_ExclamationMark(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_ExclamationMark); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qC".as_bytes()) => if buf.strip_prefix("QDisableRandomization".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_qC(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qC"@) && unread(b0, b), Err(x) => named(b0.body(), "qC"@) && is_extended_mode_qC(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_qC); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 2));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QDisableRandomization".as_bytes()) => if buf.strip_prefix("QEnvironmentHexEncoded".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_QDisableRandomization(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QDisableRandomization"@) && unread(b0, b), Err(x) => named(b0.body(), "QDisableRandomization"@) && is_extended_mode_QDisableRandomization(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_QDisableRandomization); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 21));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QEnvironmentHexEncoded".as_bytes()) => if buf.strip_prefix("QEnvironmentReset".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_QEnvironmentHexEncoded(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QEnvironmentHexEncoded"@) && unread(b0, b), Err(x) => named(b0.body(), "QEnvironmentHexEncoded"@) && is_extended_mode_QEnvironmentHexEncoded(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_QEnvironmentHexEncoded); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 22));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QEnvironmentReset".as_bytes()) => if buf.strip_prefix("QEnvironmentUnset".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_QEnvironmentReset(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QEnvironmentReset"@) && unread(b0, b), Err(x) => named(b0.body(), "QEnvironmentReset"@) && is_extended_mode_QEnvironmentReset(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_QEnvironmentReset); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 17));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QEnvironmentUnset".as_bytes()) => if buf.strip_prefix("QSetWorkingDir".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_QEnvironmentUnset(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QEnvironmentUnset"@) && unread(b0, b), Err(x) => named(b0.body(), "QEnvironmentUnset"@) && is_extended_mode_QEnvironmentUnset(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_QEnvironmentUnset); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 17));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QSetWorkingDir".as_bytes()) => if buf.strip_prefix("QStartupWithShell".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_QSetWorkingDir(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QSetWorkingDir"@) && unread(b0, b), Err(x) => named(b0.body(), "QSetWorkingDir"@) && is_extended_mode_QSetWorkingDir(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_QSetWorkingDir); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 14));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QStartupWithShell".as_bytes()) => if buf.strip_prefix("R".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_QStartupWithShell(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QStartupWithShell"@) && unread(b0, b), Err(x) => named(b0.body(), "QStartupWithShell"@) && is_extended_mode_QStartupWithShell(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_QStartupWithShell); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 17));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("R".as_bytes()) => if buf.strip_prefix("vAttach".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_R(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "R"@) && unread(b0, b), Err(x) => named(b0.body(), "R"@) && is_extended_mode_R(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_R); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 1));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vAttach".as_bytes()) => if buf.strip_prefix("vRun".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_vAttach(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vAttach"@) && unread(b0, b), Err(x) => named(b0.body(), "vAttach"@) && is_extended_mode_vAttach(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_vAttach); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 7));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vRun".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_extended_mode_vRun(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vRun"@) && unread(b0, b), Err(x) => named(b0.body(), "vRun"@) && is_extended_mode_vRun(b0, x) },
//@ at start
    proof { reveal(is_extended_mode_vRun); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 4));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_extended_mode().is_some() => if target.support_monitor_cmd().is_some()
//@ opt cut00=if buf.strip_prefix("!".as_bytes()) => if buf.strip_prefix("qC".as_bytes()) => Self::rd_extended_mode_ExclamationMark(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix("qC".as_bytes()) => if buf.strip_prefix("QDisableRandomization".as_bytes()) => Self::rd_extended_mode_qC(buf, Ghost(b0)) => buf
//@ opt cut02=if buf.strip_prefix("QDisableRandomization".as_bytes()) => if buf.strip_prefix("QEnvironmentHexEncoded".as_bytes()) => Self::rd_extended_mode_QDisableRandomization(buf, Ghost(b0)) => buf
//@ opt cut03=if buf.strip_prefix("QEnvironmentHexEncoded".as_bytes()) => if buf.strip_prefix("QEnvironmentReset".as_bytes()) => Self::rd_extended_mode_QEnvironmentHexEncoded(buf, Ghost(b0)) => buf
//@ opt cut04=if buf.strip_prefix("QEnvironmentReset".as_bytes()) => if buf.strip_prefix("QEnvironmentUnset".as_bytes()) => Self::rd_extended_mode_QEnvironmentReset(buf, Ghost(b0)) => buf
//@ opt cut05=if buf.strip_prefix("QEnvironmentUnset".as_bytes()) => if buf.strip_prefix("QSetWorkingDir".as_bytes()) => Self::rd_extended_mode_QEnvironmentUnset(buf, Ghost(b0)) => buf
//@ opt cut06=if buf.strip_prefix("QSetWorkingDir".as_bytes()) => if buf.strip_prefix("QStartupWithShell".as_bytes()) => Self::rd_extended_mode_QSetWorkingDir(buf, Ghost(b0)) => buf
//@ opt cut07=if buf.strip_prefix("QStartupWithShell".as_bytes()) => if buf.strip_prefix("R".as_bytes()) => Self::rd_extended_mode_QStartupWithShell(buf, Ghost(b0)) => buf
//@ opt cut08=if buf.strip_prefix("R".as_bytes()) => if buf.strip_prefix("vAttach".as_bytes()) => Self::rd_extended_mode_R(buf, Ghost(b0)) => buf
//@ opt cut09=if buf.strip_prefix("vAttach".as_bytes()) => if buf.strip_prefix("vRun".as_bytes()) => Self::rd_extended_mode_vAttach(buf, Ghost(b0)) => buf
//@ opt cut10=if buf.strip_prefix("vRun".as_bytes()) => $ => Self::rd_extended_mode_vRun(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_extended_mode(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_extended_mode(cap, b0.body()) && unread(b0, b),
            Err(x) => is_extended_mode(cap, b0.body()) && out_extended_mode(b0, x),
        } }),
//@ at start
    proof { reveal(any_extended_mode); reveal(out_extended_mode); reveal(is_extended_mode); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qRcmd".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_monitor_cmd_qRcmd(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qRcmd"@) && unread(b0, b), Err(x) => named(b0.body(), "qRcmd"@) && is_monitor_cmd_qRcmd(b0, x) },
//@ at start
    proof { reveal(is_monitor_cmd_qRcmd); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 5));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_monitor_cmd().is_some() => if target.support_section_offsets().is_some()
//@ opt cut00=if buf.strip_prefix("qRcmd".as_bytes()) => $ => Self::rd_monitor_cmd_qRcmd(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_monitor_cmd(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_monitor_cmd(cap, b0.body()) && unread(b0, b),
            Err(x) => is_monitor_cmd(cap, b0.body()) && out_monitor_cmd(b0, x),
        } }),
//@ at start
    proof { reveal(any_monitor_cmd); reveal(out_monitor_cmd); reveal(is_monitor_cmd); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qOffsets".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_section_offsets_qOffsets(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qOffsets"@) && unread(b0, b), Err(x) => named(b0.body(), "qOffsets"@) && is_section_offsets_qOffsets(b0, x) },
//@ at start
    proof { reveal(is_section_offsets_qOffsets); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 8));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_section_offsets().is_some() => if target.support_reverse_cont().is_some()
//@ opt cut00=if buf.strip_prefix("qOffsets".as_bytes()) => $ => Self::rd_section_offsets_qOffsets(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_section_offsets(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_section_offsets(cap, b0.body()) && unread(b0, b),
            Err(x) => is_section_offsets(cap, b0.body()) && out_section_offsets(b0, x),
        } }),
//@ at start
    proof { reveal(any_section_offsets); reveal(out_section_offsets); reveal(is_section_offsets); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("bc".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_reverse_cont_bc(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "bc"@) && unread(b0, b), Err(x) => named(b0.body(), "bc"@) && is_reverse_cont_bc(b0, x) },
//@ at start
    proof { reveal(is_reverse_cont_bc); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 2));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_reverse_cont().is_some() => if target.support_reverse_step().is_some()
//@ opt cut00=if buf.strip_prefix("bc".as_bytes()) => $ => Self::rd_reverse_cont_bc(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_reverse_cont(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_reverse_cont ( ) => target . hack_reverse_cont ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_reverse_cont(cap, b0.body()) && unread(b0, b),
            Err(x) => is_reverse_cont(cap, b0.body()) && out_reverse_cont(b0, x),
        } }),
//@ at start
    proof { reveal(any_reverse_cont); reveal(out_reverse_cont); reveal(is_reverse_cont); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("bs".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_reverse_step_bs(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "bs"@) && unread(b0, b), Err(x) => named(b0.body(), "bs"@) && is_reverse_step_bs(b0, x) },
//@ at start
    proof { reveal(is_reverse_step_bs); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 2));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_reverse_step().is_some() => if target.support_memory_map().is_some()
//@ opt cut00=if buf.strip_prefix("bs".as_bytes()) => $ => Self::rd_reverse_step_bs(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_reverse_step(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_reverse_step ( ) => target . hack_reverse_step ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_reverse_step(cap, b0.body()) && unread(b0, b),
            Err(x) => is_reverse_step(cap, b0.body()) && out_reverse_step(b0, x),
        } }),
//@ at start
    proof { reveal(any_reverse_step); reveal(out_reverse_step); reveal(is_reverse_step); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qXfer:memory-map:read".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_memory_map_qXferMemoryMapRead(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qXfer:memory-map:read"@) && unread(b0, b), Err(x) => named(b0.body(), "qXfer:memory-map:read"@) && is_memory_map_qXferMemoryMapRead(b0, x) },
//@ at start
    proof { reveal(is_memory_map_qXferMemoryMapRead); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 21));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_memory_map().is_some() => if target.support_auxv().is_some()
//@ opt cut00=if buf.strip_prefix("qXfer:memory-map:read".as_bytes()) => $ => Self::rd_memory_map_qXferMemoryMapRead(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_memory_map(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_memory_map(cap, b0.body()) && unread(b0, b),
            Err(x) => is_memory_map(cap, b0.body()) && out_memory_map(b0, x),
        } }),
//@ at start
    proof { reveal(any_memory_map); reveal(out_memory_map); reveal(is_memory_map); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qXfer:auxv:read".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_auxv_qXferAuxvRead(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qXfer:auxv:read"@) && unread(b0, b), Err(x) => named(b0.body(), "qXfer:auxv:read"@) && is_auxv_qXferAuxvRead(b0, x) },
//@ at start
    proof { reveal(is_auxv_qXferAuxvRead); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 15));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_auxv().is_some() => if target.support_exec_file().is_some()
//@ opt cut00=if buf.strip_prefix("qXfer:auxv:read".as_bytes()) => $ => Self::rd_auxv_qXferAuxvRead(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_auxv(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_auxv(cap, b0.body()) && unread(b0, b),
            Err(x) => is_auxv(cap, b0.body()) && out_auxv(b0, x),
        } }),
//@ at start
    proof { reveal(any_auxv); reveal(out_auxv); reveal(is_auxv); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qXfer:exec-file:read".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_exec_file_qXferExecFileRead(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qXfer:exec-file:read"@) && unread(b0, b), Err(x) => named(b0.body(), "qXfer:exec-file:read"@) && is_exec_file_qXferExecFileRead(b0, x) },
//@ at start
    proof { reveal(is_exec_file_qXferExecFileRead); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 20));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_exec_file().is_some() => if target.support_host_io().is_some()
//@ opt cut00=if buf.strip_prefix("qXfer:exec-file:read".as_bytes()) => $ => Self::rd_exec_file_qXferExecFileRead(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_exec_file(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_exec_file(cap, b0.body()) && unread(b0, b),
            Err(x) => is_exec_file(cap, b0.body()) && out_exec_file(b0, x),
        } }),
//@ at start
    proof { reveal(any_exec_file); reveal(out_exec_file); reveal(is_exec_file); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:open".as_bytes()) => if buf.strip_prefix("vFile:close".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFileOpen(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:open"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:open"@) && is_host_io_vFileOpen(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFileOpen); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 10));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:close".as_bytes()) => if buf.strip_prefix("vFile:pread".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFileClose(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:close"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:close"@) && is_host_io_vFileClose(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFileClose); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 11));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:pread".as_bytes()) => if buf.strip_prefix("vFile:pwrite".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFilePread(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:pread"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:pread"@) && is_host_io_vFilePread(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFilePread); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 11));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:pwrite".as_bytes()) => if buf.strip_prefix("vFile:fstat".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFilePwrite(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:pwrite"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:pwrite"@) && is_host_io_vFilePwrite(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFilePwrite); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 12));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:fstat".as_bytes()) => if buf.strip_prefix("vFile:unlink".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFileFstat(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:fstat"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:fstat"@) && is_host_io_vFileFstat(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFileFstat); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 11));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:unlink".as_bytes()) => if buf.strip_prefix("vFile:readlink".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFileUnlink(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:unlink"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:unlink"@) && is_host_io_vFileUnlink(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFileUnlink); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 12));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:readlink".as_bytes()) => if buf.strip_prefix("vFile:setfs".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFileReadlink(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:readlink"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:readlink"@) && is_host_io_vFileReadlink(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFileReadlink); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 14));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("vFile:setfs".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_host_io_vFileSetfs(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "vFile:setfs"@) && unread(b0, b), Err(x) => named(b0.body(), "vFile:setfs"@) && is_host_io_vFileSetfs(b0, x) },
//@ at start
    proof { reveal(is_host_io_vFileSetfs); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 11));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_host_io().is_some() => if target.support_catch_syscalls().is_some()
//@ opt cut00=if buf.strip_prefix("vFile:open".as_bytes()) => if buf.strip_prefix("vFile:close".as_bytes()) => Self::rd_host_io_vFileOpen(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix("vFile:close".as_bytes()) => if buf.strip_prefix("vFile:pread".as_bytes()) => Self::rd_host_io_vFileClose(buf, Ghost(b0)) => buf
//@ opt cut02=if buf.strip_prefix("vFile:pread".as_bytes()) => if buf.strip_prefix("vFile:pwrite".as_bytes()) => Self::rd_host_io_vFilePread(buf, Ghost(b0)) => buf
//@ opt cut03=if buf.strip_prefix("vFile:pwrite".as_bytes()) => if buf.strip_prefix("vFile:fstat".as_bytes()) => Self::rd_host_io_vFilePwrite(buf, Ghost(b0)) => buf
//@ opt cut04=if buf.strip_prefix("vFile:fstat".as_bytes()) => if buf.strip_prefix("vFile:unlink".as_bytes()) => Self::rd_host_io_vFileFstat(buf, Ghost(b0)) => buf
//@ opt cut05=if buf.strip_prefix("vFile:unlink".as_bytes()) => if buf.strip_prefix("vFile:readlink".as_bytes()) => Self::rd_host_io_vFileUnlink(buf, Ghost(b0)) => buf
//@ opt cut06=if buf.strip_prefix("vFile:readlink".as_bytes()) => if buf.strip_prefix("vFile:setfs".as_bytes()) => Self::rd_host_io_vFileReadlink(buf, Ghost(b0)) => buf
//@ opt cut07=if buf.strip_prefix("vFile:setfs".as_bytes()) => $ => Self::rd_host_io_vFileSetfs(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_host_io(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_host_io(cap, b0.body()) && unread(b0, b),
            Err(x) => is_host_io(cap, b0.body()) && out_host_io(b0, x),
        } }),
//@ at start
    proof { reveal(any_host_io); reveal(out_host_io); reveal(is_host_io); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QCatchSyscalls".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_catch_syscalls_QCatchSyscalls(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QCatchSyscalls"@) && unread(b0, b), Err(x) => named(b0.body(), "QCatchSyscalls"@) && is_catch_syscalls_QCatchSyscalls(b0, x) },
//@ at start
    proof { reveal(is_catch_syscalls_QCatchSyscalls); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 14));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_catch_syscalls().is_some() => if target.support_thread_extra_info().is_some()
//@ opt cut00=if buf.strip_prefix("QCatchSyscalls".as_bytes()) => $ => Self::rd_catch_syscalls_QCatchSyscalls(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_catch_syscalls(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_catch_syscalls(cap, b0.body()) && unread(b0, b),
            Err(x) => is_catch_syscalls(cap, b0.body()) && out_catch_syscalls(b0, x),
        } }),
//@ at start
    proof { reveal(any_catch_syscalls); reveal(out_catch_syscalls); reveal(is_catch_syscalls); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qThreadExtraInfo".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_thread_extra_info_qThreadExtraInfo(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qThreadExtraInfo"@) && unread(b0, b), Err(x) => named(b0.body(), "qThreadExtraInfo"@) && is_thread_extra_info_qThreadExtraInfo(b0, x) },
//@ at start
    proof { reveal(is_thread_extra_info_qThreadExtraInfo); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 16));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_thread_extra_info().is_some() => if target.support_lldb_register_info().is_some()
//@ opt cut00=if buf.strip_prefix("qThreadExtraInfo".as_bytes()) => $ => Self::rd_thread_extra_info_qThreadExtraInfo(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_thread_extra_info(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_thread_extra_info ( ) => target . hack_thread_extra_info ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_thread_extra_info(cap, b0.body()) && unread(b0, b),
            Err(x) => is_thread_extra_info(cap, b0.body()) && out_thread_extra_info(b0, x),
        } }),
//@ at start
    proof { reveal(any_thread_extra_info); reveal(out_thread_extra_info); reveal(is_thread_extra_info); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qRegisterInfo".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_lldb_register_info_qRegisterInfo(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qRegisterInfo"@) && unread(b0, b), Err(x) => named(b0.body(), "qRegisterInfo"@) && is_lldb_register_info_qRegisterInfo(b0, x) },
//@ at start
    proof { reveal(is_lldb_register_info_qRegisterInfo); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 13));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_lldb_register_info().is_some() => if target.support_libraries_svr4().is_some()
//@ opt cut00=if buf.strip_prefix("qRegisterInfo".as_bytes()) => $ => Self::rd_lldb_register_info_qRegisterInfo(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_lldb_register_info(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ subst target . support_lldb_register_info ( ) => target . hack_lldb_register_info ( )
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_lldb_register_info(cap, b0.body()) && unread(b0, b),
            Err(x) => is_lldb_register_info(cap, b0.body()) && out_lldb_register_info(b0, x),
        } }),
//@ at start
    proof { reveal(any_lldb_register_info); reveal(out_lldb_register_info); reveal(is_lldb_register_info); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qXfer:libraries-svr4:read".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_libraries_svr4_qXferLibrariesSvr4Read(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qXfer:libraries-svr4:read"@) && unread(b0, b), Err(x) => named(b0.body(), "qXfer:libraries-svr4:read"@) && is_libraries_svr4_qXferLibrariesSvr4Read(b0, x) },
//@ at start
    proof { reveal(is_libraries_svr4_qXferLibrariesSvr4Read); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 25));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_libraries_svr4().is_some() => if target.support_tracepoints().is_some()
//@ opt cut00=if buf.strip_prefix("qXfer:libraries-svr4:read".as_bytes()) => $ => Self::rd_libraries_svr4_qXferLibrariesSvr4Read(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_libraries_svr4(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_libraries_svr4(cap, b0.body()) && unread(b0, b),
            Err(x) => is_libraries_svr4(cap, b0.body()) && out_libraries_svr4(b0, x),
        } }),
//@ at start
    proof { reveal(any_libraries_svr4); reveal(out_libraries_svr4); reveal(is_libraries_svr4); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTDPsrc".as_bytes()) => if buf.strip_prefix("QTDP".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTDPsrc(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTDPsrc"@) && unread(b0, b), Err(x) => named(b0.body(), "QTDPsrc"@) && is_tracepoints_QTDPsrc(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTDPsrc); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 7));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTDP".as_bytes()) => if buf.strip_prefix("QTinit".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTDP(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTDP"@) && unread(b0, b), Err(x) => named(b0.body(), "QTDP"@) && is_tracepoints_QTDP(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTDP); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 4));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTinit".as_bytes()) => if buf.strip_prefix("QTBuffer".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTinit(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTinit"@) && unread(b0, b), Err(x) => named(b0.body(), "QTinit"@) && is_tracepoints_QTinit(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTinit); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 6));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTBuffer".as_bytes()) => if buf.strip_prefix("QTStart".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTBuffer(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTBuffer"@) && unread(b0, b), Err(x) => named(b0.body(), "QTBuffer"@) && is_tracepoints_QTBuffer(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTBuffer); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 8));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTStart".as_bytes()) => if buf.strip_prefix("QTStop".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTStart(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTStart"@) && unread(b0, b), Err(x) => named(b0.body(), "QTStart"@) && is_tracepoints_QTStart(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTStart); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 7));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTStop".as_bytes()) => if buf.strip_prefix("QTFrame".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTStop(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTStop"@) && unread(b0, b), Err(x) => named(b0.body(), "QTStop"@) && is_tracepoints_QTStop(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTStop); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 6));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("QTFrame".as_bytes()) => if buf.strip_prefix("qTBuffer".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_QTFrame(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "QTFrame"@) && unread(b0, b), Err(x) => named(b0.body(), "QTFrame"@) && is_tracepoints_QTFrame(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_QTFrame); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 7));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTBuffer".as_bytes()) => if buf.strip_prefix("qTStatus".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTBuffer(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTBuffer"@) && unread(b0, b), Err(x) => named(b0.body(), "qTBuffer"@) && is_tracepoints_qTBuffer(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTBuffer); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 8));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTStatus".as_bytes()) => if buf.strip_prefix("qTP".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTStatus(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTStatus"@) && unread(b0, b), Err(x) => named(b0.body(), "qTStatus"@) && is_tracepoints_qTStatus(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTStatus); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 8));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTP".as_bytes()) => if buf.strip_prefix("qTfP".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTP(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTP"@) && unread(b0, b), Err(x) => named(b0.body(), "qTP"@) && is_tracepoints_qTP(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTP); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 3));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTfP".as_bytes()) => if buf.strip_prefix("qTsP".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTfP(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTfP"@) && unread(b0, b), Err(x) => named(b0.body(), "qTfP"@) && is_tracepoints_qTfP(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTfP); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 4));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTsP".as_bytes()) => if buf.strip_prefix("qTfV".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTsP(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTsP"@) && unread(b0, b), Err(x) => named(b0.body(), "qTsP"@) && is_tracepoints_qTsP(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTsP); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 4));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTfV".as_bytes()) => if buf.strip_prefix("qTsV".as_bytes())
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTfV(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTfV"@) && unread(b0, b), Err(x) => named(b0.body(), "qTfV"@) && is_tracepoints_qTfV(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTfV); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 4));
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix("qTsV".as_bytes()) => $
//@ opt segret=buf
//@ opt sig=fn rd_tracepoints_qTsV(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "qTsV"@) && unread(b0, b), Err(x) => named(b0.body(), "qTsV"@) && is_tracepoints_qTsV(b0, x) },
//@ at start
    proof { reveal(is_tracepoints_qTsV); }
//@ at before:let cmd
    let ghost b1 = buf;
    assert(stripped(b0, b1, 4));
//@ end
//@ fn from_packet
//@ opt seg=if target.support_tracepoints().is_some() => if let Some(_breakpoint_ops)
//@ opt cut00=if buf.strip_prefix("QTDPsrc".as_bytes()) => if buf.strip_prefix("QTDP".as_bytes()) => Self::rd_tracepoints_QTDPsrc(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix("QTDP".as_bytes()) => if buf.strip_prefix("QTinit".as_bytes()) => Self::rd_tracepoints_QTDP(buf, Ghost(b0)) => buf
//@ opt cut02=if buf.strip_prefix("QTinit".as_bytes()) => if buf.strip_prefix("QTBuffer".as_bytes()) => Self::rd_tracepoints_QTinit(buf, Ghost(b0)) => buf
//@ opt cut03=if buf.strip_prefix("QTBuffer".as_bytes()) => if buf.strip_prefix("QTStart".as_bytes()) => Self::rd_tracepoints_QTBuffer(buf, Ghost(b0)) => buf
//@ opt cut04=if buf.strip_prefix("QTStart".as_bytes()) => if buf.strip_prefix("QTStop".as_bytes()) => Self::rd_tracepoints_QTStart(buf, Ghost(b0)) => buf
//@ opt cut05=if buf.strip_prefix("QTStop".as_bytes()) => if buf.strip_prefix("QTFrame".as_bytes()) => Self::rd_tracepoints_QTStop(buf, Ghost(b0)) => buf
//@ opt cut06=if buf.strip_prefix("QTFrame".as_bytes()) => if buf.strip_prefix("qTBuffer".as_bytes()) => Self::rd_tracepoints_QTFrame(buf, Ghost(b0)) => buf
//@ opt cut07=if buf.strip_prefix("qTBuffer".as_bytes()) => if buf.strip_prefix("qTStatus".as_bytes()) => Self::rd_tracepoints_qTBuffer(buf, Ghost(b0)) => buf
//@ opt cut08=if buf.strip_prefix("qTStatus".as_bytes()) => if buf.strip_prefix("qTP".as_bytes()) => Self::rd_tracepoints_qTStatus(buf, Ghost(b0)) => buf
//@ opt cut09=if buf.strip_prefix("qTP".as_bytes()) => if buf.strip_prefix("qTfP".as_bytes()) => Self::rd_tracepoints_qTP(buf, Ghost(b0)) => buf
//@ opt cut10=if buf.strip_prefix("qTfP".as_bytes()) => if buf.strip_prefix("qTsP".as_bytes()) => Self::rd_tracepoints_qTfP(buf, Ghost(b0)) => buf
//@ opt cut11=if buf.strip_prefix("qTsP".as_bytes()) => if buf.strip_prefix("qTfV".as_bytes()) => Self::rd_tracepoints_qTsP(buf, Ghost(b0)) => buf
//@ opt cut12=if buf.strip_prefix("qTfV".as_bytes()) => if buf.strip_prefix("qTsV".as_bytes()) => Self::rd_tracepoints_qTfV(buf, Ghost(b0)) => buf
//@ opt cut13=if buf.strip_prefix("qTsV".as_bytes()) => $ => Self::rd_tracepoints_qTsV(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_tracepoints(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_tracepoints(cap, b0.body()) && unread(b0, b),
            Err(x) => is_tracepoints(cap, b0.body()) && out_tracepoints(b0, x),
        } }),
//@ at start
    proof { reveal(any_tracepoints); reveal(out_tracepoints); reveal(is_tracepoints); }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix(b"z") => if buf.strip_prefix(b"Z")
//@ opt segret=buf
//@ opt sig=fn rd_breakpoints_z(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "z"@) && unread(b0, b), Err(x) => named(b0.body(), "z"@) && out_breakpoints(b0, x) },
//@ at start
    proof { reveal(out_breakpoints); reveal_strlit("z"); assert forall|s: Seq<u8>| #![trigger s.len()] s.len() == 1 && s[0] == 122 implies s == ascii("z"@) by { assert(s =~= ascii("z"@)); } }
//@ end
//@ fn from_packet
//@ opt seg=if buf.strip_prefix(b"Z") => $
//@ opt segret=buf
//@ opt sig=fn rd_breakpoints_Z(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt const_if
//@ opt drop_use
//@ opt lits=bytes
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "Z"@) && unread(b0, b), Err(x) => named(b0.body(), "Z"@) && out_breakpoints(b0, x) },
//@ at start
    proof { reveal(out_breakpoints); reveal_strlit("Z"); assert forall|s: Seq<u8>| #![trigger s.len()] s.len() == 1 && s[0] == 90 implies s == ascii("Z"@) by { assert(s =~= ascii("Z"@)); } }
//@ end
//@ fn from_packet
//@ opt seg=if let Some(_breakpoint_ops) => Some(Command::Unknown(
//@ opt cut00=if buf.strip_prefix(b"z") => if buf.strip_prefix(b"Z") => Self::rd_breakpoints_z(buf, Ghost(b0)) => buf
//@ opt cut01=if buf.strip_prefix(b"Z") => $ => Self::rd_breakpoints_Z(buf, Ghost(b0)) => buf
//@ opt segret=buf
//@ opt sig=fn pk_breakpoints(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>
//@ opt drop_use
//@ ret r
//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_breakpoints(cap, b0.body()) && unread(b0, b),
            Err(x) => is_breakpoints(cap, b0.body()) && out_breakpoints(b0, x),
        } }),
//@ at start
    proof { reveal(any_breakpoints); reveal(out_breakpoints); reveal(is_breakpoints); }
//@ end
//@ fn from_packet
//@ subst & mut impl Target => & mut T
//@ opt cut00=if target.support_base().is_some() => if target.support_target_xml().is_some() => Self::pk_base(target, buf, Ghost(b0)) => buf
//@ opt cut01=if target.support_target_xml().is_some() => if target.support_resume().is_some() => Self::pk_target_xml(target, buf, Ghost(b0)) => buf
//@ opt cut02=if target.support_resume().is_some() => if target.support_x_upcase_packet().is_some() => Self::pk_resume(target, buf, Ghost(b0)) => buf
//@ opt cut03=if target.support_x_upcase_packet().is_some() => if target.support_no_ack_mode().is_some() => Self::pk_x_upcase_packet(target, buf, Ghost(b0)) => buf
//@ opt cut04=if target.support_no_ack_mode().is_some() => if target.support_single_register_access().is_some() => Self::pk_no_ack_mode(target, buf, Ghost(b0)) => buf
//@ opt cut05=if target.support_single_register_access().is_some() => if target.support_extended_mode().is_some() => Self::pk_single_register_access(target, buf, Ghost(b0)) => buf
//@ opt cut06=if target.support_extended_mode().is_some() => if target.support_monitor_cmd().is_some() => Self::pk_extended_mode(target, buf, Ghost(b0)) => buf
//@ opt cut07=if target.support_monitor_cmd().is_some() => if target.support_section_offsets().is_some() => Self::pk_monitor_cmd(target, buf, Ghost(b0)) => buf
//@ opt cut08=if target.support_section_offsets().is_some() => if target.support_reverse_cont().is_some() => Self::pk_section_offsets(target, buf, Ghost(b0)) => buf
//@ opt cut09=if target.support_reverse_cont().is_some() => if target.support_reverse_step().is_some() => Self::pk_reverse_cont(target, buf, Ghost(b0)) => buf
//@ opt cut10=if target.support_reverse_step().is_some() => if target.support_memory_map().is_some() => Self::pk_reverse_step(target, buf, Ghost(b0)) => buf
//@ opt cut11=if target.support_memory_map().is_some() => if target.support_auxv().is_some() => Self::pk_memory_map(target, buf, Ghost(b0)) => buf
//@ opt cut12=if target.support_auxv().is_some() => if target.support_exec_file().is_some() => Self::pk_auxv(target, buf, Ghost(b0)) => buf
//@ opt cut13=if target.support_exec_file().is_some() => if target.support_host_io().is_some() => Self::pk_exec_file(target, buf, Ghost(b0)) => buf
//@ opt cut14=if target.support_host_io().is_some() => if target.support_catch_syscalls().is_some() => Self::pk_host_io(target, buf, Ghost(b0)) => buf
//@ opt cut15=if target.support_catch_syscalls().is_some() => if target.support_thread_extra_info().is_some() => Self::pk_catch_syscalls(target, buf, Ghost(b0)) => buf
//@ opt cut16=if target.support_thread_extra_info().is_some() => if target.support_lldb_register_info().is_some() => Self::pk_thread_extra_info(target, buf, Ghost(b0)) => buf
//@ opt cut17=if target.support_lldb_register_info().is_some() => if target.support_libraries_svr4().is_some() => Self::pk_lldb_register_info(target, buf, Ghost(b0)) => buf
//@ opt cut18=if target.support_libraries_svr4().is_some() => if target.support_tracepoints().is_some() => Self::pk_libraries_svr4(target, buf, Ghost(b0)) => buf
//@ opt cut19=if target.support_tracepoints().is_some() => if let Some(_breakpoint_ops) => Self::pk_tracepoints(target, buf, Ghost(b0)) => buf
//@ opt cut20=if let Some(_breakpoint_ops) => Some(Command::Unknown( => Self::pk_breakpoints(target, buf, Ghost(b0)) => buf
//@ opt drop_items
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@ ret r
//@ spec
    requires buf.wf(), buf.start() == 1,
    ensures final(target)@ == old(target)@, parsed(old(target)@.has, buf, r),
//@ at start
    let ghost b0 = buf;
//@ end
//@ endimpl
