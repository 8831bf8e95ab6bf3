"""Writes units/dispfns.vx: which command a packet is, as a function of its name and of what the target offers.

The table is the documented one: every family of packets, what a target must offer for it, and the packets.
"""
T = [
 ("Base", "base", "true", "? QuestionMark question_mark;D D _d_upcase;g g _g;G G<'a> _g_upcase;H H _h_upcase;k k _k;m m<'a> _m;M M<'a> _m_upcase;qAttached qAttached;qfThreadInfo qfThreadInfo;qsThreadInfo qsThreadInfo;qSupported qSupported<'a>;T T _t_upcase;vKill vKill"),
 ("TargetXml", "target_xml", "cap.use_target_description_xml && (AArch::xml() is Some || cap.support_target_description_xml_override)", "qXfer:features:read qXferFeaturesRead<'a> _qXfer_features_read"),
 ("Resume", "resume", "cap.support_resume", "c c<'a>;s s<'a>;vCont vCont<'a>"),
 ("XUpcasePacket", "x_upcase_packet", "cap.use_x_upcase_packet", "X X<'a> _x_upcase"),
 ("NoAckMode", "no_ack_mode", "cap.use_no_ack_mode", "QStartNoAckMode QStartNoAckMode"),
 ("SingleRegisterAccess", "single_register_access", "cap.support_single_register_access", "p p<'a>;P P<'a> _p_upcase"),
 ("ExtendedMode", "extended_mode", "cap.support_extended_mode", "! ExclamationMark exclamation_mark;qC qC;QDisableRandomization QDisableRandomization;QEnvironmentHexEncoded QEnvironmentHexEncoded<'a>;QEnvironmentReset QEnvironmentReset;QEnvironmentUnset QEnvironmentUnset<'a>;QSetWorkingDir QSetWorkingDir<'a>;QStartupWithShell QStartupWithShell;R R _r_upcase;vAttach vAttach;vRun vRun<'a>"),
 ("MonitorCmd", "monitor_cmd", "cap.support_monitor_cmd", "qRcmd qRcmd<'a>"),
 ("SectionOffsets", "section_offsets", "cap.support_section_offsets", "qOffsets qOffsets"),
 ("ReverseCont", "reverse_cont", "cap.support_resume && cap.support_reverse_cont", "bc bc"),
 ("ReverseStep", "reverse_step", "cap.support_resume && cap.support_reverse_step", "bs bs"),
 ("MemoryMap", "memory_map", "cap.support_memory_map", "qXfer:memory-map:read qXferMemoryMapRead<'a> _qXfer_memory_map"),
 ("Auxv", "auxv", "cap.support_auxv", "qXfer:auxv:read qXferAuxvRead<'a> _qXfer_auxv_read"),
 ("ExecFile", "exec_file", "cap.support_exec_file", "qXfer:exec-file:read qXferExecFileRead<'a> _qXfer_exec_file"),
 ("HostIo", "host_io", "cap.support_host_io", "vFile:open vFileOpen<'a> _vFile_open;vFile:close vFileClose _vFile_close;vFile:pread vFilePread<'a> _vFile_pread;vFile:pwrite vFilePwrite<'a> _vFile_pwrite;vFile:fstat vFileFstat _vFile_fstat;vFile:unlink vFileUnlink<'a> _vFile_unlink;vFile:readlink vFileReadlink<'a> _vFile_readlink;vFile:setfs vFileSetfs _vFile_setfs"),
 ("CatchSyscalls", "catch_syscalls", "cap.support_catch_syscalls", "QCatchSyscalls QCatchSyscalls<'a>"),
 ("ThreadExtraInfo", "thread_extra_info", "cap.multi && cap.support_thread_extra_info", "qThreadExtraInfo qThreadExtraInfo<'a>"),
 ("LldbRegisterInfo", "lldb_register_info", "cap.use_lldb_register_info && (AArch::has_lldb() || cap.support_lldb_register_info_override)", "qRegisterInfo qRegisterInfo"),
 ("LibrariesSvr4", "libraries_svr4", "cap.support_libraries_svr4", "qXfer:libraries-svr4:read qXferLibrariesSvr4Read<'a> _qXfer_libraries_svr4_read"),
 ("Tracepoints", "tracepoints", "cap.support_tracepoints", "QTDPsrc QTDPsrc<'a>;QTDP QTDP<'a>;QTinit QTinit;QTBuffer QTBuffer _QTBuffer_upcase;QTStart QTStart;QTStop QTStop;QTFrame QTFrame<'a>;qTBuffer qTBuffer;qTStatus qTStatus;qTP qTP<'a>;qTfP qTfP;qTsP qTsP;qTfV qTfV;qTsV qTsV"),
]
def rows(s):
    for r in s.split(";"):
        f = r.split(" ")
        name, ty = f[0], f[1]
        base = ty.split("<")[0]
        mod = f[2] if len(f) > 2 else "_" + base
        yield name, ty, base, mod

o = ["// ---- which command a packet is (written by tools/gen_disp.py)"]
w = o.append
w("//@ include disptypes.vx")
w("""// the packet from behind its name on
#[verifier::prophetic]
pub open spec fn stripped<'a>(b: PacketBuf<'a>, b2: PacketBuf<'a>, n: nat) -> bool { b2.wf() && b2.same_buf(&b) && b2.start() == b.start() + n && b2.body() == b.body().skip(n as int) }
pub open spec fn named(b: Seq<u8>, name: Seq<char>) -> bool { ascii(name).is_prefix_of(b) }
// `c` is what stands behind the name of `n` bytes
#[verifier::prophetic]
pub open spec fn read<'a, P: ParseCommand<'a>>(b: PacketBuf<'a>, n: nat, c: P) -> bool {
    P::syntax(b.body().skip(n as int)) == Some(c.vw()) && exists|b2: PacketBuf<'a>| #[trigger] stripped(b, b2, n) && c.scratch(&b2)
}""")
w("""#[verifier::prophetic]
pub open spec fn unread<'a>(b: PacketBuf<'a>, b2: PacketBuf<'a>) -> bool { b2.wf() && b2.same_buf(&b) && b2.start() == b.start() && b2.body() == b.body() }""")
for e, x, c, rs in T:
    R = list(rows(rs))
    for n, ty, b, m in R:
        k = len(n)
        w("#[verifier::prophetic] #[verifier::opaque]\npub open spec fn is_%s_%s<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {" % (x, b))
        w('    match r { None => <%s::%s as ParseCommand<\'a>>::syntax(b.body().skip(%d)) is None, Some(Command::%s(ext::%s::%s(c))) => read(b, %d, c), _ => false }\n}' % (m, ty, k, e, e, b, k))
    w("#[verifier::opaque]\npub open spec fn any_%s(b: Seq<u8>) -> bool { %s }" % (x, " || ".join('named(b, "%s"@)' % r[0] for r in R)))
    w("#[verifier::prophetic] #[verifier::opaque]\npub open spec fn out_%s<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {" % x)
    for n, ty, b, m in R:
        w('    if named(b.body(), "%s"@) { is_%s_%s(b, r) } else' % (n, x, b))
    w("    { false }\n}")
w("#[verifier::opaque]\npub open spec fn any_breakpoints(b: Seq<u8>) -> bool { named(b, \"z\"@) || named(b, \"Z\"@) }")
w("""#[verifier::opaque]\npub open spec fn out_breakpoints<'a>(b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {
    let s = bp_syntax(b.body().skip(1));
    match r {
        None => s is None,
        Some(Command::Breakpoints(ext::Breakpoints::z(c))) => named(b.body(), "z"@) && s == Some(c.vw()),
        Some(Command::Breakpoints(ext::Breakpoints::Z(c))) => named(b.body(), "Z"@) && s == Some(c.vw()),
        _ => false,
    }
}""")
# the whole
for e, x, c, rs in T + [("", "breakpoints", "cap.support_breakpoints", "")]:
    w("#[verifier::opaque]\npub open spec fn is_%s(cap: Caps, b: Seq<u8>) -> bool { (%s) && any_%s(b) }" % (x, c, x))
w("// a packet is the command it names if the target offers that, and unknown otherwise\n#[verifier::prophetic]\npub open spec fn parsed<'a>(cap: Caps, b: PacketBuf<'a>, r: Option<Command<'a>>) -> bool {")
for e, x, c, rs in T: w("    if is_%s(cap, b.body()) { out_%s(b, r) } else" % (x, x))
w("    if is_breakpoints(cap, b.body()) { out_breakpoints(b, r) } else")
w("    { r matches Some(Command::Unknown(u)) && u@ == b.body() }\n}")
# the questions put to the target
w("//@ inner hack = @expanded mod protocol / mod commands / Command<'a> :: from_packet")
w("pub fn drop<A>(a: A) {}")
w("//@ impl hack Hack for T ==> impl VxT")
for e, x, c, rs in T:
    if x in "base target_xml lldb_register_info resume single_register_access reverse_step reverse_cont x_upcase_packet no_ack_mode thread_extra_info".split():
        w("//@ fn support_%s\n//@ ret r\n//@ opt map\n//@ opt drop_use\n//@ opt rename=hack_%s\n//@ opt vis=pub\n//@ spec\n    ensures final(self)@ == old(self)@, r is Some <==> ({ let cap = old(self)@.has; %s }),\n//@ end" % (x, x, c))
w("//@ endimpl")
w("//@ impl @expanded mod protocol / mod commands / Command<'a> ==> impl<'a> Command<'a>")
X = [x for _, x, _, _ in T]
HACK = "base target_xml lldb_register_info resume single_register_access reverse_step reverse_cont x_upcase_packet no_ack_mode thread_extra_info".split()
def start(x): return "if let Some(_breakpoint_ops)" if x == "breakpoints" else "if target.support_%s().is_some()" % x
nxt = X[1:] + ["breakpoints"]
for (e, x, c, rs), y in list(zip(T, nxt)) + [(("Breakpoints", "breakpoints", "cap.support_breakpoints", ""), None)]:
    R = list(rows(rs)) if rs else [("z", "z", "z", ""), ("Z", "Z", "Z", "")]
    def rowst(n): return 'if buf.strip_prefix(%s' % ('b"%s")' % n if not rs else '"%s".as_bytes())' % n)
    cuts = ""
    whole = "//@ fn from_packet\n//@ opt seg=%s => %s\n" % (start(x), start(y) if y else "Some(Command::Unknown(")
    for i, (n, ty, b, m) in enumerate(R):
        # the last row of a family ends with its block
        to = rowst(R[i + 1][0]) if i + 1 < len(R) else "$"
        w("//@ fn from_packet\n//@ opt seg=%s => %s" % (rowst(n), to))
        w("//@ opt segret=buf\n//@ opt sig=fn rd_%s_%s(mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>" % (x, b))
        w("//@ opt const_if\n//@ opt drop_use\n//@ opt lits=bytes\n//@ ret r")
        out = "is_%s_%s" % (x, b) if rs else "out_breakpoints"
        w("""//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures match r { Ok(b) => !named(b0.body(), "%s"@) && unread(b0, b), Err(x) => named(b0.body(), "%s"@) && %s(b0, x) },
%s//@ end""" % (n, n, out, """//@ at start
    proof { reveal(out_breakpoints); reveal_strlit("%s"); assert forall|s: Seq<u8>| #![trigger s.len()] s.len() == 1 && s[0] == %d implies s == ascii("%s"@) by { assert(s =~= ascii("%s"@)); } }
""" % (n, ord(n), n, n) if not rs else "//@ at start\n    proof { reveal(%s); }\n//@ at before:let cmd\n    let ghost b1 = buf;\n    assert(stripped(b0, b1, %d));\n" % (out, len(n))))
        cuts += "//@ opt cut%02d=%s => %s => Self::rd_%s_%s(buf, Ghost(b0)) => buf\n" % (i, rowst(n), to, x, b)
    w(whole + cuts + "//@ opt segret=buf\n//@ opt sig=fn pk_%s(target: &mut T, mut buf: PacketBuf<'a>, Ghost(b0): Ghost<PacketBuf<'a>>) -> Result<PacketBuf<'a>, Option<Command<'a>>>" % x)
    w("//@ opt drop_use\n//@ ret r")
    if x in HACK: w("//@ subst target . support_%s ( ) => target . hack_%s ( )" % (x, x))
    w("""//@ spec
    requires buf.start() == 1, unread(b0, buf),
    ensures final(target)@ == old(target)@,
        ({ let cap = old(target)@.has; match r {
            Ok(b) => !is_%s(cap, b0.body()) && unread(b0, b),
            Err(x) => is_%s(cap, b0.body()) && out_%s(b0, x),
        } }),
//@ at start
    proof { reveal(any_%s); reveal(out_%s); reveal(is_%s); }
//@ end""" % (x, x, x, x, x, x))
w("//@ fn from_packet\n//@ subst & mut impl Target => & mut T")
for i, x in enumerate(X + ["breakpoints"]):
    y = (X + ["breakpoints", None])[i + 1]
    w("//@ opt cut%02d=%s => %s => Self::pk_%s(target, buf, Ghost(b0)) => buf" % (i, start(x), start(y) if y else "Some(Command::Unknown(", x))
w("""//@ opt drop_items
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@ ret r
//@ spec
    requires buf.wf(), buf.start() == 1,
    ensures final(target)@ == old(target)@, parsed(old(target)@.has, buf, r),
//@ at start
    let ghost b0 = buf;
//@ end
//@ endimpl""")
open("/verif/units/dispfns.vx", "w").write("\n".join(o) + "\n")

# ---- the types of the commands
o.clear()
w("// ---- the commands (written by tools/gen_disp.py)")
for e, x, c, rs in T:
    for n, ty, b, m in rows(rs):
        if m.startswith("_vFile") or m.startswith("_qXfer"): w("pub mod %s { use super::*;" % m); w("//@ item src/protocol/commands/%s.rs %s" % (m, b)) if m.startswith("_qXfer") else w("pub use super::%s;" % b); w("}")
w("//@ item src/protocol/commands/breakpoint.rs BytecodeList")
w("//@ item src/protocol/commands/breakpoint.rs BytecodeBreakpoint")
w("pub mod breakpoint { pub use super::BasicBreakpoint; pub use super::BytecodeBreakpoint; }")
w("pub mod ext { use super::*;")
for e, x, c, rs in T: w("//@ item @expanded mod protocol / mod commands / mod ext / " + e)
w("//@ item @expanded mod protocol / mod commands / mod ext / Breakpoints")
w("}")
w("//@ item @expanded mod protocol / mod commands / Command")
open("/verif/units/disptypes.vx", "w").write("\n".join(o) + "\n")

# ---- which handler a command reaches
o.clear()
w("// ---- which handler a command reaches (written by tools/gen_disp.py)")
T2 = [(e, x) for e, x, _, _ in T] + [("Breakpoints", "breakpoints")]
HAND = {"resume": "stop_resume"}
LIFE = "Base TargetXml Resume XUpcasePacket SingleRegisterAccess ExtendedMode MonitorCmd MemoryMap Auxv ExecFile HostIo CatchSyscalls ThreadExtraInfo LibrariesSvr4 Tracepoints Breakpoints".split()
STATE = "<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, %smsg: Seq<u8>, r: HR<C>) -> bool"
def ty(e): return "ext::" + e + ("<'_>" if e in LIFE else "")
BASE = [("qSupported", "qsupported", "_qSupported::qSupported<'_>"), ("QuestionMark", "?", None), ("qAttached", "qattached", "_qAttached::qAttached"), ("g", "g", None), ("G", "g_upcase", "_g_upcase::G<'_>"), ("m", "m", "_m::m<'_>"), ("M", "m_upcase", "_m_upcase::M<'_>"), ("D", "d", "_d_upcase::D"), ("H", "h", "_h_upcase::H"), ("qfThreadInfo", "qf", None), ("qsThreadInfo", "qs", None), ("T", "t", "_t_upcase::T")]
def shim(fn, did, ps, args, cmdarg, frame="res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0"):
    w("pub uninterp spec fn %s%s;" % (did, STATE % (("c: %s, " % ps) if ps else "")))
    w("impl<C: Connection> GdbStubImpl<T, C> {\n    #[verifier::external_body]\n    fn %s(%s%s) -> (r: HR<C>)" % (fn, args, ", %s: %s" % (cmdarg, ps) if ps else ""))
    w("        requires rok(old(res)), old(res).msg@.len() == 0,")
    w("        ensures %s(*old(self), *final(self), old(target)@, final(target)@, %sfinal(res).msg@, r), %s, final(target)@.has == old(target)@.has,\n    { unimplemented!() }\n}" % (did, cmdarg + ", " if ps else "", frame))
ARGS = "&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T"
for e, x in T2:
    if x == "base": continue
    if x == "monitor_cmd": shim("handle_monitor_cmd", "did_monitor_cmd", ty(e) + ", side: Seq<u8>", ARGS, "command", "") if False else None
    if x == "monitor_cmd": continue
    shim("handle_" + HAND.get(x, x), "did_" + x, ty(e), ARGS, "command")
w("""pub uninterp spec fn did_monitor_cmd<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: ext::MonitorCmd<'_>, side: Seq<u8>, msg: Seq<u8>, r: HR<C>) -> bool;
impl<C: Connection> GdbStubImpl<T, C> {
    #[verifier::external_body]
    fn handle_monitor_cmd(%s, command: ext::MonitorCmd<'_>) -> (r: HR<C>)
        requires rok(old(res)), old(res).msg@.len() == 0, !old(res).started,
        ensures did_monitor_cmd(*old(self), *final(self), old(target)@, final(target)@, command, side_of(old(res), final(res)), final(res).msg@, r), cmd_frame(old(res), final(res), r), final(target)@.has == old(target)@.has,
    { unimplemented!() }
}""" % ARGS)
for v, f, t in BASE:
    if f == "?": shim("report_reasonable_stop_reason", "did_question_mark", None, ARGS, "cmd")
    else: shim("base_" + f, "did_base_" + f, t, ARGS, "cmd")
w("pub open spec fn did_base%s {\n    match c {" % (STATE % "c: ext::Base<'_>, "))
for v, f, t in BASE:
    w("        ext::Base::%s(%s) => did_%s(g0, g1, s0, s1, %smsg, r)," % (v, "c" if t else "_", "question_mark" if f == "?" else "base_" + f, "c, " if t else ""))
w("""        ext::Base::k(_) => g1 == g0 && killed::<C>(s0, s1, None, rply::<C>(msg, r), r),
        ext::Base::vKill(c) => g1 == g0 && killed::<C>(s0, s1, Some(c.pid), rply::<C>(msg, r), r),
    }
}""")
w("#[verifier::prophetic]\npub open spec fn handled<C: Connection>(g0: GdbStubImpl<T, C>, g1: GdbStubImpl<T, C>, s0: St, s1: St, c: Command<'_>, side: Seq<u8>, msg: Seq<u8>, h: HR<C>) -> bool {\n    match c {")
for e, x in T2:
    if x == "monitor_cmd": w("        Command::MonitorCmd(c) => did_monitor_cmd(g0, g1, s0, s1, c, side, msg, h),")
    else: w("        Command::%s(c) => no_side::<C>(side, h) && did_%s(g0, g1, s0, s1, c, msg, h)," % (e, x))
w("        Command::Unknown(c) => g1 == g0 && s1 == s0 && did_unknown::<C>(s0, c@, side, rply::<C>(msg, h), h),\n    }\n}")
w("//@ impl src/stub/core_impl/base.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>\n//@ fn handle_base\n//@ subst Base < '_ > => ext :: Base < '_ >\n//@ subst Base :: => ext :: Base ::")
for i, (v, f, t) in enumerate(BASE):
    if f != "?": w("//@ opt call%d=Base::%s => self.base_%s(res, target%s)" % (i, v, f, ", cmd" if t else ""))
w("""//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures did_base(*old(self), *final(self), old(target)@, final(target)@, command, final(res).msg@, r), res_frame(old(res), final(res), r), (r matches Ok(HandlerStatus::DeferredStopReason)) ==> final(res).msg@.len() == 0, final(target)@.has == old(target)@.has,
//@ at start
    broadcast use group_plain;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ endimpl""")
open("/verif/units/corehand.vx", "w").write("\n".join(o) + "\n")
