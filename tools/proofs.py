"""Which functions under contract carry which property.

UNITS: unit name -> cargo features the extraction is evaluated under.
PROOFS: property -> [(unit, regex over Verus function names)].
KANI: property -> [harness regex].
"""
UNITS = {
    "hex": "",
    "hex_paranoid": "paranoid_unsafe",
    "writer": "",
    "bytes": "",
    "recv": "std,alloc",
    "packet": "std,alloc",
    "tids": "std,alloc",
    "cmds": "std,alloc",
    "cmds2": "std,alloc",
    "cmds3": "std,alloc",
    "bp": "std,alloc",
    "base_mem": "std,alloc",
    "base_regs": "std,alloc",
    "base_thr": "std,alloc",
    "ext": "std,alloc",
    "core": "std,alloc",
    "base_res": "std,alloc",
    "base_stop": "std,alloc",
    "qxfer": "std,alloc",
    "hio": "std,alloc",
    "misc": "std,alloc",
    "sm": "std,alloc",
    "rb": "std,alloc",
    "lldb": "std,alloc",
    "cons": "std,alloc",
    "trace": "std,alloc",
    "sigs": "",
    "base_sup": "std,alloc",
    "disp": "std,alloc",
    "archreg": "",
    "fwd": "std,alloc",
}
def cmd(names): return r"::(%s)::(from_packet|from_slice|from_buf|from_bytes|vx_\w+|into_iter|iter|new_\w+)$" % names
PROOFS = {
    "P01": [("writer", r"::(new|inner_write|write|flush|lemma.*)$")],
    "P02": [("writer", r"::(write_hex|write_str|write_hex_buf|write_binary|write_num|write_dec|write_specific_id_kind|write_specific_thread_id|lemma.*)$"), ("hex", r"encode_hex_buf|lemma")],
    "P03": [("hex", r"."), ("hex_paranoid", r".")],
    "P04": [("bytes", r".")],
    "P05": [("recv", r"."), ("sm", r"incoming_data|lemma_(find_at|frame_body)")],
    "P06": [("packet", r"."), ("sm", r"incoming_data|handle_packet|lemma_(find_at|frame_body)")],
    "P07": [("tids", r".")],
    "P08": [("cmds3", cmd(r"QXferReadBase|\w+Annex")), ("qxfer", r"handle_auxv|handle_exec_file|handle_libraries|handle_memory_map|handle_target_xml|handle_error"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P09": [("packet", r"::(new|strip_prefix|into_body|into_raw_buf|full_len|from_buf)$"), ("cmds", r"."), ("cmds2", r"."), ("cmds3", r"."), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P11": [("archreg", r".")],
    "P12": [("cmds", cmd("m|M|X")), ("base_mem", r"base_m|handle_x_upcase|handle_error|lemma"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P13": [("cmds", cmd("g|G|p|P")), ("base_regs", r"base_g|inner|handle_single_register|lemma"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P14": [("cmds3", cmd("BasicBreakpoint")), ("bp", r"handle_breakpoint|handle_error"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P15": [("misc", r"handle_reverse|from_target"), ("cmds2", cmd("c|s|_?vCont|VContKind|Actions|ActionsBuf|EitherIter") + r"|vCont|lemma_(kinds|acts|pieces)"), ("base_res", r"do_vcont|handle_stop_resume|resume_ops|lemma"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P16": [("base_stop", r"write_stop_common|finish_exec"), ("base_thr", r"report_reason"), ("sm", r"report_stop|return_to_idle|into_spec|vx_into|vx_conv"), ("sigs", r".")],
    "P17": [("sm", r"incoming_data|report_stop|interrupt_handled|get_reason|return_to_idle|transition|from_plain_gdbstub|run_state_machine|vx_conv|into_spec|vx_into"), ("rb", r"run_blocking|borrow_conn|lemma_(next|received_wf|stopped_wf)|vx_conv")],
    "P18": [("sm", r"handle_packet|report_stop|GdbStubImpl.*::new$|lemma_(on_command|no_ack|fatal|unstarted)"), ("base_thr", r"ProtocolFeatures"), ("misc", r"handle_no_ack_mode"), ("core", r"handle_|unknown")],
    "P19": [("cmds2", cmd("qSupported|Features")), ("base_thr", r"ProtocolFeatures"), ("base_sup", r"qsupported|lemma"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P20": [("core", r"handle_|unknown"), ("sm", r"GdbStubError.*::(is|into)_|handle_packet|conn_(read|write|init)|vx_conv|incoming_data|report_stop|run_state_machine|lemma_(on_command|fatal)"), ("rb", r"run_blocking"), ("misc", r"handle_error"), ("base_mem", r"handle_error")],
    "P21": [("cmds", cmd(r"H|T|D|vKill|vAttach|qAttached|qThreadExtraInfo|qfThreadInfo|qsThreadInfo")), ("cmds2", cmd(r"vRun|ArgListHex|QEnvironment\w+|QSetWorkingDir")), ("base_thr", r"base_|get_sane|get_current|report_reason|lemma"), ("base_sup", r"base_qattached|base_d|was_attached"), ("ext", r"."), ("core", r".")],
    "P22": [("cmds3", cmd(r"vFile\w+")), ("hio", r"hio_|handle_host_io"), ("disp", r"Command.*::(from_packet|pk_\w+|rd_\w+)$|hack_"), ("core", r"handle_|unknown")],
    "P23": [("cmds3", cmd("QTDP|QTDPsrc|QTFrame|QTBuffer|qTBuffer|qTP")), ("trace", r"::(from_tdp|from_src|vx_frame|handle_tracepoint\w*|tp_\w+)$|(Tracepoint\w*|Experiment\w+)(<.*>)?::write$|lemma_num")],
    "P24": [("sm", r"GdbStubBuilder.*::(new|with_packet_buffer|packet_buffer_size|build)$|GdbStub.*::(builder|new)$|from_plain_gdbstub|run_state_machine|incoming_data"), ("recv", r"push|pump|new"), ("base_sup", r"base_qsupported")],
    "P25": [("cmds2", cmd("qRcmd|QCatchSyscalls")), ("misc", r"section_offsets|thread_extra|monitor|lemma_console"), ("lldb", r"lldb|lemma_(num|dec)"), ("cons", r".")],
    "P26": [("fwd", r".")],
}
KANI = {}

def LEVEL(p):
    return "proof" if p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P19", "P21", "P22", "P26") else "exploration"

def NOTE(p):
    if LEVEL(p) == "proof":
        return "Every listed function satisfies its contract for all inputs; trusted: the verifier, the mechanical extraction and the assumed contracts named in the evidence. What has no contract yet is only explored, within bounds."
    return "Explored within bounds, not proved: seeded sessions against an independent executable specification."

def ASSUME(p):
    return ["usize is 64 bits in the proofs", "code of the user's target and connection is arbitrary but returns (no panic, no divergence)"]

# what the proofs cover and what is left to exploration, for DESIGN.md
PLAN = {
    "P01": ("every byte sent by ResponseWriter: `$` body `#` checksum, RLE decodes to exactly the bytes written (writer: new, inner_write, write, flush + lemmas on rl())", "that every handler goes through the writer"),
    "P02": ("write_hex, write_hex_buf, write_binary, write_num, write_dec, write_str, write_specific_thread_id (writer); encode_hex_buf (hex)", "console output encoding"),
    "P03": ("ascii2byte, is_hex, decode_hex, decode_hex_buf, decode_bin_buf, encode_hex_buf, HexString::decode with and without paranoid_unsafe, all indexing in bounds (hex, hex_paranoid)", ""),
    "P04": ("to/from_be_bytes and to/from_le_bytes of all 12 integer types (bytes)", ""),
    "P05": ("ManagedVec::push, RecvPacketStateMachine::pump refine frame_step; lemma: any `$body#hh` in any stream is handed out whole (recv); incoming_data hands every byte to it and a packet that does not fit ends the session with PacketBufferOverflow, before anything is done (sm)", ""),
    "P06": ("PacketBuf::new, strip_prefix, into_body, into_raw_buf, full_len, Packet::from_buf: accepted iff `$body#hh` with hh the sum of the body (packet); incoming_data and handle_packet: what is done is a function of the packet in the frame; a refused one ends the session with its error and the target is not called (sm)", ""),
    "P07": ("every TryFrom of thread_id.rs: IdKind, ThreadId, SpecificIdKind, SpecificThreadId, ConcreteThreadId, Tid (tids)", ""),
    "P08": ("QXferReadBase::from_packet and the five annexes (cmds3); the five handlers: the target is asked once, for the window requested, and the reply is `m` and what it supplied, escaped, or `l` at the end (qxfer); Command::from_packet and handle_command: which packets reach these handlers (disp, core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P09": ("from_packet of every command: accepted iff the body has the documented syntax, and then carrying the decoded values; no panic, no index out of bounds (cmds, cmds2, cmds3, packet); Command::from_packet: which command a packet is, as a function of its name and of what the target offers, for the whole documented table; a packet that is none of them, or whose body is refused, is Unknown (disp); handle_command and handle_base hand each command to its own handler, and Unknown gets the empty reply (core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P11": ("from_raw_id of every architecture shipped, for every raw id, against an independent table of register and size; every BreakpointKind::from_usize; no two ids name one register (archreg)", "that the table agrees with the serialised block and the XML"),
    "P12": ("parsing of m, M, X incl. the scratch space behind the address (cmds); the m, M and X handlers: the target is asked for contiguous chunks of exactly the requested range, the reply is the bytes it supplied, short reads and errors end it, an error reply is never preceded by data (base_mem); Command::from_packet and handle_command: which packets reach these handlers (disp, core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P13": ("parsing of g, G, p, P (cmds); the handlers: registers read and written through the selected thread, the reply is exactly the target's serialisation with `xx` for what is not available, a refused register or length is an error reply without data (base_regs); Command::from_packet and handle_command: which packets reach these handlers (disp, core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P14": ("BasicBreakpoint::from_slice (cmds3); handle_breakpoints: which of the target's methods is called with which arguments, and the reply, as a function of packet, capabilities and result (bp); Command::from_packet and handle_command: which packets reach this handler (disp, core)", "the parsing of agent bytecode behind the basic part, which the stub does not act on"),
    "P15": ("parsing of c, s, vCont and each of its actions (cmds2); the vCont, c and s handlers: which resume actions are set for which threads, in which order, that resume comes last and exactly once, and the error for what the target cannot do (base_res); bc and bs (misc); Command::from_packet and handle_command: which packets reach these handlers (disp, core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P16": ("finish_exec, write_stop_common: the exact text of the stop reply, the thread selected after it, and the end of the session, for every stop reason; a reason the target does not support is refused (base_stop); report_stop sends exactly that and goes idle or disconnects (sm); the 152 signal constants carry the numbers of gdb (sigs)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P17": ("incoming_data (idle, running), report_stop, interrupt_handled, get_reason, return_to_idle, from_plain_gdbstub, run_state_machine and the conversions between the states: the next state, what is sent and what is still to be reported, for every state and event (sm); run_blocking: the whole session is a chain of such turns, each fed with the byte the connection gave, the event the user's loop saw or the user's answer to an interrupt, and ends with the reason of a disconnected machine or with the error of the turn that failed (rb)", "what a command's handler returns (the handlers' units)"),
    "P18": ("handle_packet: `+` first iff acknowledgements are on, then the handler's packets, then exactly one reply (or none where the protocol has none), and all of it flushed before returning; report_stop (sm); ProtocolFeatures accessors: each flag is its own bit (base_thr); QStartNoAckMode turns acknowledgements off iff the target uses it (misc); handle_command hands each command to its handler, whose contract says what is replied (core)", "the handler of catch syscalls (assumed to keep the frame of a handler); that a tracepoint handler which fails has not yet written anything (assumed by core; false if the target delivers items and then fails: known finding late-tracepoint-error)"),
    "P19": ("parsing of qSupported and its features (cmds2); the reply names each of the 19 optional features iff the target offers it, and the negotiated `multiprocess` is the last the client said (base_sup); a command of a feature the target does not offer is Unknown (disp); handle_command hands each command to its handler, and Unknown gets the empty reply (core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P20": ("handle_packet: a recoverable error becomes exactly `E` and its code and nothing of the reply before it, any other ends the session with that error; incoming_data, report_stop, run_state_machine return it unchanged (sm); handle_error maps each target error; each handler's contract says which error it returns (all handler units); which error the user is told ended the session (sm, accessors of GdbStubError)", "the handlers of catch syscalls and tracepoints"),
    "P21": ("parsing of H, T, D, vKill, vAttach, qAttached, vRun, QEnvironment*, QSetWorkingDir (cmds, cmds2); the H, T, qfThreadInfo, qsThreadInfo handlers and the stop reply of ? and vAttach: which threads the target is asked for, which thread is selected, and the list sent (base_thr); D and qAttached (base_sup); !, R, vAttach, vRun, qC and the environment, working directory, ASLR and shell settings (ext); k and vKill, and which handler a command reaches (core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P22": ("parsing of every vFile request (cmds3); handle_host_io: which of the target's methods is called with which arguments, and the text of the `F` reply, for all eight requests and every result (hio); Command::from_packet and handle_command: which packets reach these handlers (disp, core)", "nothing: all of it is proved, the sessions below re-check it end to end"),
    "P23": ("parsing of QTDP, QTDPsrc, QTFrame, QTBuffer, qTBuffer, qTP (cmds3); the whole handler: what the target is asked for each command, the exact text of each reply (definitions, actions and sources of tracepoints, status and explanations, frames, buffer contents), the enumeration cursor moving as the target says, the target's errors reported (trace)", "the parser of a tracepoint's action list (QTDP with `-`); that fewer than 2^64 items are enumerated and that the target keeps the cursor it is asked to keep are assumed"),
    "P24": ("GdbStubBuilder::build accepts exactly the sizes that fit, the buffer has the configured size, from_plain_gdbstub and run_state_machine keep it, incoming_data never changes the size of a fixed one (sm); a packet that does not fit is refused (recv); PacketSize in the qSupported reply is the length of the buffer the packet came in (base_sup)", "that the parser puts that length into the command"),
    "P25": ("parsing of qRcmd, QCatchSyscalls (cmds2); qOffsets, qThreadExtraInfo and qRcmd: the target is asked once, with what the packet said, and the reply is the text of what it returned; each piece of monitor output is an `O` packet of its own, in order (misc); ConsoleOutput hands over everything said, in order, in pieces which are not empty (cons); qRegisterInfo: the exact text of the description the target or the architecture gives, for every description (lldb)", "the handler of QCatchSyscalls (its chain of iterator adaptors is out of the verifier's reach)"),
    "P26": ("every method of Target, Connection and ConnectionExt for `&mut dyn ..` and `Box<dyn ..>`: the value inside is asked exactly that question, once, and its answer is returned; a method that is not forwarded is checked as what then runs, the trait's default (fwd)", "methods added to the traits later"),
}
for _i in range(1, 27): PLAN.setdefault("P%02d" % _i, ("", "sessions against the executable specification"))
CAUGHT = {}
