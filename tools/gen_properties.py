#!/usr/bin/env python3
"""Source of properties.jsonl (kept here because JSONL is unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
RW = "src/protocol/response_writer.rs"; CI = "src/stub/core_impl.rs"; BASE = "src/stub/core_impl/base.rs"; RES = "src/stub/core_impl/resume.rs"
SM = "src/stub/state_machine.rs"; CMDS = "src/protocol/commands.rs"

p("P01", "Every packet sent is well framed, checksummed and RLE-decodable",
  "Everything the stub sends is a sequence of '+' acknowledgements and packets `$body#cc` in which cc is the modulo-256 sum of the body bytes as two hex digits and neither '$' nor '#' occurs in the body. With run-length encoding on, decoding the body by the protocol's rule ('*' followed by count+29, a printable byte which is not '$' or '#') gives back exactly the bytes that were to be sent; with it off no encoding is applied.",
  ["inputs", "histories", "configurations"], "for every sequence of bytes written into a reply, split into writes in any way, with RLE on or off",
  "tests/ compare a few replies; run lengths near the special counts (6, 7, 8, 9, 97, 98) and every chunking cannot be sampled exhaustively",
  [RW], [("ResponseWriter::inner_write", RW), ("ResponseWriter::write", RW), ("ResponseWriter::flush", RW)],
  [("rle_char/rle_repeat", "pending run", RW), ("checksum", "running sum of the raw bytes sent", RW)], ["bytes given to Connection::write"])
p("P02", "Reply encoders emit the canonical form of every value",
  "Numbers are sent as minimal-length lowercase big-endian hex ('0' written as 00 or 0, never empty), decimal values without leading zeros, byte buffers as two hex digits per byte, binary data with exactly the bytes '#', '$', '}' and '*' escaped as '}' and byte XOR 0x20, and thread ids in the `p<pid>.<tid>` form exactly when the multiprocess feature is in use. Decoding any of these gives back the value that was written.",
  ["inputs"], "for every value of every integer width, every byte buffer and every thread id",
  "tests print a handful of values; the encoders must be right for all widths and bytes",
  [RW, "src/internal/be_bytes.rs"], [("write_num", RW), ("write_dec", RW), ("write_hex_buf", RW), ("write_binary", RW), ("write_specific_thread_id", RW)], (), ["reply bodies"])
p("P03", "Hex and binary decoders are exact, total and memory safe",
  "Decoding hexadecimal or escaped binary text from a packet gives exactly the value it denotes, for every input; text that is empty, odd, has a non-digit, overflows the target type or ends in a lone escape is rejected and never mis-decoded. In-place decoding never reads or writes outside the given buffer, also in the build that removes bounds checks.",
  ["inputs", "configurations"], "for every byte string, every integer width, and both the safe and the unchecked build",
  "unit tests cover a few strings; overflow edges and every invalid byte position are not sampled",
  ["src/protocol/common/hex.rs"], [("decode_hex", "src/protocol/common/hex.rs"), ("decode_hex_buf", "src/protocol/common/hex.rs"), ("decode_bin_buf", "src/protocol/common/hex.rs"), ("encode_hex_buf", "src/protocol/common/hex.rs")])
p("P04", "Byte-order conversions round-trip for every integer width",
  "Converting an integer to big- or little-endian bytes and back is the identity for every width, independent of how much larger the buffer is. A buffer too small for the value is refused on the way out, and a byte string denoting a value too large for the type is refused on the way in, instead of being truncated.",
  ["inputs"], "for every value of u8..u128, i8..i128, usize, isize and every buffer length",
  "tests check two or three literals for one or two widths",
  ["src/internal/be_bytes.rs", "src/internal/le_bytes.rs"], [("BeBytes::to_be_bytes/from_be_bytes", "src/internal/be_bytes.rs"), ("LeBytes::to_le_bytes/from_le_bytes", "src/internal/le_bytes.rs")])
p("P05", "Packet reception accepts exactly the packets on the wire and never overflows",
  "Fed any byte stream one byte at a time, the receiver ignores bytes up to a '$', collects bytes up to and including '#' and two further bytes, and hands out exactly that packet, then starts over. A packet that does not fit the packet buffer is reported as an overflow error, never written past the buffer, and no byte of one packet leaks into another.",
  ["inputs", "histories", "configurations"], "for every byte stream and every packet buffer capacity including zero",
  "no test drives the receiver across buffer capacities or with interleaved garbage",
  ["src/protocol/recv_packet.rs", "src/util/managed_vec.rs"], [("RecvPacketStateMachine::pump", "src/protocol/recv_packet.rs"), ("ManagedVec::push", "src/util/managed_vec.rs")],
  [("state", "Ready/Body/Checksum1/Checksum2", "src/protocol/recv_packet.rs")])
p("P06", "Only packets with a matching checksum are acted on",
  "A byte string is taken as a command only if it has the shape `$body#hh` with hh the modulo-256 sum of the body; '+', '-' and the interrupt byte 0x03 are recognised as such; everything else is rejected without any effect on the target. The body handed to the command layer is exactly the bytes between '$' and '#'.",
  ["inputs"], "for every byte string delivered as a packet",
  "tests only send valid packets",
  ["src/protocol/packet.rs"], [("Packet::from_buf", "src/protocol/packet.rs"), ("PacketBuf::new", "src/protocol/packet.rs")])
p("P07", "Thread-id syntax is parsed exactly",
  "Thread ids in commands are accepted exactly in the forms `tid` and `p<pid>[.tid]`, with -1 meaning all, 0 meaning any and positive hex numbers meaning that id, and they reach the target as the id that was written. Combinations without meaning and any other text are rejected.",
  ["inputs"], "for every byte string in a thread-id position",
  "no test enumerates malformed ids or the all/any combinations",
  ["src/protocol/common/thread_id.rs"], [("ThreadId::try_from", "src/protocol/common/thread_id.rs"), ("SpecificThreadId::try_from", "src/protocol/common/thread_id.rs"), ("IsValid conversions", "src/protocol/common/thread_id.rs")])
p("P08", "qXfer objects are transferred completely and in order",
  "Reading any qXfer object (features, memory map, auxv, exec file, libraries, thread list) with any sequence of windows returns 'm' plus data that is a non-empty prefix of the object at the requested offset, or exactly 'l' at or past the end, so a client that follows the protocol reassembles exactly the object. The reply is one well-formed packet however the target produces its data and however large the packet buffer is.",
  ["inputs", "histories", "configurations"], "for every object content, offset, length, annex and packet buffer size",
  "tests never fetch an object in several windows",
  ["src/protocol/common/qxfer.rs", "src/stub/core_impl/auxv.rs", "src/stub/core_impl/exec_file.rs", "src/stub/core_impl/libraries.rs", "src/stub/core_impl/memory_map.rs", "src/stub/core_impl/target_xml.rs", BASE],
  [("QXferReadBase", "src/protocol/common/qxfer.rs"), ("handle_* qXfer handlers", "src/stub/core_impl/")])
p("P09", "Commands are decoded exactly and no input makes the stub panic",
  "Every command the stub understands is recognised by its name and its fields are decoded to exactly the values written in the packet; a command that is unknown or whose feature the target does not offer gets the empty reply, and malformed fields never reach the target. No byte sequence sent by the client makes the stub panic, overflow an integer or loop forever.",
  ["inputs", "histories", "configurations"], "for every packet body, target feature set and packet buffer size",
  "tests exercise the parsers of a few commands with well-formed input only",
  [CMDS, "src/protocol/commands/", "src/protocol/common/lists.rs"], [("Command::from_packet", CMDS), ("ParseCommand::from_packet of every command", "src/protocol/commands/"), ("ArgListMut", "src/protocol/common/lists.rs")])
p("P10", "Architecture register blocks serialise in the documented layout and round-trip",
  "For every architecture shipped, the bytes sent for the general register block follow the order and sizes of that architecture's target description, and reading the block back gives the same registers. A block that is too short is rejected and none makes the reader panic.",
  ["inputs"], "for every register content and every byte string given to the reader",
  "no test covers register serialisation",
  ["gdbstub_arch/src/x86/reg/core32.rs", "gdbstub_arch/src/x86/reg/core64.rs", "gdbstub_arch/src/arm/reg/arm_core.rs", "gdbstub_arch/src/aarch64/reg/aarch64_core.rs", "gdbstub_arch/src/mips/reg/mips.rs", "gdbstub_arch/src/msp430/reg/msp430.rs", "gdbstub_arch/src/ppc/reg/common.rs", "gdbstub_arch/src/riscv/reg/riscv.rs"],
  [("Registers::gdb_serialize", "gdbstub_arch/src/*/reg/"), ("Registers::gdb_deserialize", "gdbstub_arch/src/*/reg/")])
p("P11", "Raw register ids name the register and size of the target description",
  "For every architecture shipped and every raw register number, the register id and byte size returned are those of the register with that number in the layout of the general register block and target description; numbers without a register are refused. Breakpoint kinds are likewise accepted exactly for the values the architecture defines.",
  ["inputs"], "for every raw id in the full integer range and every architecture",
  "one unit test compares sizes against the serialised length for some architectures",
  ["gdbstub_arch/src/*/reg/id.rs", "gdbstub_arch/src/arm/mod.rs", "gdbstub_arch/src/mips/mod.rs"], [("RegId::from_raw_id", "gdbstub_arch/src/*/reg/id.rs"), ("BreakpointKind::from_usize", "gdbstub_arch/src/")])
p("P12", "Memory commands read and write exactly the addressed bytes",
  "m returns the bytes of target memory at the requested address, for as many bytes as the target provided and never bytes from elsewhere, and M and X write exactly the bytes in the packet at the requested address. Requests too large for the packet buffer are served in pieces without gaps, overlaps or address wrap-around, and a malformed or inconsistent request does not touch memory.",
  ["inputs", "configurations"], "for every address, length, data, address width, buffer size and target response",
  "tests read a few bytes at one address with a default buffer",
  [BASE, "src/stub/core_impl/x_upcase_packet.rs", "src/protocol/commands/_m.rs", "src/protocol/commands/_m_upcase.rs", "src/protocol/commands/_x_upcase.rs"], [("handle_base: m, M", BASE), ("handle_x_upcase_packet", "src/stub/core_impl/x_upcase_packet.rs")])
p("P13", "Register commands transfer exactly the target's registers",
  "g returns the target's register block in order with unavailable bytes as 'xx', G hands exactly the decoded block to the target, p and P access exactly the named register with exactly the bytes given, all for the thread selected with Hg. A request naming no register of the architecture, or with data that does not decode, leaves the registers untouched.",
  ["inputs", "histories", "configurations"], "for every register content, register number, data, selected thread and buffer size",
  "tests cover neither unavailable bytes, nor oversized registers, nor thread selection",
  [BASE, "src/stub/core_impl/single_register_access.rs"], [("handle_base: g, G", BASE), ("handle_single_register_access", "src/stub/core_impl/single_register_access.rs")])
p("P14", "Breakpoint commands set and clear exactly the requested point",
  "Z and z insert and remove exactly the requested software breakpoint, hardware breakpoint or write/read/access watchpoint with the address, length or kind in the packet, exactly once. The reply is OK if the target did it, an error if it refused, and empty if the target does not offer that kind; conditions and commands lists do not change which point is meant.",
  ["inputs", "configurations"], "for every type digit, address, kind, agent-expression tail, target support and outcome",
  "tests never send Z/z",
  ["src/stub/core_impl/breakpoints.rs", "src/protocol/commands/breakpoint.rs"], [("handle_breakpoints", "src/stub/core_impl/breakpoints.rs"), ("BasicBreakpoint::from_slice", "src/protocol/commands/breakpoint.rs")])
p("P15", "Resume commands apply exactly the requested action to each thread",
  "Every resume request (vCont, c, s and their signal and range forms) results in the target receiving, in order, exactly the action named for each thread and the default action, after clearing earlier actions, and then being resumed once. A request that is malformed or names an unsupported action is refused before the target is resumed.",
  ["inputs", "configurations"], "for every action list, signal, thread id, range and target support",
  "tests never drive multi-action vCont",
  [RES, "src/protocol/commands/_vCont.rs"], [("do_vcont_multi_thread", RES), ("do_vcont_single_thread", RES), ("vCont parsing", "src/protocol/commands/_vCont.rs")])
p("P16", "Stop replies report exactly the stop event",
  "Every stop reason a target reports is turned into exactly one stop-reply packet that carries the event, the signal or exit code, the thread and any address or syscall number of that event. After reporting a thread, register and memory commands address that thread; exits and terminations end the session with that status; an event the target has no support for is an error and not a wrong reply.",
  ["inputs", "histories"], "for every stop reason, thread, address, signal and protocol feature combination",
  "tests report one or two kinds of stop",
  [RES, CI], [("finish_exec", RES), ("report_stop", SM)], [("current_mem_tid/current_resume_tid", "thread addressed next", CI)])
p("P17", "The session state machine follows the protocol under every event order",
  "Whatever order client bytes, interrupts, stop reports and interrupt acknowledgements come in, the session is in exactly the state the protocol prescribes: idle, running, interrupted or disconnected with the true reason. A stop which is reported while an interrupt is pending is delivered once, in order, and never lost or duplicated by the interrupt.",
  ["histories", "schedules"], "for every sequence of bytes, interrupts and stop reports",
  "tests drive no interleavings of ctrl-c with stops",
  [SM, CI], [("GdbStubStateMachineInner transitions", SM), ("GdbStubImpl::handle_packet", CI)], [("state", "Idle/Running/CtrlCInterrupt/Disconnected", SM)])
p("P18", "Each command gets one acknowledgement and one reply, delivered at once",
  "For each well-formed packet the stub sends '+' first, exactly while acknowledgements are on, then exactly one reply packet, except for resume requests, kill and detach forms which by protocol have none or a deferred one. Acknowledgements stop exactly after QStartNoAckMode was accepted, and nothing is left unflushed when the stub waits for the client.",
  ["histories", "configurations"], "for every sequence of commands and ack-mode configuration",
  "tests look at replies of single commands only",
  [CI, SM], [("handle_packet", CI), ("ResponseWriter::flush", RW)], [("no_ack_mode", "acks are off", "ProtocolFeatures in " + CI)])
p("P19", "The advertised features are those the target offers",
  "The qSupported reply advertises the packet size that fits the packet buffer and each optional feature exactly if the target provides the extension and the library configuration allows it. Commands of a feature the target does not provide get the empty reply, and features the client did not announce are not used.",
  ["configurations", "inputs", "histories"], "for every combination of target extensions, options and client announcements",
  "tests use one or two targets with fixed feature sets",
  [BASE, CMDS], [("handle_base: qSupported", BASE), ("feature guards of Command::from_packet", CMDS)])
p("P20", "Errors are mapped and reported exactly",
  "A recoverable error of the target becomes exactly one error reply with the code the target gave (or the documented default), leaving the session usable; a fatal error of the target or the connection ends the session and is returned with its value and its origin. The stub itself never reports one as the other.",
  ["inputs", "histories", "fault_sequences"], "for every operation, error kind, error code and connection failure point",
  "tests inject no errors",
  [CI, "src/stub/error.rs", "src/target/mod.rs"], [("HandlerStatus / handle_packet error mapping", CI), ("TargetResultExt::handle_error", "src/stub/error.rs"), ("GdbStubError accessors", "src/stub/error.rs")])
p("P21", "Thread and process commands act on exactly the named thread or process",
  "Thread selection, liveness, thread listing, current thread, attach, detach, kill, run, restart and environment commands act on exactly the thread, process or values named in the packet and report the target's answer. All threads the target lists are reported exactly once and detach and kill end the session only as the protocol prescribes.",
  ["inputs", "histories", "configurations"], "for every id, thread set, program arguments and session history",
  "tests use one thread",
  [BASE, "src/stub/core_impl/extended_mode.rs"], [("handle_base: H, T, qC, qfThreadInfo, D, vAttach, k", BASE), ("handle_extended_mode", "src/stub/core_impl/extended_mode.rs")])
p("P22", "Host I/O requests pass parameters and data through unchanged",
  "Each vFile request calls the target's operation with exactly the path, flags, mode, descriptor, offset, count and data in the packet and returns exactly the operation's result, data or errno. Reads and links larger than the packet buffer are truncated with the reported length equal to the data sent, and data is escaped so that it arrives unchanged.",
  ["inputs", "configurations"], "for every path, data, flag word, descriptor, count and outcome",
  "tests issue no vFile requests",
  ["src/stub/core_impl/host_io.rs", "src/target/ext/host_io.rs"], [("handle_host_io", "src/stub/core_impl/host_io.rs"), ("FileType/flags conversions", "src/target/ext/host_io.rs")])
p("P23", "Tracepoint commands pass definitions and status through unchanged",
  "Tracepoint definitions, actions, source and state commands reach the target with exactly the values in the packet, and enumerating the defined tracepoints, the trace status, buffers and frames reports exactly what the target provided. Malformed definitions (including overflowing lengths) are refused before they reach the target.",
  ["inputs", "histories", "configurations"], "for every tracepoint definition, action list, status and target answer",
  "tests contain no tracepoint traffic",
  ["src/stub/core_impl/tracepoints.rs", "src/protocol/commands/_QTDP.rs", "src/protocol/commands/_qTStatus.rs"], [("handle_tracepoints", "src/stub/core_impl/tracepoints.rs"), ("QTDP parsing", "src/protocol/commands/_QTDP.rs")])
p("P24", "The packet buffer the user configures is the one used",
  "A stub is built exactly when the requested packet buffer size fits the provided buffer and is otherwise refused with the matching error; the buffer in use has exactly the configured size. No packet longer than it is accepted and the size advertised to the client is that size.",
  ["configurations", "inputs"], "for every combination of provided buffer, requested size and default",
  "tests use the default buffer only",
  ["src/stub/builder.rs", "src/util/managed_vec.rs"], [("GdbStubBuilder::build", "src/stub/builder.rs"), ("ManagedVec", "src/util/managed_vec.rs")])
p("P25", "Query and monitor commands return exactly what the target provides",
  "Section offsets, thread descriptions, monitor command output, syscall catch lists, reverse execution, register information and the other optional queries pass their arguments to the target unchanged and return exactly the target's answer in protocol form. Monitor output of any length and content arrives complete and in order.",
  ["inputs", "configurations"], "for every argument, target answer and output chunking",
  "tests contain one armv4t example and no assertions on these replies",
  ["src/stub/core_impl/section_offsets.rs", "src/stub/core_impl/monitor_cmd.rs", "src/stub/core_impl/catch_syscalls.rs", "src/stub/core_impl/thread_extra_info.rs", "src/stub/core_impl/reverse_exec.rs", "src/stub/core_impl/lldb_register_info.rs", "src/protocol/console_output.rs"], [("handlers", "src/stub/core_impl/"), ("ConsoleOutput", "src/protocol/console_output.rs")])
p("P26", "Boxed and borrowed targets and connections behave like the value itself",
  "Using a target or connection through a boxed or borrowed trait object behaves exactly as using it directly: every operation, extension and option is forwarded and none is silently replaced by its default.",
  ["configurations", "inputs"], "for every extension and option of the target and connection traits",
  "tests use concrete types only, and a forgotten forwarding silently falls back to the default",
  ["src/target/mod.rs", "src/conn/impls/boxed.rs", "src/conn/mod.rs"], [("impl_dyn_target!", "src/target/mod.rs"), ("Connection for Box<dyn Connection>/&mut", "src/conn/impls/")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
if __name__ == "__main__":
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, s)
        for f in x["anchors"]["files"]:
            import glob
            assert glob.glob("/repo/" + f), f
    print(len(P))
