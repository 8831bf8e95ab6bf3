// ---- Z / z packets
//@ item src/protocol/commands/breakpoint.rs BasicBreakpoint
//@ item src/protocol/commands/breakpoint.rs BytecodeList
//@ item src/protocol/commands/breakpoint.rs BytecodeBreakpoint
//@ item src/stub/core_impl/breakpoints.rs CmdKind
//@ item @expanded mod protocol / mod commands / mod ext / Breakpoints
pub open spec fn kind_of(k: Seq<u8>) -> Option<ABreakpointKind> { if be_fits::<usize>(k) { ABreakpointKind::of(beval(k) as usize) } else { None } }
pub open spec fn watch_kind(t: u8) -> WatchKind { if t == 2 { WatchKind::Write } else if t == 3 { WatchKind::Read } else { WatchKind::ReadWrite } }
pub open spec fn bp_reply<C: Connection>(res: Result<bool, TargetError<VxError>>, r: HR<C>) -> bool {
    r == (match res.herr() {
        Ok(true) => HR::<C>::Ok(HandlerStatus::NeedsOk),
        Ok(false) => Err(InternalError::NonFatalError(22)),
        Err(e) => Err(e),
    })
}
// exactly one request reaches the target, the one the packet names
pub open spec fn bp_spec<C: Connection>(s: St, f: St, type_: u8, addr: Seq<u8>, kind: Seq<u8>, add: bool, r: HR<C>) -> bool {
    let mismatch = f == s && r == HR::<C>::Err(InternalError::TargetMismatch);
    if !be_fits::<AUsize>(addr) {
        mismatch
    } else if type_ == 0 && s.has.support_sw_breakpoint {
        if kind_of(kind) is None { mismatch } else if add {
            exists|a: AUsize, k, x| be_num(addr, a) && kind_of(kind) == Some(k) && f == #[trigger] s.did(Ev::SwBreakpoint_add_sw_breakpoint(a, k, x)) && bp_reply::<C>(x, r)
        } else {
            exists|a: AUsize, k, x| be_num(addr, a) && kind_of(kind) == Some(k) && f == #[trigger] s.did(Ev::SwBreakpoint_remove_sw_breakpoint(a, k, x)) && bp_reply::<C>(x, r)
        }
    } else if type_ == 1 && s.has.support_hw_breakpoint {
        if kind_of(kind) is None { mismatch } else if add {
            exists|a: AUsize, k, x| be_num(addr, a) && kind_of(kind) == Some(k) && f == #[trigger] s.did(Ev::HwBreakpoint_add_hw_breakpoint(a, k, x)) && bp_reply::<C>(x, r)
        } else {
            exists|a: AUsize, k, x| be_num(addr, a) && kind_of(kind) == Some(k) && f == #[trigger] s.did(Ev::HwBreakpoint_remove_hw_breakpoint(a, k, x)) && bp_reply::<C>(x, r)
        }
    } else if 2 <= type_ <= 4 && s.has.support_hw_watchpoint {
        if !be_fits::<AUsize>(kind) { mismatch } else if add {
            exists|a: AUsize, l: AUsize, w, x| be_num(addr, a) && w == watch_kind(type_) && be_num(kind, l) && f == #[trigger] s.did(Ev::HwWatchpoint_add_hw_watchpoint(a, l, w, x)) && bp_reply::<C>(x, r)
        } else {
            exists|a: AUsize, l: AUsize, w, x| be_num(addr, a) && w == watch_kind(type_) && be_num(kind, l) && f == #[trigger] s.did(Ev::HwWatchpoint_remove_hw_watchpoint(a, l, w, x)) && bp_reply::<C>(x, r)
        }
    } else {
        // the empty reply: not supported
        f == s && r == HR::<C>::Ok(HandlerStatus::Handled)
    }
}
//@ impl src/stub/core_impl/breakpoints.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_breakpoint_common
//@ ret r
//@ opt and_then
//@ opt guards
//@ opt q
//@ opt drop_use
//@ spec
    ensures *final(self) == *old(self), bp_spec::<C>(old(ops)@, final(ops)@, cmd.type_, cmd.addr@, cmd.kind@, cmd_kind is Add, r),
//@ end
//@ fn handle_breakpoints
//@ ret r
//@ opt q
//@ spec
    ensures *final(self) == *old(self), *final(_res) == *old(_res),
        !old(target)@.has.support_breakpoints ==> final(target)@ == old(target)@ && r == HR::<C>::Ok(HandlerStatus::Handled),
        old(target)@.has.support_breakpoints ==> match command {
            Breakpoints::Z(c) => bp_spec::<C>(old(target)@, final(target)@, c.type_, c.addr@, c.kind@, true, r),
            Breakpoints::z(c) => bp_spec::<C>(old(target)@, final(target)@, c.type_, c.addr@, c.kind@, false, r),
            _ => final(target)@ == old(target)@ && r == HR::<C>::Ok(HandlerStatus::Handled),
        },
//@ end
//@ endimpl
