//! `run_blocking` drives the same machine: replay a recorded session through it.
use crate::drive::*;
use crate::gen;
use crate::mock::*;
use crate::model::*;
use crate::rng::Rng;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::run_blocking::{BlockingEventLoop, Event, WaitForStopReasonError};
use gdbstub::stub::{DisconnectReason, GdbStubBuilder, MultiThreadStopReason};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

type T = MT<u64, true, true>;
thread_local! { static SCRIPT: RefCell<VecDeque<Step>> = RefCell::new(VecDeque::new()); static BAD: RefCell<Option<String>> = RefCell::new(None); }
fn bad(s: String) { BAD.with(|b| { b.borrow_mut().get_or_insert(s); }) }
fn next() -> Option<Step> { SCRIPT.with(|s| s.borrow_mut().pop_front()) }
struct BC(MConn);
impl Connection for BC {
    type Error = ConnErr;
    fn write(&mut self, b: u8) -> Result<(), ConnErr> { self.0.write(b) }
    fn flush(&mut self) -> Result<(), ConnErr> { self.0.flush() }
    fn on_session_start(&mut self) -> Result<(), ConnErr> { self.0.on_session_start() }
}
impl ConnectionExt for BC {
    fn read(&mut self) -> Result<u8, ConnErr> { match next() { Some(Step::Byte(b)) => Ok(b), None => Err(ConnErr(99)), s => { bad(format!("read a byte where the session had {:?}", s)); Err(ConnErr(98)) } } }
    fn peek(&mut self) -> Result<Option<u8>, ConnErr> { Ok(None) }
}
struct E;
impl BlockingEventLoop for E {
    type Target = T;
    type Connection = BC;
    type StopReason = MultiThreadStopReason<u64>;
    fn wait_for_stop_reason(_: &mut T, _: &mut BC) -> Result<Event<Self::StopReason>, WaitForStopReasonError<MockErr, ConnErr>> {
        match next() {
            Some(Step::Byte(b)) => Ok(Event::IncomingData(b)),
            Some(Step::Report(r, _)) => Ok(Event::TargetStopped(mt::<u64>(&r))),
            None => SCRIPT.with(|s| if s.borrow().capacity() % 2 == 0 { Err(WaitForStopReasonError::Connection(ConnErr(99))) } else { Err(WaitForStopReasonError::Target(MockErr(99))) }),
            s => { bad(format!("waited for a stop where the session had {:?}", s)); Err(WaitForStopReasonError::Connection(ConnErr(98))) }
        }
    }
    fn on_interrupt(_: &mut T) -> Result<Option<Self::StopReason>, MockErr> {
        match next() {
            Some(Step::Interrupt(x)) => Ok(x.map(|(r, _)| mt::<u64>(&r))),
            None => Err(MockErr(97)),
            s => { bad(format!("asked for an interrupt where the session had {:?}", s)); Err(MockErr(98)) }
        }
    }
}
pub fn run(r: &mut Rng) -> Result<(u64, Vec<u64>), String> {
    let f = gen::focus("P17");
    let mut c = gen::cfg(r, "P17");
    c.arch = 0;
    let c = Rc::new(c);
    let (mut d, model) = match guard_inner(|| make(c.clone())) { Some(Ok(x)) => x, _ => return Ok((0, vec![])) };
    // the generator only looks at the state
    let mut m = model;
    let mut script: Vec<Step> = vec![];
    let mut end: Option<String> = None;
    'o: for _ in 0..1 + r.n(10) {
        m.st = match d.st() { Some(s) => s, None => break };
        if let St::Disc(_) = m.st { break }
        for s in gen::stimulus(r, &c, &m, &f) {
            let st = d.st().unwrap();
            if matches!((&st, &s), (St::Disc(_) | St::CtrlC { .. }, Step::Byte(_))) { break }
            let s = match s { Step::Report(r, _) => Step::Report(r, false), Step::Interrupt(Some((r, _))) => Step::Interrupt(Some((r, false))), s => s };
            script.push(s.clone());
            match d.step(&s) {
                Real::Ok => {}
                Real::Panic(_) => return Ok((0, vec![])),
                Real::Err(e, _) => { end = Some(format!("error {:?}", e)); break 'o }
            }
        }
    }
    let out1 = d.pipe().borrow().out.clone();
    let log1 = d.be().borrow().log.clone();
    let end1 = match (end, d.st()) {
        (Some(e), _) => e,
        (None, Some(St::Disc(x))) => format!("disconnected {:?}", x),
        (None, Some(St::CtrlC { .. })) => "error Target(97)".to_string(),
        (None, Some(St::Running)) => "error ran out".to_string(),
        (None, _) => "error Conn".to_string(),
    };
    // the same through run_blocking
    let be = Rc::new(RefCell::new(Backend::new(c.clone(), u64::MAX)));
    let pipe = Rc::new(RefCell::new(Pipe { out: vec![], writes: 0, fail_at: c.conn_fail_at, failed: false, once: c.conn_once, flushes: 0, flushed_at: 0, starts: 0, alls: 0, reads: 0, peeks: 0, start_fail: false }));
    let mut t: T = MT::new(be.clone());
    let mut own;
    let b = GdbStubBuilder::<T, BC>::new(BC(MConn(pipe.clone())));
    let g = match &c.buf {
        BufKind::Default => b.build(),
        BufKind::Owned(n) => b.packet_buffer_size(*n).build(),
        BufKind::Borrowed(n, k) => { own = vec![0u8; *n]; let b = b.with_packet_buffer(&mut own); match k { Some(k) => b.packet_buffer_size(*k).build(), None => b.build() } }
    };
    let g = match g { Ok(g) => g, Err(_) => return Ok((0, vec![])) };
    BAD.with(|b| *b.borrow_mut() = None);
    let n = script.len();
    SCRIPT.with(|s| *s.borrow_mut() = script.iter().cloned().collect());
    be.borrow_mut().pid_fail = d.be().borrow().pid_fail;
    let res = g.run_blocking::<E>(&mut t);
    let left = SCRIPT.with(|s| s.borrow().len());
    let show = || script.iter().map(|s| match s { Step::Byte(b) => (*b as char).escape_default().to_string(), s => format!(" {:?} ", s) }).collect::<String>();
    if let Some(b) = BAD.with(|b| b.borrow_mut().take()) { return Err(format!("run_blocking: {} after {} of {} events: {}", b, n - left, n, show())) }
    let end2 = match res {
        Ok(DisconnectReason::TargetExited(c)) => format!("disconnected {:?}", Dr::Exited(c)),
        Ok(DisconnectReason::TargetTerminated(s)) => format!("disconnected {:?}", Dr::Terminated(s.0)),
        Ok(DisconnectReason::Disconnect) => format!("disconnected {:?}", Dr::Disconnect),
        Ok(DisconnectReason::Kill) => format!("disconnected {:?}", Dr::Kill),
        Err(e) => { let x = err_class(e); match x { Real::Err(EC::Target(99), _) => "error ran out".into(), Real::Err(EC::Conn, _) if end1 == "error ran out" => "error ran out".into(), Real::Err(e, _) => format!("error {:?}", e), x => format!("{:?}", x) } }
    };
    let (out2, log2) = (pipe.borrow().out.clone(), be.borrow().log.clone());
    if end1 != end2 || out1 != out2 || log1 != log2 || left != 0 {
        return Err(format!("run_blocking differs from the state machine on the events {}\n  ended: {} / {} ({} events left)\n  sent: {:?} / {:?}\n  calls: {:?} / {:?}", show(), end1, end2, left, out1.escape_ascii().to_string(), out2.escape_ascii().to_string(), log1, log2));
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (format!("{:?}", script), out1).hash(&mut h);
    Ok((1, vec![h.finish()]))
}
fn guard_inner<R>(f: impl FnOnce() -> R) -> Option<R> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
