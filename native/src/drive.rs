//! Drives the real stub through its public API, one stimulus at a time.
use crate::mock::*;
use crate::model::*;
use gdbstub::common::{Signal, Tid};
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::target::Target;
use gdbstub::stub::state_machine::GdbStubStateMachine as SM;
use gdbstub::stub::{BaseStopReason, DisconnectReason, GdbStubBuilder, GdbStubError, MultiThreadStopReason, SingleThreadStopReason};
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Real { Ok, Err(EC, String), Panic(String) }

pub trait Drv {
    fn step(&mut self, s: &Step) -> Real;
    fn st(&self) -> Option<St>;
    fn be(&self) -> &Rc<RefCell<Backend>>;
    fn pipe(&self) -> &Rc<RefCell<Pipe>>;
}

struct D<T: Target + 'static, C: Connection + 'static> {
    sm: Option<SM<'static, T, C>>,
    t: T,
    be: Rc<RefCell<Backend>>,
    pipe: Rc<RefCell<Pipe>>,
    buf: Option<(*mut u8, usize)>,
    free: Vec<Box<dyn FnOnce()>>,
}
impl<T: Target + 'static, C: Connection + 'static> Drop for D<T, C> {
    fn drop(&mut self) {
        self.sm = None;
        for f in self.free.drain(..) { f() }
        if let Some((p, n)) = self.buf { drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) }) }
    }
}
thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); pub static QUIET: RefCell<bool> = RefCell::new(false); }
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) { PANIC.with(|p| *p.borrow_mut() = i.to_string()) } else { old(i) }
    }));
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
pub fn err_class(e: GdbStubError<MockErr, ConnErr>) -> Real {
    let s = format!("{:?}", e);
    let (t, c) = (e.is_target_error(), e.is_connection_error());
    if t && c { return Real::Err(EC::Other, format!("error is both a target and a connection error: {}", s)) }
    if t {
        return match e.into_target_error() { Some(m) => Real::Err(EC::Target(m.0), s), None => Real::Err(EC::Other, s) };
    }
    if c {
        // what the mock connection fails with names the operation
        return match e.into_connection_error() {
            Some((ConnErr(n), k)) => {
                let want = match n { 4 => "Init", 5 | 6 => "Write", _ => "Read" };
                if format!("{:?}", k) == want { Real::Err(EC::Conn, s) } else { Real::Err(EC::Other, format!("a connection error of the kind {} is reported as {:?}: {}", want, k, s)) }
            }
            None => Real::Err(EC::Other, s),
        };
    }
    Real::Err(EC::Other, s)
}
fn tid(t: usize) -> Tid { Tid::new(t).unwrap() }
pub fn mt<U: UU>(r: &SR) -> MultiThreadStopReason<U> {
    use BaseStopReason as B;
    match r.clone() {
        SR::DoneStep => B::DoneStep, SR::Exited(c) => B::Exited(c), SR::Terminated(c) => B::Terminated(Signal(c)), SR::Signal(c) => B::Signal(Signal(c)),
        SR::SigThread(t, c) => B::SignalWithThread { tid: tid(t), signal: Signal(c) },
        SR::Sw(t) => B::SwBreak(tid(t)), SR::Hw(t) => B::HwBreak(tid(t)),
        SR::Watch(t, kind, a) => B::Watch { tid: tid(t), kind, addr: U::from64(a) },
        SR::Replay(t, b) => B::ReplayLog { tid: t.map(tid), pos: if b { ReplayLogPosition::Begin } else { ReplayLogPosition::End } },
        SR::Catch(t, n, e) => B::CatchSyscall { tid: t.map(tid), number: U::from64(n), position: if e { CatchSyscallPosition::Entry } else { CatchSyscallPosition::Return } },
    }
}
fn stsr<U: UU>(r: &SR) -> SingleThreadStopReason<U> {
    use BaseStopReason as B;
    match r.clone() {
        SR::DoneStep => B::DoneStep, SR::Exited(c) => B::Exited(c), SR::Terminated(c) => B::Terminated(Signal(c)), SR::Signal(c) => B::Signal(Signal(c)),
        SR::SigThread(_, c) => B::SignalWithThread { tid: (), signal: Signal(c) },
        SR::Sw(_) => B::SwBreak(()), SR::Hw(_) => B::HwBreak(()),
        SR::Watch(_, kind, a) => B::Watch { tid: (), kind, addr: U::from64(a) },
        SR::Replay(_, b) => B::ReplayLog { tid: None, pos: if b { ReplayLogPosition::Begin } else { ReplayLogPosition::End } },
        SR::Catch(_, n, e) => B::CatchSyscall { tid: None, number: U::from64(n), position: if e { CatchSyscallPosition::Entry } else { CatchSyscallPosition::Return } },
    }
}

impl<U: UU, T: Target<Error = MockErr> + 'static, C: Connection<Error = ConnErr> + 'static> Drv for D<T, C> where T::Arch: gdbstub::arch::Arch<Usize = U> {
    fn be(&self) -> &Rc<RefCell<Backend>> { &self.be }
    fn pipe(&self) -> &Rc<RefCell<Pipe>> { &self.pipe }
    fn st(&self) -> Option<St> {
        Some(match self.sm.as_ref()? {
            SM::Idle(_) => St::Idle,
            SM::Running(_) => St::Running,
            SM::CtrlCInterrupt(_) => St::CtrlC { from_idle: false },
            SM::Disconnected(d) => St::Disc(match d.get_reason() { DisconnectReason::TargetExited(c) => Dr::Exited(c), DisconnectReason::TargetTerminated(s) => Dr::Terminated(s.0), DisconnectReason::Disconnect => Dr::Disconnect, DisconnectReason::Kill => Dr::Kill }),
        })
    }
    fn step(&mut self, s: &Step) -> Real {
        let sm = self.sm.take().expect("session is over");
        let t = &mut self.t;
        let r = guard(move || match (sm, s) {
            (SM::Idle(m), Step::Byte(b)) => m.incoming_data(t, *b),
            (SM::Running(m), Step::Byte(b)) => m.incoming_data(t, *b),
            (SM::Running(m), Step::Report(r, false)) => m.report_stop(t, mt::<U>(r)),
            (SM::Running(m), Step::Report(r, true)) => m.report_stop(t, stsr::<U>(r)),
            (SM::CtrlCInterrupt(m), Step::Interrupt(None)) => m.interrupt_handled(t, None::<MultiThreadStopReason<U>>),
            (SM::CtrlCInterrupt(m), Step::Interrupt(Some((r, false)))) => m.interrupt_handled(t, Some(mt::<U>(r))),
            (SM::CtrlCInterrupt(m), Step::Interrupt(Some((r, true)))) => m.interrupt_handled(t, Some(stsr::<U>(r))),
            (SM::Disconnected(m), Step::ToIdle) => Ok(m.return_to_idle()),
            _ => panic!("driver: step {:?} in wrong state", s),
        });
        match r {
            Ok(Ok(sm)) => { self.sm = Some(sm); Real::Ok }
            Ok(Err(e)) => err_class(e),
            Err(p) => Real::Panic(p),
        }
    }
}
fn be_pipe(cfg: &Rc<Cfg>, umax: u64) -> (Rc<RefCell<Backend>>, Rc<RefCell<Pipe>>) {
    (Rc::new(RefCell::new(Backend::new(cfg.clone(), umax))), Rc::new(RefCell::new(Pipe { out: vec![], writes: 0, fail_at: cfg.conn_fail_at, failed: false, once: cfg.conn_once, flushes: 0, flushed_at: 0, starts: 0, alls: 0, reads: 0, peeks: 0, start_fail: false })))
}
fn mk2<U: UU, T: Target<Error = MockErr> + 'static, C: Connection<Error = ConnErr> + 'static>(cfg: Rc<Cfg>, be: Rc<RefCell<Backend>>, pipe: Rc<RefCell<Pipe>>, mut t: T, conn: C, free: Vec<Box<dyn FnOnce()>>, x: bool, l: bool) -> Result<(Box<dyn Drv>, Model), String> where T::Arch: gdbstub::arch::Arch<Usize = U> {
    let umax = U::max_value().as64();
    let mut buf = None;
    let b = GdbStubBuilder::new(conn);
    let g = match &cfg.buf {
        BufKind::Default => b.build(),
        BufKind::Owned(n) => b.packet_buffer_size(*n).build(),
        BufKind::Borrowed(n, k) => {
            let bx = vec![0x24u8; *n].into_boxed_slice();
            let p = Box::into_raw(bx);
            buf = Some((p as *mut u8, *n));
            let b = b.with_packet_buffer(unsafe { &mut *p });
            match k { Some(k) => b.packet_buffer_size(*k).build(), None => b.build() }
        }
    };
    let g = match g { Ok(g) => g, Err(e) => return Err(format!("build failed: {:?}", e)) };
    let sm = match g.run_state_machine(&mut t) { Ok(s) => s, Err(e) => return Err(format!("run_state_machine failed: {:?}", e)) };
    if pipe.borrow().starts != 1 { return Err(format!("on_session_start was called {} times", pipe.borrow().starts)) }
    Ok((Box::new(D { sm: Some(sm), t, be, pipe, buf, free }), Model::new(cfg, umax, x, l)))
}
fn mk<U: UU, const X: bool, const L: bool>(cfg: Rc<Cfg>) -> Result<(Box<dyn Drv>, Model), String> {
    let (be, pipe) = be_pipe(&cfg, U::max_value().as64());
    let t: MT<U, X, L> = MT::new(be.clone());
    let c = MConn(pipe.clone());
    mk2::<U, _, _>(cfg, be, pipe, t, c, vec![], X, L)
}
pub type DynT = dyn Target<Arch = MArch<u64, true, true>, Error = MockErr>;
fn leak<X: 'static>(x: X, free: &mut Vec<Box<dyn FnOnce()>>) -> &'static mut X {
    let p = Box::into_raw(Box::new(x));
    free.push(Box::new(move || drop(unsafe { Box::from_raw(p) })));
    unsafe { &mut *p }
}
fn mkdyn(cfg: Rc<Cfg>) -> Result<(Box<dyn Drv>, Model), String> {
    let (be, pipe) = be_pipe(&cfg, u64::MAX);
    let t: MT<u64, true, true> = MT::new(be.clone());
    let c = MConn(pipe.clone());
    let mut free = vec![];
    match cfg.arch {
        5 => { let t: Box<DynT> = Box::new(t); let c: Box<dyn Connection<Error = ConnErr>> = Box::new(c); mk2(cfg, be, pipe, t, c, free, true, true) }
        6 => { let t: &'static mut DynT = leak(t, &mut free); let c: &'static mut dyn Connection<Error = ConnErr> = leak(c, &mut free); mk2(cfg, be, pipe, t, c, free, true, true) }
        7 => { let t: Box<DynT> = Box::new(t); let c: Box<dyn ConnectionExt<Error = ConnErr>> = Box::new(c); mk2(cfg, be, pipe, t, c, free, true, true) }
        _ => { let t: &'static mut DynT = leak(t, &mut free); let c: &'static mut dyn ConnectionExt<Error = ConnErr> = leak(c, &mut free); mk2(cfg, be, pipe, t, c, free, true, true) }
    }
}
pub fn make(cfg: Rc<Cfg>) -> Result<(Box<dyn Drv>, Model), String> {
    match cfg.arch {
        0 => mk::<u64, true, true>(cfg),
        1 => mk::<u64, false, false>(cfg),
        2 => mk::<u32, true, false>(cfg),
        3 => mk::<u16, false, true>(cfg),
        4 => mk::<u8, true, true>(cfg),
        _ => mkdyn(cfg),
    }
}
pub fn umax_of(arch: u8) -> u64 { match arch { 2 => u32::MAX as u64, 3 => 0xffff, 4 => 0xff, _ => u64::MAX } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Panic, Framing, Reply, Calls, State, ErrClass, Flush }
#[derive(Clone, Debug)]
pub struct Fail { pub kind: Kind, pub msg: String }
fn f<X>(kind: Kind, msg: String) -> Result<X, Fail> { Err(Fail { kind, msg }) }

/// strict decoding of everything the stub sent
pub fn tokens(out: &[u8], rle: bool) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < out.len() {
        match out[i] {
            b'+' => { v.push(Tok::Plus); i += 1 }
            b'$' => {
                let j = match out[i + 1..].iter().position(|c| *c == b'#') { Some(j) => i + 1 + j, None => return Err("packet without '#'".into()) };
                if j + 3 > out.len() { return Err("packet without two checksum digits".into()) }
                let raw = &out[i + 1..j];
                let want = raw.iter().fold(0u8, |a, x| a.wrapping_add(*x));
                let ck = &out[j + 1..j + 3];
                let hexd = |c: u8| (c as char).to_digit(16);
                match (hexd(ck[0]), hexd(ck[1])) { (Some(a), Some(b)) if a * 16 + b == want as u32 => {} _ => return Err(format!("checksum is {:?}, body sums to {:02x}", String::from_utf8_lossy(ck), want)) }
                let mut body = vec![];
                let mut k = 0;
                while k < raw.len() {
                    if raw[k] == b'$' { return Err("'$' inside a packet body".into()) }
                    if raw[k] == b'*' {
                        if !rle { return Err("run-length encoding used although it is disabled".into()) }
                        let n = match raw.get(k + 1) { Some(n) => *n, None => return Err("'*' without a repeat count".into()) };
                        if !(32..=126).contains(&n) || matches!(n, b'$' | b'#') { return Err(format!("illegal repeat count byte {:#x}", n)) }
                        let c = match body.last() { Some(c) => *c, None => return Err("run without a character to repeat".into()) };
                        for _ in 0..n - 29 { body.push(c) }
                        k += 2;
                    } else {
                        body.push(raw[k]);
                        k += 1;
                    }
                }
                v.push(Tok::Pkt(body));
                i = j + 3;
            }
            c => return Err(format!("byte {:#x} between packets", c)),
        }
    }
    Ok(v)
}
pub fn show(t: &[Tok]) -> String {
    t.iter().map(|t| match t { Tok::Plus => "+".to_string(), Tok::Pkt(p) => format!("${}#", p.escape_ascii()) }).collect::<Vec<_>>().join(" ")
}
fn win(want: &[u8], got: &[u8]) -> bool {
    let mark = b"m\0WINDOW\0";
    if !want.starts_with(mark) { return want == got }
    let w = &want[mark.len()..];
    // any non-empty prefix of the window
    if got.first() != Some(&b'm') || got.len() < 2 { return false }
    match dbin(&got[1..]) { Some(d) => !d.is_empty() && w.starts_with(&d) && ebin(&d) == got[1..], None => false }
}

pub struct Sess { pub d: Box<dyn Drv>, pub m: Model, pub cfg: Rc<Cfg>, pub over: bool, pub last: Vec<Tok>, pub last_calls: Vec<String>, pub last_err: Option<EC> }
impl Sess {
    pub fn new(cfg: Cfg) -> Result<Sess, Fail> {
        let cfg = Rc::new(cfg);
        match guard(|| make(cfg.clone())) {
            Ok(Ok((d, m))) => Ok(Sess { d, m, cfg, over: false, last: vec![], last_calls: vec![], last_err: None }),
            Ok(Err(e)) => f(Kind::State, e),
            Err(p) => f(Kind::Panic, p),
        }
    }
    /// one stimulus to both sides; compare everything observable
    pub fn step(&mut self, s: &Step) -> Result<(), Fail> {
        { let mut p = self.d.pipe().borrow_mut(); p.out.clear(); p.flushed_at = 0; }
        { let mut b = self.d.be().borrow_mut(); b.log.clear(); b.reads.clear(); b.sized.clear(); }
        self.m.be.log.clear();
        self.m.toks.clear();
        self.last_err = None;
        // the pid is only needed (so may only fail) once it is part of the reply
        let pf = self.m.multip && self.cfg.err_at % 2 == 0;
        self.d.be().borrow_mut().pid_fail = pf;
        self.m.be.pid_fail = pf;
        let r = self.d.step(s);
        if let Real::Panic(p) = r { self.over = true; return f(Kind::Panic, format!("panic: {}", p)) }
        let (out, failed, flushed) = { let p = self.d.pipe().borrow(); (p.out.clone(), p.failed, p.flushed_at) };
        let be = self.d.be().borrow();
        self.m.be.sized.clear();
        self.m.be.replay = Some(be.sized.iter().cloned().collect());
        self.m.reads = be.reads.iter().cloned().collect();
        let want = self.m.step(s);
        self.last_calls = be.log.clone();
        if !matches!(r, Real::Ok) { self.over = true }
        if failed {
            self.over = true;
            return match r { Real::Err(EC::Conn, _) => { self.last_err = Some(EC::Conn); Ok(()) } Real::Err(EC::Target(c), _) if self.cfg.err == TE::Fatal(c) => Ok(()), r => f(Kind::ErrClass, format!("the connection failed, but the step ended in {:?}", r)) };
        }
        let calls = |w: &[String]| if w != &be.log[..] { f(Kind::Calls, format!("target calls\n  expected {:?}\n  got      {:?}", w, be.log)) } else { Ok(()) };
        match (&r, &want) {
            (Real::Ok, Ok(())) => {}
            (Real::Err(a, s), Err(F::Err(b))) => {
                if a != b { return f(Kind::ErrClass, format!("expected error class {:?}, got {:?} ({})", b, a, s)) }
                self.last_err = Some(a.clone());
                return calls(&self.m.be.log);
            }
            (_, Err(F::Contract(c))) => return f(Kind::Calls, c.clone()),
            (Real::Ok, Err(F::Err(b))) => return f(Kind::ErrClass, format!("expected the session to end with an error of class {:?}, but it went on (sent {:?})", b, out.escape_ascii().to_string())),
            (Real::Err(a, s), Ok(())) => return f(Kind::ErrClass, format!("unexpected fatal error {:?} ({})\n  expected reply {} calls {:?}", a, s, show(&self.m.toks), self.m.be.log)),
            (_, Err(F::NonFatal(_))) => return f(Kind::Calls, "model: nonfatal escaped".into()),
            (Real::Panic(_), _) => unreachable!(),
        }
        calls(&self.m.be.log)?;
        if !self.m.reads.is_empty() { return f(Kind::Calls, format!("{} unexpected memory reads", self.m.reads.len())) }
        let toks = match tokens(&out, self.cfg.use_rle) { Ok(t) => t, Err(e) => return f(Kind::Framing, format!("{} in {:?}", e, out.escape_ascii().to_string())) };
        if toks.len() != self.m.toks.len() || !toks.iter().zip(&self.m.toks).all(|(g, w)| match (g, w) { (Tok::Plus, Tok::Plus) => true, (Tok::Pkt(g), Tok::Pkt(w)) => win(w, g), _ => false }) {
            return f(Kind::Reply, format!("reply\n  expected {}\n  got      {}", show(&self.m.toks), show(&toks)));
        }
        if flushed != out.len() { return f(Kind::Flush, format!("{} bytes were written after the last flush", out.len() - flushed)) }
        let st = self.d.st().unwrap();
        let want_st = match &self.m.st { St::CtrlC { .. } => St::CtrlC { from_idle: false }, s => s.clone() };
        if st != want_st { return f(Kind::State, format!("state: expected {:?}, got {:?}", self.m.st, st)) }
        self.last = toks;
        Ok(())
    }
}
