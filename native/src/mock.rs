//! Mock connection and target: every trait method of every extension forwards
//! to one deterministic `Backend` which logs the call and its arguments.
use gdbstub::arch::{self, Arch};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::conn::Connection;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::section_offsets::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::ext::*;
use gdbstub::target::{Target, TargetError, TargetResult};
use num_traits::{FromPrimitive, PrimInt, ToPrimitive};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::num::NonZeroUsize;
use std::rc::Rc;

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0xD1B54A32D192ED03).rotate_left(17);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x
}
/// deterministic content byte `i` of stream `tag`; contains runs and bytes that
/// need escaping
pub fn content(tag: u64, i: u64) -> u8 {
    let blk = mix(tag, i >> 4);
    if blk % 5 == 0 {
        return [0u8, b'0', b'*', b'}', b'#', b'$', 0x20][(blk >> 8) as usize % 7];
    }
    let h = mix(tag ^ 0x55, i);
    if h % 6 == 0 {
        [b'#', b'$', b'}', b'*', 0, 3, 0x1d][(h >> 9) as usize % 7]
    } else {
        (h >> 13) as u8
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TE {
    NonFatal,
    Errno(u8),
    Io(Option<i32>),
    Fatal(u32),
}
pub type R<X> = Result<X, TE>;

#[derive(Clone, Debug, PartialEq)]
pub struct MockErr(pub u32);
#[derive(Clone, Debug, PartialEq)]
pub struct ConnErr(pub u32);

fn tr<X>(r: R<X>) -> Result<X, TargetError<MockErr>> {
    r.map_err(|e| match e {
        TE::NonFatal => TargetError::NonFatal,
        TE::Errno(c) => TargetError::Errno(c),
        TE::Io(Some(c)) => TargetError::Io(std::io::Error::from_raw_os_error(c)),
        TE::Io(None) => TargetError::Io(std::io::Error::new(std::io::ErrorKind::Other, "x")),
        TE::Fatal(c) => TargetError::Fatal(MockErr(c)),
    })
}
fn pl<X>(r: R<X>) -> Result<X, MockErr> {
    r.map_err(|e| match e {
        TE::Fatal(c) => MockErr(c),
        _ => panic!("harness: plain error must be fatal"),
    })
}
pub fn hio_errno(c: u32) -> HostIoErrno {
    use HostIoErrno::*;
    match c {
        1 => EPERM, 2 => ENOENT, 4 => EINTR, 9 => EBADF, 13 => EACCES, 14 => EFAULT, 16 => EBUSY, 17 => EEXIST,
        19 => ENODEV, 20 => ENOTDIR, 21 => EISDIR, 22 => EINVAL, 23 => ENFILE, 24 => EMFILE, 27 => EFBIG,
        28 => ENOSPC, 29 => ESPIPE, 30 => EROFS, 91 => ENAMETOOLONG, _ => EUNKNOWN,
    }
}
fn hr<X>(r: R<X>, errno: u32) -> Result<X, HostIoError<MockErr>> {
    r.map_err(|e| match e {
        TE::Fatal(c) => HostIoError::Fatal(MockErr(c)),
        _ => HostIoError::Errno(hio_errno(errno)),
    })
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub arch: u8, // 0..ARCHES
    pub multi: bool,
    pub threads: Vec<usize>,
    pub resume: bool, pub step: bool, pub range: bool, pub rcont: bool, pub rstep: bool,
    pub sra: bool,
    pub bp: bool, pub sw: bool, pub hw: bool, pub watch: bool,
    pub ext: bool, pub aslr: bool, pub env: bool, pub shell: bool, pub wd: bool, pub pid: bool,
    pub hio: bool, pub hio_m: u8,
    pub tp: bool, pub tpsrc: bool,
    pub catch: bool, pub mon: bool, pub mon_rle: bool, pub secoff: bool, pub xmlovr: bool, pub lldbovr: bool,
    pub memmap: bool, pub exec: bool, pub auxv: bool, pub libs: bool, pub extra: bool,
    pub use_noack: bool, pub use_x: bool, pub use_stub: bool, pub use_rle: bool, pub use_xml: bool, pub use_lldb: bool,
    // behaviour
    pub err_at: usize, pub err: TE,
    pub hio_errno: u32,
    pub mem_hi: u64, pub read_cap: usize,
    pub lie: bool,
    pub reg_mode: u8,
    pub xfer_len: usize,
    pub args_take: usize,
    pub variant: u64,
    // buffers
    pub buf: BufKind,
    pub conn_fail_at: usize,
    // the connection fails a single time and works again afterwards
    pub conn_once: bool,
    /// report data through the callback and fail afterwards (the recorded P23 finding)
    pub late: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum BufKind {
    Owned(usize),
    Borrowed(usize, Option<usize>),
    Default,
}

#[derive(Clone, Debug)]
pub struct ReadRec { pub addr: u64, pub len: usize, pub tid: Option<usize>, pub res: R<usize> }
#[derive(Clone, Debug)]
pub struct SizedRec { pub tag: String, pub len: usize, pub n: usize }

pub enum MonOp { W(Vec<u8>), F }
#[derive(Clone, Debug, PartialEq)]
pub enum Expl { Frames(usize), Created(usize), Size(usize), Free(usize), Circular(bool), Disc(bool), Other(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum Stat { Running, NotRunning, NotRun, Stop(Option<Vec<u8>>), Full, Disc, Pass(usize), Err(Vec<u8>, usize), Unknown }
#[derive(Clone, Debug, PartialEq)]
pub enum FDesc { Num(u64), Hit(usize) }
#[derive(Clone, Debug, PartialEq)]
pub enum TStep { Action, Source, Next(usize, u64), Done }
#[derive(Clone, Debug, PartialEq)]
pub enum Act { Regs(Vec<u8>), Mem(Option<u64>, u64, u64), Expr(Vec<u8>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Offs { Sec(u64, u64, Option<u64>), Seg(u64, Option<u64>) }

#[derive(Clone, Debug)]
pub struct LReg {
    pub name: String, pub alt: Option<String>, pub bitsize: usize, pub offset: usize, pub enc: u8, pub fmt: u8,
    pub set: String, pub gcc: Option<usize>, pub dwarf: Option<usize>, pub gen: Option<u8>,
    pub cont: Option<Vec<usize>>, pub inv: Option<Vec<usize>>,
}

pub struct Backend {
    pub cfg: Rc<Cfg>,
    pub umax: u64,
    pub log: Vec<String>,
    pub n: usize,
    pub pid_fail: bool,
    pub reads: Vec<ReadRec>,
    pub sized: Vec<SizedRec>,
    /// Some: model side, sized results are taken from here
    pub replay: Option<VecDeque<SizedRec>>,
}

impl Backend {
    pub fn new(cfg: Rc<Cfg>, umax: u64) -> Self {
        Backend { cfg, umax, log: vec![], n: 0, pid_fail: false, reads: vec![], sized: vec![], replay: None }
    }
    fn fail(&mut self, plain: bool) -> R<()> {
        let i = self.n;
        self.n += 1;
        if i == self.cfg.err_at {
            match (&self.cfg.err, plain) {
                (TE::Fatal(_), _) | (_, false) => return Err(self.cfg.err.clone()),
                _ => {}
            }
        }
        Ok(())
    }
    fn l(&mut self, s: String) { self.log.push(s) }
    fn h(&self, a: u64) -> u64 { mix(self.cfg.seed ^ 0xabcd, a ^ self.cfg.variant) }
    /// interesting value up to umax
    fn val(&self, a: u64) -> u64 {
        let h = self.h(a);
        (match h % 6 { 0 => 0, 1 => 1, 2 => h >> 56, 3 => u64::MAX, 4 => h >> 40, _ => h }) & self.umax
    }
    pub fn reg_bytes(&self, tid: Option<usize>) -> Vec<u8> {
        (0..12).map(|i| content(self.cfg.seed ^ tid.unwrap_or(0) as u64 ^ 99, i)).collect()
    }
    pub fn read_registers(&mut self, tid: Option<usize>) -> R<Vec<u8>> {
        self.l(format!("read_registers({:?})", tid));
        self.fail(false)?;
        Ok(self.reg_bytes(tid))
    }
    pub fn write_registers(&mut self, tid: Option<usize>, b: &[u8]) -> R<()> {
        self.l(format!("write_registers({:?},{})", tid, hx(b)));
        self.fail(false)
    }
    pub fn sized_content(&self, tag: &str, off: u64, n: usize) -> Vec<u8> {
        let t = tag.bytes().fold(self.cfg.seed, |a, b| mix(a, b as u64));
        (0..n as u64).map(|i| content(t, off.wrapping_add(i))).collect()
    }
    /// generic "fill a buffer" call. Returns (n, data) where data is the first
    /// min(n, buflen) bytes put in the buffer.
    fn sized(&mut self, tag: &str, off: u64, want: usize, plain: bool, buf: Option<&mut [u8]>) -> R<(usize, Vec<u8>)> {
        self.fail(plain)?;
        match (self.replay.as_mut(), buf) {
            (None, Some(buf)) => {
                let mut n = want.min(buf.len());
                if self.cfg.lie { n = buf.len() + 1 + (self.h(n as u64) % 3) as usize; if self.h(8) % 4 == 0 { n = usize::MAX } }
                let k = n.min(buf.len());
                let d = self.sized_content(tag, off, k);
                buf[..k].copy_from_slice(&d);
                self.sized.push(SizedRec { tag: tag.into(), len: buf.len(), n });
                Ok((n, d))
            }
            (Some(rp), _) => {
                let r = rp.pop_front().unwrap_or(SizedRec { tag: "missing".into(), len: 0, n: 0 });
                self.sized.push(r.clone());
                let d = self.sized_content(tag, off, r.n.min(r.len));
                Ok((r.n, d))
            }
            _ => unreachable!(),
        }
    }
    fn avail(&self, off: u64, length: usize) -> usize {
        let total = self.cfg.xfer_len as u64;
        (total.saturating_sub(off)).min(length as u64) as usize
    }
    pub fn read_register(&mut self, tid: Option<usize>, reg: usize, fixed: bool, buf: Option<&mut [u8]>) -> R<(usize, Vec<u8>)> {
        self.l(format!("read_register({:?},{})", tid, reg));
        let bl = buf.as_ref().map(|b| b.len()).unwrap_or(0);
        let want = match self.cfg.reg_mode { 1 => 0, 2 => bl.saturating_sub(1), _ => if fixed { bl } else { 5 } };
        let lie = self.cfg.lie;
        let c2 = if self.cfg.reg_mode == 3 && !lie { let mut c = (*self.cfg).clone(); c.lie = true; Some(Rc::new(c)) } else { None };
        let old = self.cfg.clone();
        if let Some(c) = c2 { self.cfg = c }
        let tag = format!("reg{}-{:?}", reg, tid);
        let r = self.sized(&tag, 0, want, false, buf);
        self.cfg = old;
        r
    }
    pub fn write_register(&mut self, tid: Option<usize>, reg: usize, val: &[u8]) -> R<()> {
        self.l(format!("write_register({:?},{},{})", tid, reg, hx(val)));
        self.fail(false)
    }
    pub fn mem(&self, a: u64) -> u8 { content(self.cfg.seed ^ 7, a) }
    fn read_log(&mut self, addr: u64, tid: Option<usize>, len: usize) { self.l(format!("read_addrs({:x},{:?},{})", addr, tid, len)) }
    pub fn read_addrs(&mut self, addr: u64, tid: Option<usize>, buf: &mut [u8]) -> R<usize> {
        self.read_log(addr, tid, buf.len());
        let res = self.fail(false).map(|_| {
            let mut n = buf.len();
            if self.cfg.read_cap > 0 && self.h(addr ^ self.n as u64) % 3 == 0 { n = n.min(self.cfg.read_cap) }
            n = n.min((self.cfg.mem_hi as u128 + 1).saturating_sub(addr as u128).min(1 << 40) as usize);
            for i in 0..n { buf[i] = self.mem(addr.wrapping_add(i as u64) & self.umax) }
            if self.cfg.lie { n = buf.len() + 1 }
            n
        });
        self.reads.push(ReadRec { addr, len: buf.len(), tid, res: res.clone() });
        res
    }
    pub fn model_read(&mut self, r: &ReadRec) { self.n += 1; self.read_log(r.addr, r.tid, r.len); }
    pub fn write_addrs(&mut self, addr: u64, tid: Option<usize>, d: &[u8]) -> R<()> {
        self.l(format!("write_addrs({:x},{:?},{})", addr, tid, hx(d)));
        self.fail(false)
    }
    /// (threads emitted, result)
    pub fn list_threads(&mut self) -> (Vec<usize>, R<()>) {
        self.l("list_active_threads".into());
        let r = self.fail(true);
        (self.cfg.threads.clone(), r)
    }
    pub fn alive(&mut self, tid: usize) -> R<bool> {
        self.l(format!("is_thread_alive({})", tid));
        self.fail(true)?;
        Ok(self.cfg.threads.contains(&tid))
    }
    pub fn plain(&mut self, s: String) -> R<()> { self.l(s); self.fail(true) }
    pub fn tres(&mut self, s: String) -> R<()> { self.l(s); self.fail(false) }
    pub fn bp(&mut self, add: bool, hw: bool, addr: u64, kind: usize) -> R<bool> {
        self.l(format!("{}_{}_breakpoint({:x},{})", if add { "add" } else { "remove" }, if hw { "hw" } else { "sw" }, addr, kind));
        self.fail(false)?;
        Ok(self.h(addr ^ kind as u64) % 4 != 0)
    }
    pub fn wp(&mut self, add: bool, addr: u64, len: u64, kind: WatchKind) -> R<bool> {
        self.l(format!("{}_hw_watchpoint({:x},{:x},{:?})", if add { "add" } else { "remove" }, addr, len, kind));
        self.fail(false)?;
        Ok(self.h(addr ^ len) % 4 != 0)
    }
    pub fn run(&mut self, f: Option<&[u8]>, args: &[Vec<u8>]) -> R<usize> {
        self.l(format!("run({:?},{:?})", f.map(hx), args.iter().map(|a| hx(a)).collect::<Vec<_>>()));
        self.fail(false)?;
        Ok(1 + (self.h(5) % 1000) as usize)
    }
    pub fn query_attached(&mut self, pid: usize) -> R<bool> {
        self.l(format!("query_if_attached({})", pid));
        self.fail(false)?;
        Ok(self.h(pid as u64) % 2 == 0)
    }
    pub fn kill(&mut self, pid: Option<usize>) -> R<bool> {
        self.l(format!("kill({:?})", pid));
        self.fail(false)?;
        Ok(self.h(11) % 2 == 0)
    }
    /// a pure query: not logged; fails only when the driver says so
    pub fn cur_pid(&mut self) -> R<usize> {
        if self.pid_fail { if let TE::Fatal(_) = self.cfg.err { return Err(self.cfg.err.clone()) } }
        Ok(1 + (self.h(17) % 70000) as usize)
    }
    pub fn open(&mut self, f: &[u8], flags: u32, mode: u32) -> R<u32> {
        self.l(format!("open({},{:x},{:x})", hx(f), flags, mode));
        self.fail(false)?;
        Ok(self.val(21) as u32)
    }
    pub fn pread(&mut self, fd: u32, count: usize, off: u64, buf: Option<&mut [u8]>) -> R<(usize, Vec<u8>)> {
        self.l(format!("pread({:x},{:x},{:x})", fd, count, off));
        let w = self.avail(off, count);
        self.sized(&format!("fd{}", fd), off, w, false, buf)
    }
    pub fn pwrite(&mut self, fd: u32, off: u64, d: &[u8]) -> R<u64> {
        self.l(format!("pwrite({:x},{:x},{})", fd, off, hx(d)));
        self.fail(false)?;
        Ok(d.len() as u64 & self.umax)
    }
    pub fn fstat(&mut self, fd: u32) -> R<Vec<u64>> {
        self.l(format!("fstat({:x})", fd));
        self.fail(false)?;
        Ok((0..13).map(|i| { let v = self.h(fd as u64 * 64 + i + 1000); if v % 3 == 0 { v >> 50 } else { v } }).collect())
    }
    pub fn readlink(&mut self, f: &[u8], buf: Option<&mut [u8]>) -> R<(usize, Vec<u8>)> {
        self.l(format!("readlink({})", hx(f)));
        let w = self.cfg.xfer_len;
        self.sized(&format!("rl{}", hx(f)), 0, w, false, buf)
    }
    pub fn xfer(&mut self, what: &str, off: u64, length: usize, buf: Option<&mut [u8]>) -> R<(usize, Vec<u8>)> {
        self.l(format!("{}({:x},{:x})", what, off, length));
        let w = self.avail(off, length);
        self.sized(what, off, w, false, buf)
    }
    pub fn thread_extra(&mut self, tid: usize, buf: Option<&mut [u8]>) -> R<(usize, Vec<u8>)> {
        self.l(format!("thread_extra_info({})", tid));
        let w = self.cfg.xfer_len;
        self.sized(&format!("tei{}", tid), 0, w, true, buf)
    }
    pub fn catch_enable(&mut self, f: Option<&[u64]>) -> R<()> {
        self.l(format!("enable_catch_syscalls({:x?})", f));
        self.fail(false)
    }
    pub fn mon_script(&self, cmd: &[u8]) -> Vec<MonOp> {
        let h = self.h(cmd.len() as u64 + 31);
        (0..h % 6).map(|i| { let v = self.h(i + 700); match v % 4 { 0 => MonOp::F, 1 => MonOp::W(vec![]), _ => MonOp::W((0..(v >> 8) % 40).map(|j| content(v, j)).collect()) } }).collect()
    }
    pub fn offsets(&mut self) -> R<Offs> {
        self.plain("get_section_offsets".into())?;
        let (a, b, c) = (self.val(41), self.val(42), self.val(43));
        Ok(match self.h(40) % 4 { 0 => Offs::Sec(a, b, None), 1 => Offs::Sec(a, b, Some(c)), 2 => Offs::Seg(a, None), _ => Offs::Seg(a, Some(b)) })
    }
    pub fn lldb_content(seed: u64, id: usize) -> Option<LReg> {
        let h = |a: u64| mix(seed ^ (id as u64).wrapping_mul(131), a);
        if h(0) % 5 == 0 { return None }
        let lst = |a: u64| -> Option<Vec<usize>> { if h(a) % 2 == 0 { None } else { Some((0..h(a + 1) % 4).map(|i| (h(a + 2 + i) % 300) as usize).collect()) } };
        let o = |a: u64| if h(a) % 2 == 0 { None } else { Some(match h(a + 1) % 4 { 0 => 0, 1 => 9, 2 => 10, _ => (h(a + 1) % 100000) as usize }) };
        Some(LReg {
            name: format!("r{}", id % 1000), alt: if h(1) % 2 == 0 { None } else { Some("alt".into()) },
            bitsize: [0, 8, 10, 64, 100, 512, 4096][h(2) as usize % 7], offset: [0, 1, 9, 10, 99, 100, usize::MAX, 1234567][h(3) as usize % 8],
            enc: (h(4) % 4) as u8, fmt: (h(5) % 12) as u8, set: "General Purpose".into(),
            gcc: o(6), dwarf: o(8), gen: if h(10) % 2 == 0 { None } else { Some((h(11) % 13) as u8) }, cont: lst(20), inv: lst(30),
        })
    }
    // tracepoints
    pub fn tp_status(&mut self, tp: usize, addr: u64) -> R<(u64, u64)> {
        self.l(format!("tracepoint_status({},{:x})", tp, addr));
        self.fail(false)?;
        Ok((self.h(tp as u64) >> (tp % 60), self.h(addr) >> 30))
    }
    pub fn tp_new(&self, tp: usize) -> (usize, u64, bool, u64, u64) {
        let h = |a| self.h(tp as u64 * 16 + a + 5000);
        (tp, self.val(tp as u64 + 6000), h(1) % 2 == 0, h(2) >> (h(4) % 64), h(3) >> (h(5) % 64))
    }
    fn tp_next(&self, k: u64) -> TStep {
        match self.h(k + 9000) % 5 { 0 | 1 => TStep::Action, 2 => TStep::Source, 3 => TStep::Next((self.h(k) % 5) as usize, self.val(k)), _ => TStep::Done }
    }
    /// emitted description (if any), then result
    pub fn tp_enum_start(&mut self, tp: Option<usize>) -> (Option<(usize, u64, bool, u64, u64)>, R<TStep>) {
        self.l(format!("tracepoint_enumerate_start({:?})", tp));
        let e = if tp.is_none() && self.h(77) % 4 == 0 { None } else { Some(self.tp_new(tp.unwrap_or(1))) };
        let r = self.fail(false).map(|_| self.tp_next(self.n as u64));
        // an error is reported before anything is emitted (see KNOWN-FINDINGS P23)
        if r.is_err() && !self.cfg.late { return (None, r) }
        (e, r)
    }
    pub fn tp_enum_action(&mut self, tp: usize, step: u64) -> (Option<Act>, R<TStep>) {
        self.l(format!("tracepoint_enumerate_action({},{})", tp, step));
        let h = self.h(tp as u64 * 31 + step + 800);
        let bytes = |k: u64| (0..k).map(|j| content(h, j)).collect::<Vec<u8>>();
        let a = match h % 5 { 0 => Act::Regs(bytes(h >> 8 & 7)), 1 => Act::Mem(None, self.val(h), h >> 40), 2 => Act::Mem(Some(h >> 50), self.val(h), h >> 60), 3 => Act::Expr(bytes(h >> 8 & 31)), _ => Act::Expr(vec![]) };
        let r = self.fail(false).map(|_| self.tp_next(self.n as u64 + 3));
        if r.is_err() && !self.cfg.late { return (None, r) }
        (Some(a), r)
    }
    pub fn tp_enum_source(&mut self, tp: usize, step: u64) -> (Option<(usize, u64, u8, u32, u32, Vec<u8>)>, R<TStep>) {
        self.l(format!("tracepoint_enumerate_source({},{})", tp, step));
        let h = self.h(tp as u64 * 37 + step + 8800);
        let s = (tp, self.val(h), (h % 3) as u8, (h >> 30) as u32, (h >> 50) as u32, (0..h >> 8 & 15).map(|j| content(h, j)).collect());
        let r = self.fail(false).map(|_| self.tp_next(self.n as u64 + 5));
        if r.is_err() && !self.cfg.late { return (None, r) }
        (Some(s), r)
    }
    pub fn trace_buf(&mut self, off: u64, len: usize) -> (Vec<Vec<u8>>, R<()>) {
        self.l(format!("trace_buffer_request({:x},{:x})", off, len));
        let k = self.h(off ^ len as u64) % 3;
        let d = (0..k).map(|i| (0..self.h(off.wrapping_add(i)) % 9).map(|j| content(off, j)).collect()).collect();
        let r = self.fail(false);
        if r.is_err() && !self.cfg.late { return (vec![], r) }
        (d, r)
    }
    pub fn exp_status(&mut self) -> (Vec<Stat>, R<()>) {
        self.l("trace_experiment_status".into());
        let k = [0, 1, 1, 1, 2][self.h(61) as usize % 5];
        let r = self.fail(false);
        if r.is_err() && !self.cfg.late { return (vec![], r) }
        ((0..k).map(|i| { let h = self.h(62 + i); let t: Vec<u8> = (0..h >> 8 & 7).map(|j| content(h, j)).collect(); match h % 10 { 0 => Stat::Running, 1 => Stat::NotRunning, 2 => Stat::NotRun, 3 => Stat::Stop(None), 4 => Stat::Stop(Some(t)), 5 => Stat::Full, 6 => Stat::Disc, 7 => Stat::Pass((h >> 20) as usize), 8 => Stat::Err(t, (h >> 55) as usize), _ => Stat::Unknown } }).collect(), r)
    }
    pub fn exp_info(&mut self) -> (Vec<Expl>, R<()>) {
        self.l("trace_experiment_info".into());
        // never fails: an error after the status was written is the listed finding
        self.n += 1;
        let k = self.h(63) % 5;
        let r = if self.cfg.late { self.n -= 1; self.fail(false) } else { Ok(()) };
        ((0..k).map(|i| { let h = self.h(64 + i * 7); let v = (h >> (8 + h % 56)) as usize; match h >> 3 & 7 { 0 => Expl::Frames(v), 1 => Expl::Created(v), 2 => Expl::Size(v), 3 => Expl::Free(v), 4 => Expl::Circular(v % 2 == 0), 5 => Expl::Disc(v % 2 == 0), _ => Expl::Other(format!("k{}:v", v % 9)) } }).collect(), r)
    }
    pub fn frame(&mut self, req: String) -> (Vec<FDesc>, R<()>) {
        self.l(format!("select_frame({})", req));
        let r = self.fail(false);
        if r.is_err() && !self.cfg.late { return (vec![], r) }
        let k = self.h(req.len() as u64 + 66);
        (match k % 5 { 0 => vec![], 1 => vec![FDesc::Num(k >> 5)], 2 | 3 => vec![FDesc::Num(k >> 50), FDesc::Hit((k >> 20) as usize)], _ => vec![FDesc::Num(0), FDesc::Hit(1), FDesc::Hit(2)] }, r)
    }
}

// ---------------------------------------------------------------- connection
pub struct Pipe { pub out: Vec<u8>, pub writes: usize, pub fail_at: usize, pub failed: bool, pub once: bool, pub flushes: usize, pub flushed_at: usize, pub starts: usize, pub alls: usize, pub reads: usize, pub peeks: usize, pub start_fail: bool }
#[derive(Clone)]
pub struct MConn(pub Rc<RefCell<Pipe>>);
impl Connection for MConn {
    type Error = ConnErr;
    fn write(&mut self, b: u8) -> Result<(), ConnErr> {
        let mut p = self.0.borrow_mut();
        if p.writes >= p.fail_at && !(p.once && p.failed) { p.failed = true; return Err(ConnErr(5)) }
        if p.out.len() > 1 << 26 { panic!("runaway output") }
        p.writes += 1;
        p.out.push(b);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), ConnErr> {
        let mut p = self.0.borrow_mut();
        if p.writes >= p.fail_at && !(p.once && p.failed) { p.failed = true; return Err(ConnErr(6)) }
        p.flushes += 1;
        p.flushed_at = p.out.len();
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<(), ConnErr> {
        self.0.borrow_mut().alls += 1;
        for b in buf { self.write(*b)? }
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), ConnErr> { let mut p = self.0.borrow_mut(); p.starts += 1; if p.start_fail { Err(ConnErr(4)) } else { Ok(()) } }
}
impl gdbstub::conn::ConnectionExt for MConn {
    fn read(&mut self) -> Result<u8, ConnErr> { self.0.borrow_mut().reads += 1; Ok(0x5a) }
    fn peek(&mut self) -> Result<Option<u8>, ConnErr> { self.0.borrow_mut().peeks += 1; Ok(Some(0xa5)) }
}

// ---------------------------------------------------------------- arch
pub const XML: &str = "\n  <target version=\"1.0\">#$}*0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000<architecture>mock</architecture></target>  \n";
pub trait UU: gdbstub::internal::BeBytes + gdbstub::internal::LeBytes + PrimInt + num_traits::Unsigned + FromPrimitive + std::fmt::Debug + Default + 'static {
    fn as64(self) -> u64 { ToPrimitive::to_u64(&self).unwrap() }
    fn from64(x: u64) -> Self { <Self as FromPrimitive>::from_u64(x).unwrap() }
}
impl UU for u8 {} impl UU for u16 {} impl UU for u32 {} impl UU for u64 {}

pub struct MArch<U, const X: bool, const L: bool>(PhantomData<U>);
#[derive(Debug, Clone, PartialEq)]
pub struct MRegs<U> { pub b: [u8; 12], pc: U }
impl<U: UU> Default for MRegs<U> { fn default() -> Self { MRegs { b: [0xEE; 12], pc: U::from64(0) } } }
pub const NONE_POS: [usize; 3] = [3, 7, 8];
impl<U: UU> arch::Registers for MRegs<U> {
    type ProgramCounter = U;
    fn pc(&self) -> U { self.pc }
    fn gdb_serialize(&self, mut w: impl FnMut(Option<u8>)) {
        for i in 0..12 { w(if NONE_POS.contains(&i) { None } else { Some(self.b[i]) }) }
    }
    fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
        if bytes.len() != 12 { return Err(()) }
        self.b.copy_from_slice(bytes);
        Ok(())
    }
}
#[derive(Debug)]
pub struct MReg(pub usize);
pub fn reg_info(id: usize) -> Option<Option<usize>> {
    match id { 0..=3 => Some(Some(4)), 4 => Some(Some(8)), 5 | 6 => Some(None), 7 => Some(Some(600)), 8 => Some(Some(1)), 0x1f => Some(Some(10)), _ => None }
}
impl arch::RegId for MReg {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        reg_info(id).map(|s| (MReg(id), s.map(|s| NonZeroUsize::new(s).unwrap())))
    }
}
#[derive(Debug)]
pub struct MBk(pub usize);
pub fn bk_ok(k: usize) -> bool { k < 5 || k == 0x100 }
impl arch::BreakpointKind for MBk {
    fn from_usize(k: usize) -> Option<Self> { if bk_ok(k) { Some(MBk(k)) } else { None } }
}
static CREGS: [usize; 2] = [3, 17];
pub fn arch_lldb(id: usize) -> Option<Option<LReg>> {
    match id { 0 => Some(Some(LReg { name: "rax".into(), alt: Some("ax".into()), bitsize: 64, offset: 0, enc: 0, fmt: 2, set: "GPR".into(), gcc: Some(0), dwarf: Some(12), gen: Some(0), cont: Some(CREGS.to_vec()), inv: None })),
        1 => Some(Some(LReg { name: "xmm0".into(), alt: None, bitsize: 128, offset: 8, enc: 3, fmt: 5, set: "FPR".into(), gcc: None, dwarf: None, gen: None, cont: None, inv: Some(vec![3, 17]) })),
        2 => None, _ => Some(None) }
}
pub fn enc_of(e: u8) -> (arch::lldb::Encoding, &'static str) {
    use arch::lldb::Encoding::*;
    match e { 0 => (Uint, "uint"), 1 => (Sint, "sint"), 2 => (IEEE754, "ieee754"), _ => (Vector, "vector") }
}
pub fn fmt_of(e: u8) -> (arch::lldb::Format, &'static str) {
    use arch::lldb::Format::*;
    match e { 0 => (Binary, "binary"), 1 => (Decimal, "decimal"), 2 => (Hex, "hex"), 3 => (Float, "float"), 4 => (VectorSInt8, "vector-sint8"), 5 => (VectorUInt8, "vector-uint8"), 6 => (VectorSInt16, "vector-sint16"), 7 => (VectorUInt16, "vector-uint16"), 8 => (VectorSInt32, "vector-sint32"), 9 => (VectorUInt32, "vector-uint32"), 10 => (VectorFloat32, "vector-float32"), _ => (VectorUInt128, "vector-uint128") }
}
pub fn gen_of(e: u8) -> (arch::lldb::Generic, &'static str) {
    use arch::lldb::Generic::*;
    match e { 0 => (Pc, "pc"), 1 => (Sp, "sp"), 2 => (Fp, "fp"), 3 => (Ra, "ra"), 4 => (Flags, "flags"), 5 => (Arg1, "arg1"), 6 => (Arg2, "arg2"), 7 => (Arg3, "arg3"), 8 => (Arg4, "arg4"), 9 => (Arg5, "arg5"), 10 => (Arg6, "arg6"), 11 => (Arg7, "arg7"), _ => (Arg8, "arg8") }
}
impl<U: UU, const X: bool, const L: bool> Arch for MArch<U, X, L> {
    type Usize = U;
    type Registers = MRegs<U>;
    type BreakpointKind = MBk;
    type RegId = MReg;
    fn target_description_xml() -> Option<&'static str> { if X { Some(XML) } else { None } }
    fn lldb_register_info(id: usize) -> Option<arch::lldb::RegisterInfo<'static>> {
        use arch::lldb::*;
        if !L { return None }
        match id {
            0 => Some(RegisterInfo::Register(Register { name: "rax", alt_name: Some("ax"), bitsize: 64, offset: 0, encoding: Encoding::Uint, format: Format::Hex, set: "GPR", gcc: Some(0), dwarf: Some(12), generic: Some(Generic::Pc), container_regs: Some(&CREGS), invalidate_regs: None })),
            1 => Some(RegisterInfo::Register(Register { name: "xmm0", alt_name: None, bitsize: 128, offset: 8, encoding: Encoding::Vector, format: Format::VectorUInt8, set: "FPR", gcc: None, dwarf: None, generic: None, container_regs: Some(&[]), invalidate_regs: Some(&CREGS) })),
            2 => None,
            _ => Some(RegisterInfo::Done),
        }
    }
}

// ---------------------------------------------------------------- target
pub struct MT<U: UU, const X: bool, const L: bool> {
    pub be: Rc<RefCell<Backend>>,
    pub st: TracepointEnumerateState<U>,
}
impl<U: UU, const X: bool, const L: bool> MT<U, X, L> {
    pub fn new(be: Rc<RefCell<Backend>>) -> Self { MT { be, st: TracepointEnumerateState::default() } }
    fn c(&self) -> Rc<Cfg> { self.be.borrow().cfg.clone() }
    fn b(&self) -> std::cell::RefMut<'_, Backend> { self.be.borrow_mut() }
    fn e(&self) -> u32 { self.be.borrow().cfg.hio_errno }
}
macro_rules! on { ($s:ident, $($f:ident)&&+) => { if $($s.c().$f)&&+ { Some($s) } else { None } } }
macro_rules! im { ($tr:path { $($body:tt)* }) => { impl<U: UU, const X: bool, const L: bool> $tr for MT<U, X, L> { $($body)* } } }

impl<U: UU, const X: bool, const L: bool> Target for MT<U, X, L> {
    type Arch = MArch<U, X, L>;
    type Error = MockErr;
    fn base_ops(&mut self) -> BaseOps<'_, Self::Arch, MockErr> { if self.c().multi { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { true }
    fn use_no_ack_mode(&self) -> bool { self.c().use_noack }
    fn use_x_upcase_packet(&self) -> bool { self.c().use_x }
    fn use_resume_stub(&self) -> bool { self.c().use_stub }
    fn use_rle(&self) -> bool { self.c().use_rle }
    fn use_target_description_xml(&self) -> bool { self.c().use_xml }
    fn use_lldb_register_info(&self) -> bool { self.c().use_lldb }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { on!(self, bp) }
    fn support_monitor_cmd(&mut self) -> Option<monitor_cmd::MonitorCmdOps<'_, Self>> { on!(self, mon) }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> { on!(self, ext) }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> { on!(self, secoff) }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> { on!(self, tp) }
    fn support_target_description_xml_override(&mut self) -> Option<target_description_xml_override::TargetDescriptionXmlOverrideOps<'_, Self>> { on!(self, xmlovr) }
    fn support_lldb_register_info_override(&mut self) -> Option<lldb_register_info_override::LldbRegisterInfoOverrideOps<'_, Self>> { on!(self, lldbovr) }
    fn support_memory_map(&mut self) -> Option<memory_map::MemoryMapOps<'_, Self>> { on!(self, memmap) }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> { on!(self, catch) }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> { on!(self, hio) }
    fn support_exec_file(&mut self) -> Option<exec_file::ExecFileOps<'_, Self>> { on!(self, exec) }
    fn support_auxv(&mut self) -> Option<auxv::AuxvOps<'_, Self>> { on!(self, auxv) }
    fn support_libraries_svr4(&mut self) -> Option<libraries::LibrariesSvr4Ops<'_, Self>> { on!(self, libs) }
}
im!(SingleThreadBase {
    fn read_registers(&mut self, r: &mut MRegs<U>) -> TargetResult<(), Self> { tr(self.b().read_registers(None).map(|v| r.b.copy_from_slice(&v))) }
    fn write_registers(&mut self, r: &MRegs<U>) -> TargetResult<(), Self> { tr(self.b().write_registers(None, &r.b)) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> { on!(self, sra) }
    fn read_addrs(&mut self, a: U, d: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().read_addrs(a.as64(), None, d)) }
    fn write_addrs(&mut self, a: U, d: &[u8]) -> TargetResult<(), Self> { tr(self.b().write_addrs(a.as64(), None, d)) }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> { on!(self, resume) }
});
im!(MultiThreadBase {
    fn read_registers(&mut self, r: &mut MRegs<U>, t: Tid) -> TargetResult<(), Self> { tr(self.b().read_registers(Some(t.get())).map(|v| r.b.copy_from_slice(&v))) }
    fn write_registers(&mut self, r: &MRegs<U>, t: Tid) -> TargetResult<(), Self> { tr(self.b().write_registers(Some(t.get()), &r.b)) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> { on!(self, sra) }
    fn read_addrs(&mut self, a: U, d: &mut [u8], t: Tid) -> TargetResult<usize, Self> { tr(self.b().read_addrs(a.as64(), Some(t.get()), d)) }
    fn write_addrs(&mut self, a: U, d: &[u8], t: Tid) -> TargetResult<(), Self> { tr(self.b().write_addrs(a.as64(), Some(t.get()), d)) }
    fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), MockErr> {
        let (l, r) = self.b().list_threads();
        for t in l { f(Tid::new(t).unwrap()) }
        pl(r)
    }
    fn is_thread_alive(&mut self, t: Tid) -> Result<bool, MockErr> { pl(self.b().alive(t.get())) }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> { on!(self, resume) }
    fn support_thread_extra_info(&mut self) -> Option<thread_extra_info::ThreadExtraInfoOps<'_, Self>> { on!(self, extra) }
});
impl<U: UU, const X: bool, const L: bool> SingleRegisterAccess<()> for MT<U, X, L> {
    fn read_register(&mut self, _: (), r: MReg, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().read_register(None, r.0, reg_info(r.0).unwrap().is_some(), Some(buf)).map(|x| x.0)) }
    fn write_register(&mut self, _: (), r: MReg, v: &[u8]) -> TargetResult<(), Self> { tr(self.b().write_register(None, r.0, v)) }
}
impl<U: UU, const X: bool, const L: bool> SingleRegisterAccess<Tid> for MT<U, X, L> {
    fn read_register(&mut self, t: Tid, r: MReg, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().read_register(Some(t.get()), r.0, reg_info(r.0).unwrap().is_some(), Some(buf)).map(|x| x.0)) }
    fn write_register(&mut self, t: Tid, r: MReg, v: &[u8]) -> TargetResult<(), Self> { tr(self.b().write_register(Some(t.get()), r.0, v)) }
}
fn sg(s: Option<Signal>) -> Option<u8> { s.map(|s| s.0) }
im!(SingleThreadResume {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), MockErr> { pl(self.b().plain(format!("resume({:?})", sg(s)))) }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> { on!(self, step) }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> { on!(self, range) }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> { on!(self, rstep) }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> { on!(self, rcont) }
});
im!(SingleThreadSingleStep { fn step(&mut self, s: Option<Signal>) -> Result<(), MockErr> { pl(self.b().plain(format!("step({:?})", sg(s)))) } });
im!(SingleThreadRangeStepping { fn resume_range_step(&mut self, s: U, e: U) -> Result<(), MockErr> { pl(self.b().plain(format!("range_step({:x},{:x})", s.as64(), e.as64()))) } });
im!(MultiThreadResume {
    fn resume(&mut self) -> Result<(), MockErr> { pl(self.b().plain("mt_resume".into())) }
    fn clear_resume_actions(&mut self) -> Result<(), MockErr> { pl(self.b().plain("clear_resume_actions".into())) }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), MockErr> { pl(self.b().plain(format!("set_continue({},{:?})", t, sg(s)))) }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> { on!(self, step) }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> { on!(self, range) }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> { on!(self, rstep) }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> { on!(self, rcont) }
});
im!(MultiThreadSingleStep { fn set_resume_action_step(&mut self, t: Tid, s: Option<Signal>) -> Result<(), MockErr> { pl(self.b().plain(format!("set_step({},{:?})", t, sg(s)))) } });
im!(MultiThreadRangeStepping { fn set_resume_action_range_step(&mut self, t: Tid, s: U, e: U) -> Result<(), MockErr> { pl(self.b().plain(format!("set_range_step({},{:x},{:x})", t, s.as64(), e.as64()))) } });
impl<U: UU, const X: bool, const L: bool> ReverseCont<()> for MT<U, X, L> { fn reverse_cont(&mut self) -> Result<(), MockErr> { pl(self.b().plain("reverse_cont".into())) } }
impl<U: UU, const X: bool, const L: bool> ReverseCont<Tid> for MT<U, X, L> { fn reverse_cont(&mut self) -> Result<(), MockErr> { pl(self.b().plain("reverse_cont_mt".into())) } }
impl<U: UU, const X: bool, const L: bool> ReverseStep<()> for MT<U, X, L> { fn reverse_step(&mut self, _: ()) -> Result<(), MockErr> { pl(self.b().plain("reverse_step".into())) } }
impl<U: UU, const X: bool, const L: bool> ReverseStep<Tid> for MT<U, X, L> { fn reverse_step(&mut self, t: Tid) -> Result<(), MockErr> { pl(self.b().plain(format!("reverse_step_mt({})", t))) } }
im!(Breakpoints {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> { on!(self, sw) }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> { on!(self, hw) }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> { on!(self, watch) }
});
im!(SwBreakpoint {
    fn add_sw_breakpoint(&mut self, a: U, k: MBk) -> TargetResult<bool, Self> { tr(self.b().bp(true, false, a.as64(), k.0)) }
    fn remove_sw_breakpoint(&mut self, a: U, k: MBk) -> TargetResult<bool, Self> { tr(self.b().bp(false, false, a.as64(), k.0)) }
});
im!(HwBreakpoint {
    fn add_hw_breakpoint(&mut self, a: U, k: MBk) -> TargetResult<bool, Self> { tr(self.b().bp(true, true, a.as64(), k.0)) }
    fn remove_hw_breakpoint(&mut self, a: U, k: MBk) -> TargetResult<bool, Self> { tr(self.b().bp(false, true, a.as64(), k.0)) }
});
im!(HwWatchpoint {
    fn add_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> { tr(self.b().wp(true, a.as64(), l.as64(), k)) }
    fn remove_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> { tr(self.b().wp(false, a.as64(), l.as64(), k)) }
});
fn p(x: usize) -> Pid { Pid::new(x).unwrap() }
im!(ExtendedMode {
    fn run(&mut self, f: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> {
        let k = self.c().args_take;
        let v: Vec<Vec<u8>> = args.take(k).map(|a| a.to_vec()).collect();
        tr(self.b().run(f, &v).map(p))
    }
    fn attach(&mut self, pid: Pid) -> TargetResult<(), Self> { tr(self.b().tres(format!("attach({})", pid))) }
    fn query_if_attached(&mut self, pid: Pid) -> TargetResult<AttachKind, Self> { tr(self.b().query_attached(pid.get()).map(|a| if a { AttachKind::Attach } else { AttachKind::Run })) }
    fn kill(&mut self, pid: Option<Pid>) -> TargetResult<ShouldTerminate, Self> { tr(self.b().kill(pid.map(|p| p.get())).map(|k| if k { ShouldTerminate::Yes } else { ShouldTerminate::No })) }
    fn restart(&mut self) -> Result<(), MockErr> { pl(self.b().plain("restart".into())) }
    fn on_start(&mut self) -> Result<(), MockErr> { pl(self.b().plain("on_start".into())) }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> { on!(self, aslr) }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> { on!(self, env) }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> { on!(self, shell) }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> { on!(self, wd) }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> { on!(self, pid) }
});
im!(ConfigureAslr { fn cfg_aslr(&mut self, v: bool) -> TargetResult<(), Self> { tr(self.b().tres(format!("cfg_aslr({})", v))) } });
im!(ConfigureEnv {
    fn set_env(&mut self, k: &[u8], v: Option<&[u8]>) -> TargetResult<(), Self> { tr(self.b().tres(format!("set_env({},{:?})", hx(k), v.map(hx)))) }
    fn remove_env(&mut self, k: &[u8]) -> TargetResult<(), Self> { tr(self.b().tres(format!("remove_env({})", hx(k)))) }
    fn reset_env(&mut self) -> TargetResult<(), Self> { tr(self.b().tres("reset_env".into())) }
});
im!(ConfigureStartupShell { fn cfg_startup_with_shell(&mut self, v: bool) -> TargetResult<(), Self> { tr(self.b().tres(format!("cfg_shell({})", v))) } });
im!(ConfigureWorkingDir { fn cfg_working_dir(&mut self, d: Option<&[u8]>) -> TargetResult<(), Self> { tr(self.b().tres(format!("cfg_wd({:?})", d.map(hx)))) } });
im!(CurrentActivePid { fn current_active_pid(&mut self) -> Result<Pid, MockErr> { pl(self.b().cur_pid().map(p)) } });
macro_rules! hm { ($s:ident, $bit:expr) => { if $s.c().hio_m >> $bit & 1 == 1 { Some($s) } else { None } } }
im!(HostIo {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> { hm!(self, 0) }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> { hm!(self, 1) }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> { hm!(self, 2) }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> { hm!(self, 3) }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> { hm!(self, 4) }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> { hm!(self, 5) }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> { hm!(self, 6) }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> { hm!(self, 7) }
});
im!(HostIoOpen { fn open(&mut self, f: &[u8], fl: HostIoOpenFlags, m: HostIoOpenMode) -> HostIoResult<u32, Self> { let e = self.e(); hr(self.b().open(f, fl.bits(), m.bits()), e) } });
im!(HostIoClose { fn close(&mut self, fd: u32) -> HostIoResult<(), Self> { let e = self.e(); hr(self.b().tres(format!("close({:x})", fd)), e) } });
im!(HostIoPread { fn pread(&mut self, fd: u32, c: usize, o: u64, buf: &mut [u8]) -> HostIoResult<usize, Self> { let e = self.e(); hr(self.b().pread(fd, c, o, Some(buf)).map(|x| x.0), e) } });
im!(HostIoPwrite { fn pwrite(&mut self, fd: u32, o: U, d: &[u8]) -> HostIoResult<U, Self> { let e = self.e(); hr(self.b().pwrite(fd, o.as64(), d).map(U::from64), e) } });
im!(HostIoFstat { fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> { let e = self.e(); hr(self.b().fstat(fd).map(|v| HostIoStat { st_dev: v[0] as u32, st_ino: v[1] as u32, st_mode: HostIoOpenMode::from_bits_truncate(v[2] as u32), st_nlink: v[3] as u32, st_uid: v[4] as u32, st_gid: v[5] as u32, st_rdev: v[6] as u32, st_size: v[7], st_blksize: v[8], st_blocks: v[9], st_atime: v[10] as u32, st_mtime: v[11] as u32, st_ctime: v[12] as u32 }), e) } });
im!(HostIoUnlink { fn unlink(&mut self, f: &[u8]) -> HostIoResult<(), Self> { let e = self.e(); hr(self.b().tres(format!("unlink({})", hx(f))), e) } });
im!(HostIoReadlink { fn readlink(&mut self, f: &[u8], buf: &mut [u8]) -> HostIoResult<usize, Self> { let e = self.e(); hr(self.b().readlink(f, Some(buf)).map(|x| x.0), e) } });
im!(HostIoSetfs { fn setfs(&mut self, k: FsKind) -> HostIoResult<(), Self> { let e = self.e(); hr(self.b().tres(match k { FsKind::Stub => "setfs(stub)".to_string(), FsKind::Pid(p) => format!("setfs({})", p) }), e) } });
im!(CatchSyscalls {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, U>>) -> TargetResult<(), Self> {
        let k = self.c().args_take;
        let v = f.map(|f| f.take(k).map(|x| x.as64()).collect::<Vec<_>>());
        tr(self.b().catch_enable(v.as_deref()))
    }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> { tr(self.b().tres("disable_catch_syscalls".into())) }
});
im!(monitor_cmd::MonitorCmd {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: monitor_cmd::ConsoleOutput<'_>) -> Result<(), MockErr> {
        self.b().l(format!("monitor({})", hx(cmd)));
        let s = self.b().mon_script(cmd);
        for o in s { match o { MonOp::W(v) => out.write_raw(&v), MonOp::F => out.flush() } }
        let r = self.b().fail(true);
        pl(r)
    }
});
im!(SectionOffsets {
    fn get_section_offsets(&mut self) -> Result<Offsets<U>, MockErr> {
        let u = U::from64;
        pl(self.b().offsets().map(|o| match o { Offs::Sec(text, data, bss) => Offsets::Sections { text: u(text), data: u(data), bss: bss.map(u) }, Offs::Seg(t, d) => Offsets::Segments { text_seg: u(t), data_seg: d.map(u) } }))
    }
});
im!(target_description_xml_override::TargetDescriptionXmlOverride {
    fn target_description_xml(&self, annex: &[u8], o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().xfer(&format!("features[{}]", hx(annex)), o, l, Some(buf)).map(|x| x.0)) }
});
im!(memory_map::MemoryMap { fn memory_map_xml(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().xfer("memory_map", o, l, Some(buf)).map(|x| x.0)) } });
im!(exec_file::ExecFile { fn get_exec_file(&self, pid: Option<Pid>, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().xfer(&format!("exec_file[{:?}]", pid), o, l, Some(buf)).map(|x| x.0)) } });
im!(auxv::Auxv { fn get_auxv(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().xfer("auxv", o, l, Some(buf)).map(|x| x.0)) } });
im!(libraries::LibrariesSvr4 { fn get_libraries_svr4(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { tr(self.b().xfer("libraries_svr4", o, l, Some(buf)).map(|x| x.0)) } });
im!(thread_extra_info::ThreadExtraInfo { fn thread_extra_info(&self, t: Tid, buf: &mut [u8]) -> Result<usize, MockErr> { pl(self.b().thread_extra(t.get(), Some(buf)).map(|x| x.0)) } });
im!(lldb_register_info_override::LldbRegisterInfoOverride {
    fn lldb_register_info<'a>(&mut self, id: usize, cb: lldb_register_info_override::Callback<'a>) -> Result<lldb_register_info_override::CallbackToken<'a>, MockErr> {
        pl(self.b().plain(format!("lldb_register_info({:x})", id)))?;
        Ok(match Backend::lldb_content(self.c().seed, id) {
            None => cb.done(),
            Some(r) => cb.write(arch::lldb::Register { name: &r.name, alt_name: r.alt.as_deref(), bitsize: r.bitsize, offset: r.offset, encoding: enc_of(r.enc).0, format: fmt_of(r.fmt).0, set: &r.set, gcc: r.gcc, dwarf: r.dwarf, generic: r.gen.map(|g| gen_of(g).0), container_regs: r.cont.as_deref(), invalidate_regs: r.inv.as_deref() }),
        })
    }
});
fn ts<U: UU>(s: TStep) -> TracepointEnumerateStep<U> {
    match s { TStep::Action => TracepointEnumerateStep::Action, TStep::Source => TracepointEnumerateStep::Source, TStep::Next(t, a) => TracepointEnumerateStep::Next { tp: Tracepoint(t), addr: U::from64(a) }, TStep::Done => TracepointEnumerateStep::Done }
}
fn act_s<U: UU>(a: &TracepointAction<'_, U>) -> String {
    match a { TracepointAction::Registers { mask } => format!("R{}", hx(mask)), TracepointAction::Memory { basereg, offset, length } => format!("M{:?},{:x},{:x}", basereg, offset.as64(), length), TracepointAction::Expression { expr } => format!("X{}", hx(expr)) }
}
fn ms(v: Vec<u8>) -> managed::ManagedSlice<'static, u8> { managed::ManagedSlice::Owned(v) }
im!(Tracepoints {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> { tr(self.b().tres("tracepoints_init".into())) }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TargetResult<(), Self> { tr(self.b().tres(format!("create_begin({:x},{},{:x},{:x},{:x})", t.number.0, t.enabled, t.addr.as64(), t.pass_count, t.step_count))) }
    fn tracepoint_create_continue(&mut self, tp: Tracepoint, a: &TracepointAction<'_, U>) -> TargetResult<(), Self> { tr(self.b().tres(format!("create_continue({:x},{})", tp.0, act_s(a)))) }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TargetResult<(), Self> { tr(self.b().tres(format!("create_complete({:x})", tp.0))) }
    fn tracepoint_status(&self, tp: Tracepoint, a: U) -> TargetResult<TracepointStatus, Self> { tr(self.b().tp_status(tp.0, a.as64()).map(|(h, b)| TracepointStatus { hit_count: h, bytes_used: b })) }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> { &mut self.st }
    fn tracepoint_enumerate_start(&mut self, tp: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let (e, r) = self.b().tp_enum_start(tp.map(|t| t.0));
        if let Some((n, a, en, st, pa)) = e { f(&NewTracepoint { number: Tracepoint(n), addr: U::from64(a), enabled: en, step_count: st, pass_count: pa }) }
        tr(r.map(ts))
    }
    fn tracepoint_enumerate_action(&mut self, tp: Tracepoint, step: u64, f: &mut dyn FnMut(&TracepointAction<'_, U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let (e, r) = self.b().tp_enum_action(tp.0, step);
        if let Some(a) = e { f(&match a { Act::Regs(m) => TracepointAction::Registers { mask: ms(m) }, Act::Mem(b, o, l) => TracepointAction::Memory { basereg: b, offset: U::from64(o), length: l }, Act::Expr(x) => TracepointAction::Expression { expr: ms(x) } }) }
        tr(r.map(ts))
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> { tr(self.b().tres(match c { TraceBufferConfig::Shape(BufferShape::Circular) => "buffer_configure(circular)".into(), TraceBufferConfig::Shape(BufferShape::Linear) => "buffer_configure(linear)".into(), TraceBufferConfig::Size(s) => format!("buffer_configure(size {:?})", s) })) }
    fn trace_buffer_request(&mut self, o: u64, l: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> {
        let (d, r) = self.b().trace_buf(o, l);
        for mut x in d { f(&mut x) }
        tr(r)
    }
    fn trace_experiment_status(&self, f: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> {
        let (d, r) = self.b().exp_status();
        for x in d { f(match &x { Stat::Running => ExperimentStatus::Running, Stat::NotRunning => ExperimentStatus::NotRunning, Stat::NotRun => ExperimentStatus::NotRun, Stat::Stop(t) => ExperimentStatus::Stop(t.as_deref()), Stat::Full => ExperimentStatus::Full, Stat::Disc => ExperimentStatus::Disconnected, Stat::Pass(t) => ExperimentStatus::PassCount(Tracepoint(*t)), Stat::Err(t, n) => ExperimentStatus::Error(t, Tracepoint(*n)), Stat::Unknown => ExperimentStatus::Unknown }) }
        tr(r)
    }
    fn trace_experiment_info(&self, f: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> {
        let (d, r) = self.b().exp_info();
        for x in d { f(match x { Expl::Frames(v) => ExperimentExplanation::Frames(v), Expl::Created(v) => ExperimentExplanation::Created(v), Expl::Size(v) => ExperimentExplanation::Size(v), Expl::Free(v) => ExperimentExplanation::Free(v), Expl::Circular(v) => ExperimentExplanation::Circular(v), Expl::Disc(v) => ExperimentExplanation::DisconnectedTracing(v), Expl::Other(ref s) => ExperimentExplanation::Other(s.as_str()) }) }
        tr(r)
    }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> { tr(self.b().tres("experiment_start".into())) }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> { tr(self.b().tres("experiment_stop".into())) }
    fn select_frame(&mut self, fr: FrameRequest<U>, f: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> {
        let s = match fr { FrameRequest::Select(n) => format!("select {:x}", n), FrameRequest::AtPC(a) => format!("pc {:x}", a.as64()), FrameRequest::Hit(t) => format!("tdp {:x}", t.0), FrameRequest::Between(a, b) => format!("range {:x} {:x}", a.as64(), b.as64()), FrameRequest::Outside(a, b) => format!("outside {:x} {:x}", a.as64(), b.as64()) };
        let (d, r) = self.b().frame(s);
        for x in d { f(match x { FDesc::Num(n) => FrameDescription::FrameNumber(n), FDesc::Hit(t) => FrameDescription::Hit(Tracepoint(t)) }) }
        tr(r)
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> { on!(self, tpsrc) }
});
im!(TracepointSource {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, U>) -> TargetResult<(), Self> { tr(self.b().tres(format!("attach_source({:x},{:x},{:?},{:x},{:x},{})", s.number.0, s.addr.as64(), s.kind, s.start, s.slen, hx(&s.bytes)))) }
    fn tracepoint_enumerate_source(&mut self, tp: Tracepoint, step: u64, f: &mut dyn FnMut(&SourceTracepoint<'_, U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let (e, r) = self.b().tp_enum_source(tp.0, step);
        if let Some((n, a, k, st, sl, b)) = e { f(&SourceTracepoint { number: Tracepoint(n), addr: U::from64(a), kind: match k { 0 => TracepointSourceType::At, 1 => TracepointSourceType::Cond, _ => TracepointSourceType::Cmd }, start: st, slen: sl, bytes: ms(b) }) }
        tr(r.map(ts))
    }
});
