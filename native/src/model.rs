//! Independent executable statement of what the stub must do: for each stimulus
//! the target calls it must make, the packets it must send and the state or
//! error class it must end in. Written from the protocol documentation.
use crate::mock::*;
use gdbstub::target::ext::breakpoints::WatchKind;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Plus, Pkt(Vec<u8>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Dr { Exited(u8), Terminated(u8), Disconnect, Kill }
#[derive(Clone, Debug, PartialEq)]
pub enum St { Idle, Running, CtrlC { from_idle: bool }, Disc(Dr) }
#[derive(Clone, Debug, PartialEq)]
pub enum EC { Target(u32), Conn, Other }
#[derive(Clone, Debug, PartialEq)]
pub enum SR {
    DoneStep, Exited(u8), Terminated(u8), Signal(u8), SigThread(usize, u8), Sw(usize), Hw(usize), Watch(usize, WatchKind, u64),
    Replay(Option<usize>, bool), Catch(Option<usize>, u64, bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step { Byte(u8), Report(SR, bool), Interrupt(Option<(SR, bool)>), ToIdle }

/// how a command ends
pub enum F { NonFatal(u8), Err(EC), Contract(String) }
pub type M<X> = Result<X, F>;
const OTHER: F = F::Err(EC::Other);

pub enum HS { Handled, Ok, Resume, Disc(Dr) }

#[derive(Clone, Debug, PartialEq)]
pub enum Cur { New(usize, u64), Act(usize, u64, u64), Src(usize, u64, u64) }

pub struct Model {
    pub be: Backend,
    pub xml: bool, pub lldb: bool,
    pub st: St,
    pub deferred: Option<SR>,
    pub mem_tid: usize,
    pub res_tid: Option<usize>,
    pub noack: bool,
    pub multip: bool,
    pub cur: Option<Cur>,
    // receive side
    rx: Vec<u8>, in_pkt: bool, left: usize,
    pub cap: usize, pub grow: bool,
    pub toks: Vec<Tok>,
    pub reads: std::collections::VecDeque<ReadRec>,
}

pub fn hd(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), b'x' | b'X' => Some(0), _ => None } }
pub fn dnum(b: &[u8], max: u64) -> Option<u64> {
    if b.is_empty() { return None }
    let mut v: u128 = 0;
    for &c in b { v = v * 16 + hd(c)? as u128; if v > max as u128 { return None } }
    Some(v as u64)
}
pub fn dbuf(b: &[u8]) -> Option<Vec<u8>> {
    let mut n = Vec::new();
    for &c in b { n.push(hd(c)?) }
    let mut out = vec![];
    let mut i = 0;
    if n.len() % 2 == 1 { out.push(n[0]); i = 1 }
    while i < n.len() { out.push(n[i] << 4 | n[i + 1]); i += 2 }
    Some(out)
}
pub fn dbin(b: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() { if b[i] == b'}' { o.push(*b.get(i + 1)? ^ 0x20); i += 2 } else { o.push(b[i]); i += 1 } }
    Some(o)
}
pub fn ebin(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for &c in b { if matches!(c, b'#' | b'$' | b'}' | b'*') { o.push(b'}'); o.push(c ^ 0x20) } else { o.push(c) } }
    o
}
/// big-endian byte string to integer, None if it exceeds umax
fn be(b: &[u8], umax: u64) -> Option<u64> {
    let mut v: u128 = 0;
    for &c in b { if v >> 112 != 0 { return None } v = v << 8 | c as u128; }
    if v > umax as u128 { None } else { Some(v as u64) }
}
fn nz(v: u64) -> Option<usize> { if v == 0 { None } else { Some(v as usize) } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Id { All, Any, Id(usize) }
fn pid1(b: &[u8]) -> Option<Id> {
    match b { b"-1" => Some(Id::All), b"0" => Some(Id::Any), _ => dnum(b, u64::MAX).and_then(nz).map(Id::Id) }
}
pub fn ptid(b: &[u8]) -> Option<(Option<Id>, Id)> {
    if b.first() == Some(&b'p') {
        let mut s = b[1..].split(|c| *c == b'.');
        let p = pid1(s.next()?)?;
        let t = match s.next() { Some(t) => pid1(t)?, None => Id::All };
        Some((Some(p), t))
    } else { Some((None, pid1(b)?)) }
}
fn split<'a>(b: &'a [u8], s: &[u8]) -> Vec<&'a [u8]> { let s = s.to_vec(); b.split(move |c| s.contains(c)).collect() }
fn splitn<'a>(n: usize, b: &'a [u8], s: &[u8]) -> Vec<&'a [u8]> { let s = s.to_vec(); b.splitn(n, move |c| s.contains(c)).collect() }

pub struct W(pub Vec<u8>);
impl W {
    fn s(&mut self, s: &str) { self.0.extend_from_slice(s.as_bytes()) }
    fn h(&mut self, b: &[u8]) { for x in b { self.s(&format!("{:02x}", x)) } }
    /// numbers are sent as whole bytes, without leading zero bytes
    fn n(&mut self, v: u64) { let t = format!("{:x}", v); if t.len() % 2 == 1 { self.s("0") } self.s(&t) }
}

impl Model {
    pub fn new(cfg: Rc<Cfg>, umax: u64, xml: bool, lldb: bool) -> Model {
        let (cap, grow) = match &cfg.buf { BufKind::Owned(n) => (*n, true), BufKind::Default => (4096, true), BufKind::Borrowed(n, None) => (*n, false), BufKind::Borrowed(_, Some(k)) => (*k, false) };
        let mut b = Backend::new(cfg, umax);
        b.replay = Some(Default::default());
        Model { be: b, xml, lldb, st: St::Idle, deferred: None, mem_tid: 1, res_tid: Some(1), noack: false, multip: false, cur: None, rx: vec![], in_pkt: false, left: 0, cap, grow, toks: vec![], reads: Default::default() }
    }
    fn c(&self) -> Rc<Cfg> { self.be.cfg.clone() }
    fn tid(&self) -> Option<usize> { if self.c().multi { Some(self.mem_tid) } else { None } }
    fn e<X>(&self, r: R<X>) -> M<X> {
        r.map_err(|e| match e { TE::NonFatal => F::NonFatal(121), TE::Errno(c) => F::NonFatal(c), TE::Io(c) => F::NonFatal(c.unwrap_or(121) as u8), TE::Fatal(c) => F::Err(EC::Target(c)) })
    }

    /// Err(..): session ended with that error class
    pub fn step(&mut self, s: &Step) -> Result<(), F> {
        match s {
            Step::Byte(b) => self.byte(*b),
            Step::Report(r, _) => { self.st = St::Idle; self.report(r.clone()) }
            Step::Interrupt(r) => {
                let fi = matches!(self.st, St::CtrlC { from_idle: true });
                if fi { self.st = St::Idle; self.deferred = r.as_ref().map(|r| r.0.clone()); Ok(()) }
                else { self.st = St::Running; match r { Some((r, _)) => self.report(r.clone()), None => Ok(()) } }
            }
            Step::ToIdle => { self.st = St::Idle; self.deferred = None; Ok(()) }
        }
    }
    fn byte(&mut self, b: u8) -> Result<(), F> {
        if self.rx.len() >= self.cap { if self.grow { self.cap = self.rx.len() + 1 } else { return Err(OTHER) } }
        self.rx.push(b);
        if !self.in_pkt {
            if b == b'$' { self.in_pkt = true; return Ok(()) }
            self.rx.clear();
            return match b {
                b'+' => Ok(()),
                0x03 => { let fi = self.st == St::Idle; self.st = St::CtrlC { from_idle: fi }; self.deferred = None; Ok(()) }
                _ => Err(OTHER),
            };
        }
        if self.left == 0 { if b == b'#' { self.left = 2 } return Ok(()) }
        self.left -= 1;
        if self.left > 0 { return Ok(()) }
        self.in_pkt = false;
        let p = std::mem::take(&mut self.rx);
        let body = p[1..p.len() - 3].to_vec();
        let ck = &p[p.len() - 2..];
        let want = body.iter().fold(0u8, |a, x| a.wrapping_add(*x));
        match (hd(ck[0]), hd(ck[1])) { (Some(h), Some(l)) if h << 4 | l == want => {} _ => return Err(OTHER) }
        self.command(&body)
    }
    fn report(&mut self, r: SR) -> Result<(), F> {
        let c = self.c();
        let mut w = W(vec![]);
        let mut d = None;
        // never fails with a NonFatal: plain errors only
        match r {
            SR::DoneStep => { w.s("S05") }
            SR::Signal(s) => { w.s("S"); w.n(s as u64) }
            SR::Exited(x) => { w.s("W"); w.n(x as u64); d = Some(Dr::Exited(x)) }
            SR::Terminated(x) => { w.s("X"); w.n(x as u64); d = Some(Dr::Terminated(x)) }
            SR::SigThread(t, s) => self.stop_common(&mut w, Some(t), s)?,
            SR::Sw(t) if c.bp && c.sw => { self.stop_common(&mut w, Some(t), 5)?; w.s("swbreak:;") }
            SR::Hw(t) if c.bp && c.hw => { self.stop_common(&mut w, Some(t), 5)?; w.s("hwbreak:;") }
            SR::Watch(t, k, a) if c.bp && c.watch => {
                self.stop_common(&mut w, Some(t), 5)?;
                w.s(match k { WatchKind::Write => "watch:", WatchKind::Read => "rwatch:", WatchKind::ReadWrite => "awatch:" });
                w.n(a);
                w.s(";");
            }
            SR::Replay(t, begin) if c.resume && (c.rcont || c.rstep) => { self.stop_common(&mut w, t, 5)?; w.s(if begin { "replaylog:begin;" } else { "replaylog:end;" }) }
            SR::Catch(t, n, entry) if c.catch => { self.stop_common(&mut w, t, 5)?; w.s(if entry { "syscall_entry:" } else { "syscall_return:" }); w.n(n); w.s(";") }
            _ => return Err(OTHER),
        }
        self.toks.push(Tok::Pkt(w.0));
        self.deferred = None;
        self.st = match d { Some(d) => St::Disc(d), None => St::Idle };
        Ok(())
    }
    fn stop_common(&mut self, w: &mut W, t: Option<usize>, sig: u8) -> M<()> {
        w.s("T");
        w.n(sig as u64);
        if let Some(t) = t { self.mem_tid = t; self.res_tid = Some(t); w.s("thread:"); self.wtid(w, t)?; w.s(";") }
        Ok(())
    }
    fn cur_pid(&mut self) -> M<usize> {
        let c = self.c();
        if c.ext && c.pid { let r = self.be.cur_pid(); self.e(r) } else { Ok(1) }
    }
    fn wtid_p(&self, w: &mut W, pid: usize, t: usize) { if self.multip { w.s("p"); w.n(pid as u64); w.s(".") } w.n(t as u64) }
    fn wtid(&mut self, w: &mut W, t: usize) -> M<()> {
        let p = if self.multip { self.cur_pid()? } else { 1 };
        self.wtid_p(w, p, t);
        Ok(())
    }
    fn any_tid(&mut self) -> M<Option<usize>> {
        if !self.c().multi { return Ok(Some(1)) }
        let (l, r) = self.be.list_threads();
        self.e(r)?;
        Ok(l.first().copied())
    }
    fn reasonable(&mut self, w: &mut W) -> M<HS> {
        match self.any_tid()? { Some(t) => { w.s("T05thread:"); self.wtid(w, t)?; w.s(";") } None => w.s("W00;") }
        Ok(HS::Handled)
    }

    fn command(&mut self, body: &[u8]) -> Result<(), F> {
        let k = match self.lookup(body) { Some((n, k)) => Some((k, &body[n..])), None => None };
        // arguments are validated before anything is sent
        let parsed = match k { Some((k, a)) => Some(self.parse(k, a).ok_or(OTHER)?), None => None };
        if !self.noack { self.toks.push(Tok::Plus) }
        let mut w = W(vec![]);
        let r = match parsed { Some(c) => self.exec(c, &mut w), None => self.unknown(body, &mut w) };
        let d = match r {
            Ok(HS::Handled) => None,
            Ok(HS::Ok) => { w.s("OK"); None }
            Ok(HS::Resume) => {
                return match self.deferred.take() { Some(r) if self.st == St::Idle => { self.st = St::Idle; self.report(r) } _ => { self.st = St::Running; Ok(()) } };
            }
            Ok(HS::Disc(d)) => Some(d),
            Err(F::NonFatal(c)) => { w.s("E"); w.n(c as u64); None }
            Err(e) => return Err(e),
        };
        if !(d == Some(Dr::Kill) && !self.c().ext) { self.toks.push(Tok::Pkt(w.0)) }
        if let Some(d) = d { self.st = St::Disc(d); self.deferred = None }
        Ok(())
    }
    fn unknown(&mut self, body: &[u8], w: &mut W) -> M<HS> {
        let c = self.c();
        if !c.resume && c.use_stub && matches!(body.first(), Some(b'c' | b'C' | b's' | b'S')) {
            let mut o = W(vec![]);
            o.s("O");
            o.h(b"target has not implemented `support_resume()`\n");
            self.toks.push(Tok::Pkt(o.0));
            w.s("S05");
        }
        Ok(HS::Handled)
    }

    /// longest command name (among those the target supports) that is a prefix
    pub fn lookup(&self, body: &[u8]) -> Option<(usize, &'static str)> {
        let mut best: Option<(usize, &'static str)> = None;
        for (n, on) in self.names() {
            if on && body.starts_with(n.as_bytes()) && best.map_or(true, |b| n.len() > b.0) { best = Some((n.len(), n)) }
        }
        best
    }
    pub fn names(&self) -> Vec<(&'static str, bool)> {
        let c = self.c();
        let tx = c.use_xml && (self.xml || c.xmlovr);
        let ll = c.use_lldb && (self.lldb || c.lldbovr);
        let mut v = vec![];
        let mut g = |on: bool, l: &[&'static str]| for n in l { v.push((*n, on)) };
        g(true, &["?", "D", "g", "G", "H", "k", "m", "M", "qAttached", "qfThreadInfo", "qsThreadInfo", "qSupported", "T", "vKill"]);
        g(tx, &["qXfer:features:read"]);
        g(c.resume, &["c", "s", "vCont"]);
        g(c.use_x, &["X"]);
        g(c.use_noack, &["QStartNoAckMode"]);
        g(c.sra, &["p", "P"]);
        g(c.ext, &["!", "qC", "QDisableRandomization", "QEnvironmentHexEncoded", "QEnvironmentReset", "QEnvironmentUnset", "QSetWorkingDir", "QStartupWithShell", "R", "vAttach", "vRun"]);
        g(c.mon, &["qRcmd"]);
        g(c.secoff, &["qOffsets"]);
        g(c.resume && c.rcont, &["bc"]);
        g(c.resume && c.rstep, &["bs"]);
        g(c.memmap, &["qXfer:memory-map:read"]);
        g(c.auxv, &["qXfer:auxv:read"]);
        g(c.exec, &["qXfer:exec-file:read"]);
        g(c.hio, &["vFile:open", "vFile:close", "vFile:pread", "vFile:pwrite", "vFile:fstat", "vFile:unlink", "vFile:readlink", "vFile:setfs"]);
        g(c.catch, &["QCatchSyscalls"]);
        g(c.multi && c.extra, &["qThreadExtraInfo"]);
        g(ll, &["qRegisterInfo"]);
        g(c.libs, &["qXfer:libraries-svr4:read"]);
        g(c.tp, &["QTDPsrc", "QTDP", "QTinit", "QTBuffer", "QTStart", "QTStop", "QTFrame", "qTBuffer", "qTStatus", "qTP", "qTfP", "qTsP", "qTfV", "qTsV"]);
        g(c.bp, &["z", "Z"]);
        v
    }

    pub fn parse(&self, k: &'static str, a: &[u8]) -> Option<Cmd> {
        use Cmd::*;
        let u32m = u32::MAX as u64;
        let um = u64::MAX; // usize
        let empty = || if a.is_empty() { Some(Simple(k)) } else { None };
        let pre = |c: u8| -> Option<&[u8]> { if a.first() == Some(&c) { Some(&a[1..]) } else { None } };
        let flag = || match a { b":0" => Some(Flag(k, false)), b":1" => Some(Flag(k, true)), _ => None };
        Some(match k {
            "?" | "g" | "k" | "qfThreadInfo" | "qsThreadInfo" | "QStartNoAckMode" | "!" | "qC" | "QEnvironmentReset" | "qOffsets" | "bc" | "bs" | "QTinit" | "QTStart" | "QTStop" | "qTStatus" | "qTfP" | "qTsP" | "qTfV" | "qTsV" => empty()?,
            "D" | "qAttached" => {
                let sep = if k == "D" { b';' } else { b':' };
                OptPid(k, match pre(sep) { Some(p) => Some(nz(dnum(p, um)?)?), None => None })
            }
            "vKill" | "vAttach" => OptPid(k, Some(nz(dnum(pre(b';')?, um)?)?)),
            "G" => Buf(k, dbuf(a)?),
            "H" => {
                let g = match a.first()? { b'g' => true, b'c' => false, _ => return None };
                Hh(g, ptid(&a[1..])?.1)
            }
            "T" => Tt(ptid(a)?.1),
            "m" => { let p = split(a, b","); let ad = dbuf(p[0])?; Mem(ad, dnum(p.get(1)?, um)? as usize) }
            "M" => { let p = split(a, b",:"); let ad = dbuf(p[0])?; dnum(p.get(1)?, um)?; Wr(ad, dbuf(p.get(2)?)?) }
            "X" => { let p = splitn(3, a, b",:"); let ad = dbuf(p[0])?; dnum(p.get(1)?, um)?; Wr(ad, dbin(p.get(2)?)?) }
            "qSupported" => Sup(split(pre(b':')?, b";").iter().map(|f| f.to_vec()).collect()),
            "qXfer:features:read" | "qXfer:memory-map:read" | "qXfer:auxv:read" | "qXfer:exec-file:read" | "qXfer:libraries-svr4:read" => {
                if a.is_empty() { return None }
                let p = split(a, b":");
                let annex = *p.get(1)?;
                match k {
                    "qXfer:features:read" => {}
                    "qXfer:exec-file:read" => if !annex.is_empty() { nz(dnum(annex, um)?)?; },
                    _ => if !annex.is_empty() { return None },
                }
                let q = split(p.get(2)?, b",");
                Xfer(k, annex.to_vec(), dnum(q[0], um)?, dnum(q.get(1)?, um)? as usize)
            }
            "c" | "s" => { dbuf(a)?; Simple(k) }
            "vCont" => if a == b"?" { VQ } else { VC(a.to_vec()) },
            "p" => Num(k, dnum(a, um)?),
            "P" => { let p = split(a, b"="); let r = dnum(p[0], um)?; PP(r as usize, dbuf(p.get(1)?)?) }
            "QDisableRandomization" | "QStartupWithShell" => flag()?,
            "QEnvironmentHexEncoded" => {
                let kv = dbuf(pre(b':')?)?;
                let p = splitn(2, &kv, b"=");
                let v = *p.get(1)?;
                Env(p[0].to_vec(), if v.is_empty() { None } else { Some(v.to_vec()) })
            }
            "QEnvironmentUnset" | "QSetWorkingDir" => Buf(k, dbuf(pre(b':')?)?),
            "R" => if a.len() == 2 { Simple(k) } else { return None },
            "vRun" => {
                let p = splitn(3, a, b";");
                let f = dbuf(p.get(1)?)?;
                Run(if f.is_empty() { None } else { Some(f) }, arglist(p.get(2).unwrap_or(&&[][..]))?)
            }
            "qRcmd" => if a.is_empty() { Buf(k, vec![]) } else { Buf(k, dbuf(pre(b',')?)?) },
            "vFile:open" => { let p = splitn(3, pre(b':')?, b","); let f = dbuf(p[0])?; let fl = dnum(p.get(1)?, u32m)? as u32; if fl & !0xF000_0E0B != 0 { return None } let m = dnum(p.get(2)?, u32m)? as u32; if m & !0o140777 != 0 { return None } Open(f, fl, m) }
            "vFile:close" | "vFile:fstat" => Num(k, dnum(pre(b':')?, u32m)?),
            "vFile:pread" => { let p = splitn(3, pre(b':')?, b","); Pread(dnum(p[0], u32m)? as u32, dnum(p.get(1)?, um)? as usize, dnum(p.get(2)?, um)?) }
            "vFile:pwrite" => { let p = splitn(3, pre(b':')?, b","); Pwrite(dnum(p[0], u32m)? as u32, dbuf(p.get(1)?)?, dbin(p.get(2)?)?) }
            "vFile:unlink" | "vFile:readlink" => Buf(k, dbuf(pre(b':')?)?),
            "vFile:setfs" => Num(k, dnum(pre(b':')?, um)?),
            "QCatchSyscalls" => match a { b":0" => Catch(None), b":1" => Catch(Some(None)), _ if a.starts_with(b":1;") => Catch(Some(Some(arglist(&a[3..])?))), _ => return None },
            "qThreadExtraInfo" => { let (p, t) = ptid(pre(b',')?)?; if let Some(Id::All | Id::Any) = p { return None } match t { Id::Id(t) => Num(k, t as u64), _ => return None } }
            "qRegisterInfo" => Num(k, dnum(a, um)?),
            "z" | "Z" => { let p = splitn(4, a, b",;"); Bp(k == "Z", dnum(p[0], 255)? as u8, dbuf(p.get(1)?)?, dbuf(p.get(2)?)?) }
            "QTDP" => {
                let r = pre(b':')?;
                if r.first() == Some(&b'-') {
                    let p = splitn(4, &r[1..], b":");
                    TExt(dnum(p[0], um)? as usize, dbuf(p.get(1)?)?, p.get(2)?.to_vec())
                } else {
                    let (r, more) = if r.last() == Some(&b'-') { (&r[..r.len() - 1], true) } else { (r, false) };
                    let p = splitn(6, r, b":");
                    let n = dnum(p[0], um)? as usize;
                    let ad = dbuf(p.get(1)?)?;
                    let en = *p.get(2)?;
                    let st = dnum(p.get(3)?, um)?;
                    let pass = dnum(p.get(4)?, um)?;
                    let opt = match p.get(5) { None => None, Some(o) if o.first() == Some(&b'F') => Some(b'F'), Some(o) if *o == b"S" => Some(b'S'), Some(o) if o.first() == Some(&b'X') => Some(b'X'), _ => return None };
                    let en = match en { b"E" => true, b"D" => false, _ => return None };
                    TNew(n, ad, en, st, pass, opt, more)
                }
            }
            "QTDPsrc" => {
                let p = splitn(7, pre(b':')?, b":");
                let n = dnum(p[0], um)? as usize;
                let ad = dbuf(p.get(1)?)?;
                let kd = match *p.get(2)? { b"at" => "At", b"cond" => "Cond", b"cmd" => "Cmd", _ => return None };
                TSrc(n, ad, kd, dnum(p.get(3)?, u32m)? as u32, dnum(p.get(4)?, u32m)? as u32, dbuf(p.get(5)?)?)
            }
            "QTBuffer" => {
                let p = splitn(2, pre(b':')?, b":");
                match p[0] {
                    b"circular" => match *p.get(1)? { b"1" => TConf("circular".into()), b"0" => TConf("linear".into()), _ => return None },
                    b"size" => match *p.get(1)? { b"-1" => TConf("size None".into()), n => TConf(format!("size {:?}", Some(dnum(n, um)?))) },
                    _ => return None,
                }
            }
            "QTFrame" => {
                let p = split(pre(b':')?, b":");
                let b = |i: usize| -> Option<Vec<u8>> { dbuf(p.get(i)?) };
                match p[0] {
                    b"pc" => TFrame("pc", 0, vec![b(1)?]),
                    b"tdp" => TFrame("tdp", dnum(p.get(1)?, um)?, vec![]),
                    b"range" => TFrame("range", 0, vec![b(1)?, b(2)?]),
                    b"outside" => TFrame("outside", 0, vec![b(1)?, b(2)?]),
                    n => TFrame("select", dnum(n, um)?, vec![]),
                }
            }
            "qTBuffer" => { let p = split(pre(b':')?, b","); let l = p.get(1)?; TBuf(dnum(p[0], um)?, dnum(l, um)? as usize) }
            "qTP" => { let p = split(pre(b':')?, b":"); let n = dnum(p[0], um)? as usize; TPs(n, dbuf(p.get(1)?)?) }
            _ => unreachable!("{}", k),
        })
    }

    fn addr(&self, b: &[u8]) -> M<u64> { be(b, self.be.umax).ok_or(OTHER) }
    fn sized_reply(&mut self, w: &mut W, r: R<(usize, Vec<u8>)>, plain_prefix: Option<&str>) -> M<usize> {
        let (n, d) = self.e(r)?;
        let _ = plain_prefix;
        let rec = self.be.sized.last().cloned().ok_or(F::Contract("no buffer-filling call was recorded".into()))?;
        if rec.tag == "missing" { return Err(F::Contract("expected a buffer-filling target call which was not made".into())) }
        if n > rec.len { return Err(OTHER) }
        w.0.extend_from_slice(&ebin(&d));
        Ok(n)
    }
    fn xfer(&mut self, w: &mut W, what: &str, off: u64, len: usize) -> M<HS> {
        let r = self.be.xfer(what, off, len, None);
        let mut t = W(vec![]);
        let n = self.sized_reply(&mut t, r, None)?;
        if n == 0 { w.s("l") } else { w.s("m"); w.0.extend(t.0) }
        Ok(HS::Handled)
    }

    fn exec(&mut self, cmd: Cmd, w: &mut W) -> M<HS> {
        let c = self.c();
        let tid = self.tid();
        let umax = self.be.umax;
        macro_rules! b { ($f:ident($($a:expr),*)) => {{ let r = self.be.$f($($a),*); self.e(r)? }} }
        macro_rules! hio { ($r:expr, $p:pat => $ok:expr) => {{ match $r { Ok($p) => $ok, Err(TE::Fatal(x)) => return Err(F::Err(EC::Target(x))), Err(_) => { w.s("F-1,"); w.n(hio_errno(c.hio_errno) as u64) } } return Ok(HS::Handled) }} }
        use Cmd::*;
        Ok(match cmd {
            Simple("?") => return self.reasonable(w),
            Simple("g") => {
                let v = b!(read_registers(tid));
                for i in 0..12 { if NONE_POS.contains(&i) { w.s("xx") } else { w.h(&v[i..i + 1]) } }
                HS::Handled
            }
            Buf("G", v) => { if v.len() != 12 { return Err(OTHER) } b!(write_registers(tid, &v)); HS::Ok }
            Mem(ad, len) => { let ad = self.addr(&ad)?; return self.mem_read(ad, len, tid, w) }
            Wr(ad, v) => { let ad = self.addr(&ad)?; b!(write_addrs(ad, tid, &v)); HS::Ok }
            Simple("k") | OptPid("vKill", _) => {
                let pid = if let OptPid(_, p) = cmd { p } else { None };
                if !c.ext { return Ok(HS::Disc(Dr::Kill)) }
                if b!(kill(pid)) { w.s("OK"); HS::Disc(Dr::Kill) } else { HS::Ok }
            }
            OptPid("D", _) => { w.s("OK"); HS::Disc(Dr::Disconnect) }
            OptPid("qAttached", p) => {
                let at = match p { Some(p) if c.ext => b!(query_attached(p)), _ => true };
                w.s(if at { "1" } else { "0" });
                HS::Handled
            }
            Hh(g, id) => {
                match (g, id) {
                    (true, Id::All) => return Err(OTHER),
                    (_, Id::Any) => match self.any_tid()? { None => return Err(F::NonFatal(1)), Some(t) => if g { self.mem_tid = t } else { self.res_tid = Some(t) } },
                    (false, Id::All) => self.res_tid = None,
                    (_, Id::Id(t)) => if g { self.mem_tid = t } else { self.res_tid = Some(t) },
                }
                HS::Ok
            }
            Tt(id) => {
                let t = match id { Id::Id(t) => t, _ => return Err(OTHER) };
                let al = if c.multi { b!(alive(t)) } else { t == 1 };
                if !al { return Err(F::NonFatal(1)) }
                HS::Ok
            }
            Simple("qfThreadInfo") => {
                w.s("m");
                let pid = self.cur_pid()?;
                if c.multi {
                    let (l, r) = self.be.list_threads();
                    for (i, t) in l.iter().enumerate() { if i > 0 { w.s(",") } self.wtid_p(w, pid, *t) }
                    self.e(r)?;
                } else { self.wtid_p(w, pid, 1) }
                HS::Handled
            }
            Simple("qsThreadInfo") => { w.s("l"); HS::Handled }
            Sup(fs) => return self.supported(fs, w),
            Xfer(k, annex, off, len) => {
                let what = match k {
                    "qXfer:features:read" => {
                        if !c.xmlovr {
                            if annex != b"target.xml" { return Err(OTHER) }
                            return self.arch_xml(off, len, w);
                        }
                        format!("features[{}]", hx(&annex))
                    }
                    "qXfer:exec-file:read" => format!("exec_file[{:?}]", dnum(&annex, u64::MAX)),
                    "qXfer:memory-map:read" => "memory_map".into(),
                    "qXfer:auxv:read" => "auxv".into(),
                    _ => "libraries_svr4".into(),
                };
                return self.xfer(w, &what, off, len);
            }
            Simple(k @ ("c" | "s")) => { let t = self.res_tid; return self.resume(vec![Some((if k == "c" { VK::C(None) } else { VK::S(None) }, Some(t)))]) }
            VQ => {
                w.s("vCont;c;C");
                if c.step { w.s(";s;S") }
                if c.range { w.s(";r") }
                HS::Handled
            }
            VC(a) => {
                let acts = split(&a, b";")[1..].iter().map(|x| vact(x)).collect();
                return self.resume(acts);
            }
            Simple("QStartNoAckMode") => { self.noack = true; HS::Ok }
            Num("p", id) => {
                let size = match reg_info(id as usize) { None => return Ok(HS::Handled), Some(s) => s };
                if let Some(s) = size { if s > self.cap { return Err(OTHER) } }
                let r = self.be.read_register(tid, id as usize, size.is_some(), None);
                let (n, d) = self.e(r)?;
                let rec = self.be.sized.last().cloned().unwrap();
                if rec.tag == "missing" { return Err(F::Contract("expected read_register".into())) }
                match size {
                    Some(s) => {
                        if rec.len != s { return Err(F::Contract(format!("read_register({}) was handed a {}-byte buffer for a {}-byte register", id, rec.len, s))) }
                        if n == 0 { for _ in 0..s { w.s("xx") } } else if n != s { return Err(OTHER) } else { w.h(&d) }
                    }
                    None => { if n == 0 || n > rec.len { return Err(OTHER) } w.h(&d) }
                }
                HS::Handled
            }
            PP(id, v) => { if reg_info(id).is_none() { return Ok(HS::Handled) } b!(write_register(tid, id, &v)); HS::Ok }
            Simple("!") => { b!(plain("on_start".into())); HS::Ok }
            Simple("R") => { b!(plain("restart".into())); HS::Handled }
            OptPid("vAttach", p) => {
                if !c.pid { return Err(OTHER) }
                b!(tres(format!("attach({})", p.unwrap())));
                return self.reasonable(w);
            }
            Simple("qC") => {
                if !c.pid { return Ok(HS::Handled) }
                w.s("QC");
                let p = b!(cur_pid());
                let t = if !c.multi { 1 } else if self.mem_tid == 1 { let (l, r) = self.be.list_threads(); self.e(r)?; l.first().copied().unwrap_or(1) } else { self.mem_tid };
                self.wtid_p(w, p, t);
                HS::Handled
            }
            Run(f, a) => {
                let a: Vec<Vec<u8>> = a.into_iter().take(c.args_take).collect();
                b!(run(f.as_deref(), &a));
                return self.reasonable(w);
            }
            Flag("QDisableRandomization", v) => { if !c.aslr { return Ok(HS::Handled) } b!(tres(format!("cfg_aslr({})", v))); HS::Ok }
            Flag(_, v) => { if !c.shell { return Ok(HS::Handled) } b!(tres(format!("cfg_shell({})", v))); HS::Ok }
            Env(k, v) => { if !c.env { return Ok(HS::Handled) } b!(tres(format!("set_env({},{:?})", hx(&k), v.map(|v| hx(&v))))); HS::Ok }
            Buf("QEnvironmentUnset", k) => { if !c.env { return Ok(HS::Handled) } b!(tres(format!("remove_env({})", hx(&k)))); HS::Ok }
            Simple("QEnvironmentReset") => { if !c.env { return Ok(HS::Handled) } b!(tres("reset_env".into())); HS::Ok }
            Buf("QSetWorkingDir", d) => { if !c.wd { return Ok(HS::Handled) } b!(tres(format!("cfg_wd({:?})", if d.is_empty() { None } else { Some(hx(&d)) }))); HS::Ok }
            Buf("qRcmd", cm) => {
                self.be.log.push(format!("monitor({})", hx(&cm)));
                let mut acc = vec![];
                let mut s = self.be.mon_script(&cm);
                s.push(MonOp::F); // whatever is left is sent when the handler returns
                for o in s {
                    match o {
                        MonOp::W(v) => acc.extend(v),
                        MonOp::F => if !acc.is_empty() { let mut o = W(vec![]); o.s("O"); o.h(&acc); acc.clear(); self.toks.push(Tok::Pkt(o.0)) },
                    }
                }
                let r = self.be.plain("".into());
                self.be.log.pop();
                self.e(r)?;
                HS::Ok
            }
            Simple("qOffsets") => {
                match b!(offsets()) {
                    Offs::Sec(t, d, bss) => { w.s("Text="); w.n(t); w.s(";Data="); w.n(d); w.s(";Bss="); w.n(bss.unwrap_or(d)) }
                    Offs::Seg(t, d) => { w.s("TextSeg="); w.n(t); if let Some(d) = d { w.s(";DataSeg="); w.n(d) } }
                }
                HS::Handled
            }
            Simple("bc") => { b!(plain(if c.multi { "reverse_cont_mt".into() } else { "reverse_cont".into() })); HS::Resume }
            Simple("bs") => {
                let t = match self.res_tid { None => return Err(OTHER), Some(t) => t };
                b!(plain(if c.multi { format!("reverse_step_mt({})", t) } else { "reverse_step".into() }));
                HS::Resume
            }
            Open(f, fl, m) => { if c.hio_m & 1 == 0 { return Ok(HS::Handled) } let r = self.be.open(&f, fl, m); hio!(r, fd => { w.s("F"); w.n(fd as u64) }) }
            Num("vFile:close", fd) => { if c.hio_m & 2 == 0 { return Ok(HS::Handled) } let r = self.be.tres(format!("close({:x})", fd)); hio!(r, _ => w.s("F0")) }
            Pread(fd, cnt, off) => {
                if c.hio_m & 4 == 0 { return Ok(HS::Handled) }
                let r = self.be.pread(fd, cnt, off, None);
                hio!(r, (n, d) => { let mut t = W(vec![]); self.sized_reply(&mut t, Ok((n, d)), None)?; w.s("F"); w.n(n as u64); w.s(";"); w.0.extend(t.0) })
            }
            Pwrite(fd, off, d) => {
                if c.hio_m & 8 == 0 { return Ok(HS::Handled) }
                let off = self.addr(&off)?;
                let r = self.be.pwrite(fd, off, &d);
                hio!(r, n => { w.s("F"); w.n(n) })
            }
            Num("vFile:fstat", fd) => {
                if c.hio_m & 16 == 0 { return Ok(HS::Handled) }
                let r = self.be.fstat(fd as u32);
                hio!(r, v => {
                    w.s("F"); w.n(64); w.s(";");
                    for (i, x) in v.iter().enumerate() {
                        let x = if i == 2 { *x & 0o140777 } else { *x };
                        let b = if (7..10).contains(&i) { x.to_be_bytes().to_vec() } else { (x as u32).to_be_bytes().to_vec() };
                        w.0.extend(ebin(&b));
                    }
                })
            }
            Buf("vFile:unlink", f) => { if c.hio_m & 32 == 0 { return Ok(HS::Handled) } let r = self.be.tres(format!("unlink({})", hx(&f))); hio!(r, _ => w.s("F0")) }
            Buf("vFile:readlink", f) => {
                if c.hio_m & 64 == 0 { return Ok(HS::Handled) }
                let r = self.be.readlink(&f, None);
                hio!(r, (n, d) => { let mut t = W(vec![]); self.sized_reply(&mut t, Ok((n, d)), None)?; w.s("F"); w.n(n as u64); w.s(";"); w.0.extend(t.0) })
            }
            Num("vFile:setfs", p) => { if c.hio_m & 128 == 0 { return Ok(HS::Handled) } let r = self.be.tres(if p == 0 { "setfs(stub)".into() } else { format!("setfs({})", p) }); hio!(r, _ => w.s("F0")) }
            Catch(None) => { b!(tres("disable_catch_syscalls".into())); HS::Ok }
            Catch(Some(None)) => { b!(catch_enable(None)); HS::Ok }
            Catch(Some(Some(l))) => {
                // numbers are handed over until the first one the target cannot represent
                let mut v = vec![];
                let mut bad = false;
                for x in l { if v.len() == c.args_take { break } match be(&x, umax) { Some(x) => v.push(x), None => { bad = true; break } } }
                b!(catch_enable(Some(&v)));
                if bad { return Err(OTHER) }
                HS::Ok
            }
            Num("qThreadExtraInfo", t) => {
                let r = self.be.thread_extra(t as usize, None);
                let (n, d) = self.e(r)?;
                let rec = self.be.sized.last().cloned().unwrap();
                if rec.tag == "missing" { return Err(F::Contract("expected thread_extra_info".into())) }
                if n > rec.len { return Err(OTHER) }
                w.h(&d);
                HS::Handled
            }
            Num("qRegisterInfo", id) => {
                if c.lldbovr {
                    b!(plain(format!("lldb_register_info({:x})", id)));
                    lreg(w, Backend::lldb_content(c.seed, id as usize));
                } else if let Some(r) = arch_lldb(id as usize) { lreg(w, r) }
                HS::Handled
            }
            Bp(add, ty, ad, kd) => {
                let ad = self.addr(&ad)?;
                let ok = match ty {
                    0 | 1 if (if ty == 0 { c.sw } else { c.hw }) => { let k = be(&kd, u64::MAX).filter(|k| bk_ok(*k as usize)).ok_or(OTHER)?; b!(bp(add, ty == 1, ad, k as usize)) }
                    2..=4 if c.watch => { let l = self.addr(&kd)?; b!(wp(add, ad, l, match ty { 2 => WatchKind::Write, 3 => WatchKind::Read, _ => WatchKind::ReadWrite })) }
                    _ => return Ok(HS::Handled),
                };
                if !ok { return Err(F::NonFatal(22)) }
                HS::Ok
            }
            Simple("QTinit") => { b!(tres("tracepoints_init".into())); HS::Ok }
            Simple("QTStart") => { b!(tres("experiment_start".into())); HS::Ok }
            Simple("QTStop") => { b!(tres("experiment_stop".into())); HS::Ok }
            Simple("qTfV" | "qTsV") => HS::Handled,
            Simple("qTStatus") => {
                let (s, r) = self.be.exp_status();
                self.e(r)?;
                if let Some(s) = s.first() {
                    let th = |w: &mut W, t: &[u8]| w.h(t);
                    match s {
                        Stat::Running => w.s("T1"), Stat::NotRunning => w.s("T0"), Stat::NotRun => w.s("T0;tnotrun:0"), Stat::Stop(None) => w.s("T0;tstop:0"),
                        Stat::Stop(Some(t)) => { w.s("T0;tstop:"); th(w, t); w.s(":0") }
                        Stat::Full => w.s("T0;tfull:0"), Stat::Disc => w.s("T0;tdisconnected:0"),
                        Stat::Pass(n) => { w.s("T0;tpasscount:"); w.n(*n as u64) }
                        Stat::Err(t, n) => { w.s("T0;terror:"); th(w, t); w.s(":"); w.n(*n as u64) }
                        Stat::Unknown => w.s("T0;tunknown:0"),
                    }
                    let (i, r) = self.be.exp_info();
                    self.e(r)?;
                    for x in i {
                        w.s(";");
                        match x {
                            Expl::Frames(v) => { w.s("tframes:"); w.n(v as u64) } Expl::Created(v) => { w.s("tcreated:"); w.n(v as u64) }
                            Expl::Size(v) => { w.s("tsize:"); w.n(v as u64) } Expl::Free(v) => { w.s("tfree:"); w.n(v as u64) }
                            Expl::Circular(v) => w.s(if v { "circular:01" } else { "circular:00" }),
                            Expl::Disc(v) => w.s(if v { "disconn:1" } else { "disconn:0" }),
                            Expl::Other(s) => w.s(&s),
                        }
                    }
                }
                HS::Handled
            }
            TPs(n, ad) => { let ad = self.addr(&ad)?; let (h, u) = b!(tp_status(n, ad)); w.s("V"); w.n(h); w.s(":"); w.n(u); HS::Handled }
            TNew(n, ad, en, st, pass, opt, more) => {
                if opt.is_some() { return Err(OTHER) }
                let ad = self.addr(&ad)?;
                b!(tres(format!("create_begin({:x},{},{:x},{:x},{:x})", n, en, ad, pass, st)));
                if !more { b!(tres(format!("create_complete({:x})", n))) }
                HS::Ok
            }
            TExt(n, ad, acts) => {
                self.addr(&ad)?;
                let (a, more) = if acts.last() == Some(&b'-') { (&acts[..acts.len() - 1], true) } else { (&acts[..], false) };
                let mut rest = a;
                let mut first_err: Option<F> = None;
                let mut bad = false;
                while let Some(&t) = rest.first() {
                    let act;
                    match t {
                        b'R' => {
                            let e = rest[1..].iter().position(|b| matches!(b, b'S' | b'R' | b'M' | b'X')).map(|p| p + 1).unwrap_or(rest.len());
                            match dbuf(&rest[1..e]) { Some(m) => act = format!("R{}", hx(&m)), None => { bad = true; break } }
                            rest = &rest[e..];
                        }
                        b'X' => {
                            let p = splitn(2, &rest[1..], b",");
                            let (l, d) = match (p.first(), p.get(1)) { (Some(l), Some(d)) => (dnum(l, u64::MAX), *d), _ => { bad = true; break } };
                            let l = match l.and_then(|l| l.checked_mul(2)) { Some(l) if l as u128 <= d.len() as u128 => l as usize, _ => { bad = true; break } };
                            match dbuf(&d[..l]) { Some(m) => act = format!("X{}", hx(&m)), None => { bad = true; break } }
                            rest = &d[l..];
                        }
                        _ => { bad = true; break }
                    }
                    let r = self.be.tres(format!("create_continue({:x},{})", n, act));
                    if let Err(e) = self.e(r) { first_err = Some(e) }
                }
                if let Some(e) = first_err { return Err(e) }
                if bad { return Err(OTHER) }
                if !more { b!(tres(format!("create_complete({:x})", n))) }
                HS::Ok
            }
            TSrc(n, ad, kd, s, l, by) => {
                if !c.tpsrc { return Ok(HS::Handled) }
                let ad = self.addr(&ad)?;
                b!(tres(format!("attach_source({:x},{:x},{},{:x},{:x},{})", n, ad, kd, s, l, hx(&by))));
                HS::Ok
            }
            TConf(s) => { b!(tres(format!("buffer_configure({})", s))); HS::Ok }
            TBuf(o, l) => {
                let (d, r) = self.be.trace_buf(o, l);
                self.e(r)?;
                if d.is_empty() { w.s("l") } else { for x in d { w.h(&x) } }
                HS::Handled
            }
            TFrame(k, n, v) => {
                let mut a = vec![];
                for x in &v { a.push(self.addr(x)?) }
                let req = match k { "select" | "tdp" => format!("{} {:x}", k, n), "pc" => format!("pc {:x}", a[0]), _ => format!("{} {:x} {:x}", k, a[0], a[1]) };
                let (d, r) = self.be.frame(req);
                self.e(r)?;
                let mut any = false;
                for x in d { match x { FDesc::Num(n) => { w.s("F"); w.n(n); any = true } FDesc::Hit(t) => { w.s("T"); w.n(t as u64) } } }
                if !any { w.s("F-1") }
                HS::Handled
            }
            Simple("qTfP") => {
                self.cur = None;
                let (e, r) = self.be.tp_enum_start(None);
                let s = self.e(r)?;
                if let Some(t) = e { self.tnew(w, t); self.cur = Some(Cur::New(t.0, t.1)) }
                self.advance(s);
                HS::Handled
            }
            Simple("qTsP") => {
                let s = match self.cur.clone() {
                    None => return Ok(HS::Handled),
                    Some(Cur::New(t, _)) => { let (e, r) = self.be.tp_enum_start(Some(t)); let s = self.e(r)?; if let Some(t) = e { self.tnew(w, t) } s }
                    Some(Cur::Act(t, ad, st)) => {
                        let (e, r) = self.be.tp_enum_action(t, st);
                        let s = self.e(r)?;
                        if let Some(a) = e {
                            w.s("A"); w.n(t as u64); w.s(":"); w.n(ad); w.s(":");
                            match a {
                                Act::Regs(m) => { w.s("R"); w.h(&m) }
                                Act::Mem(b, o, l) => { w.s("M"); match b { Some(b) => w.n(b), None => w.s("-1") } w.s(","); w.n(o); w.s(","); w.n(l) }
                                Act::Expr(x) => { w.s("X"); w.n(x.len() as u64); w.s(","); w.h(&x) }
                            }
                        }
                        s
                    }
                    Some(Cur::Src(t, _, st)) => {
                        if !c.tpsrc { return Err(OTHER) }
                        let (e, r) = self.be.tp_enum_source(t, st);
                        let s = self.e(r)?;
                        if let Some((n, ad, k, a, l, by)) = e {
                            w.s("Z"); w.n(n as u64); w.s(":"); w.n(ad); w.s(":"); w.s(["at", "cond", "cmd"][k as usize]); w.s(":"); w.n(a as u64); w.s(":"); w.n(l as u64); w.s(":"); w.h(&by);
                        }
                        s
                    }
                };
                self.advance(s);
                HS::Handled
            }
            Simple(k) | Num(k, _) | Buf(k, _) | OptPid(k, _) => unreachable!("{}", k),
        })
    }
    fn tnew(&self, w: &mut W, t: (usize, u64, bool, u64, u64)) {
        w.s("T"); w.n(t.0 as u64); w.s(":"); w.n(t.1); w.s(if t.2 { ":E:" } else { ":D:" }); w.n(t.3); w.s(":"); w.n(t.4);
    }
    fn advance(&mut self, s: TStep) {
        self.cur = match (self.cur.take(), s) {
            (None, _) | (_, TStep::Done) => None,
            (_, TStep::Next(t, a)) => Some(Cur::New(t, a)),
            (Some(Cur::Act(t, a, n)), TStep::Action) => Some(Cur::Act(t, a, n + 1)),
            (Some(Cur::Src(t, a, n)), TStep::Source) => Some(Cur::Src(t, a, n + 1)),
            (Some(Cur::New(t, a) | Cur::Src(t, a, _)), TStep::Action) => Some(Cur::Act(t, a, 0)),
            (Some(Cur::New(t, a) | Cur::Act(t, a, _)), TStep::Source) => Some(Cur::Src(t, a, 0)),
        };
    }
    fn arch_xml(&mut self, off: u64, len: usize, w: &mut W) -> M<HS> {
        let x = XML.trim().as_bytes();
        let s = (off as u128).min(x.len() as u128) as usize;
        let e = (off as u128 + len as u128).min(x.len() as u128) as usize;
        // how much of the window is sent is the stub's choice, but not nothing
        if s >= e { w.s("l") } else { w.s("m"); w.0.extend(b"\0WINDOW\0"); w.0.extend(&x[s..e]) }
        Ok(HS::Handled)
    }
    fn mem_read(&mut self, addr: u64, len: usize, tid: Option<usize>, w: &mut W) -> M<HS> {
        let mut got = 0usize;
        let bad = |s: String| Err(F::Contract(s));
        while got < len {
            let at = addr as u128 + got as u128;
            if at > self.be.umax as u128 { break } // the address space ends here
            let r = match self.reads.pop_front() { Some(r) => r, None => return bad(format!("m: stopped after {} of {} bytes although every read succeeded in full", got, len)) };
            self.be.model_read(&r);
            if r.tid != tid { return bad(format!("m: read from thread {:?}, selected thread is {:?}", r.tid, tid)) }
            if r.addr as u128 != at { return bad(format!("m: read at {:x}, expected {:x}", r.addr, at)) }
            if r.len == 0 || r.len > len - got { return bad(format!("m: chunk of {} bytes requested with {} bytes outstanding", r.len, len - got)) }
            match r.res {
                Err(TE::Fatal(c)) => return Err(F::Err(EC::Target(c))),
                Err(e) => { if got == 0 { self.e::<()>(Err(e))?; } break }
                Ok(n) if n > r.len => return Err(OTHER),
                Ok(n) => {
                    for i in 0..n { let b = self.be.mem(r.addr.wrapping_add(i as u64) & self.be.umax); w.h(&[b]) }
                    got += n;
                    if n < r.len { break }
                }
            }
        }
        Ok(HS::Handled)
    }
    fn supported(&mut self, fs: Vec<Vec<u8>>, w: &mut W) -> M<HS> {
        let c = self.c();
        for f in fs {
            match f.last() { None => return Err(OTHER), Some(b'+') if &f[..f.len() - 1] == b"multiprocess" => self.multip = true, Some(b'-') if &f[..f.len() - 1] == b"multiprocess" => self.multip = false, _ => {} }
        }
        w.s("PacketSize=");
        w.n(self.cap as u64);
        w.s(";vContSupported+;multiprocess+");
        let mut a = |on: bool, s: &str| if on { w.s(";"); w.s(s) };
        a(c.use_noack, "QStartNoAckMode+");
        a(c.resume && c.rcont, "ReverseContinue+");
        a(c.resume && c.rstep, "ReverseStep+");
        a(c.ext && c.aslr, "QDisableRandomization+");
        a(c.ext && c.env, "QEnvironmentHexEncoded+;QEnvironmentUnset+;QEnvironmentReset+");
        a(c.ext && c.shell, "QStartupWithShell+");
        a(c.ext && c.wd, "QSetWorkingDir+");
        a(c.bp && c.sw, "swbreak+");
        a(c.bp && (c.hw || c.watch), "hwbreak+");
        a(c.tp, "QTBuffer:size+");
        a(c.tp && c.tpsrc, "TracepointSource+");
        a(c.catch, "QCatchSyscalls+");
        a(c.use_xml && (self.xml || c.xmlovr), "qXfer:features:read+");
        a(c.memmap, "qXfer:memory-map:read+");
        a(c.exec, "qXfer:exec-file:read+");
        a(c.auxv, "qXfer:auxv:read+");
        a(c.libs, "qXfer:libraries-svr4:read+");
        Ok(HS::Handled)
    }
    fn resume(&mut self, acts: Vec<Option<(VK, Option<Option<usize>>)>>) -> M<HS> {
        let c = self.c();
        let umax = self.be.umax;
        let rng = |s: &[u8], e: &[u8]| -> M<(u64, u64)> { Ok((dnum(s, umax).ok_or(OTHER)?, dnum(e, umax).ok_or(OTHER)?)) };
        macro_rules! p { ($s:expr) => {{ let r = self.be.plain($s); self.e(r)? }} }
        if !c.multi {
            let (k, _) = match acts.first() { Some(Some(a)) => a.clone(), _ => return Err(OTHER) };
            match acts.get(1) { None => {} Some(Some((VK::C(None), _))) => {} _ => return Err(OTHER) }
            if acts.len() > 2 { return Err(OTHER) }
            match k {
                VK::C(s) => p!(format!("resume({:?})", s)),
                VK::S(s) if c.step => p!(format!("step({:?})", s)),
                VK::R(s, e) if c.range => { let (s, e) = rng(&s, &e)?; p!(format!("range_step({:x},{:x})", s, e)) }
                _ => return Err(OTHER),
            }
            return Ok(HS::Resume);
        }
        p!("clear_resume_actions".into());
        for a in acts {
            let (k, t) = a.ok_or(OTHER)?;
            let t = t.flatten();
            match k {
                VK::C(s) => if let Some(t) = t { p!(format!("set_continue({},{:?})", t, s)) },
                VK::S(s) if c.step => match t { Some(t) => p!(format!("set_step({},{:?})", t, s)), None => return Err(OTHER) },
                VK::R(s, e) if c.range => match t { Some(t) => { let (s, e) = rng(&s, &e)?; p!(format!("set_range_step({},{:x},{:x})", t, s, e)) } None => return Err(OTHER) },
                _ => return Err(OTHER),
            }
        }
        p!("mt_resume".into());
        Ok(HS::Resume)
    }
}
#[derive(Clone, Debug)]
pub enum VK { C(Option<u8>), S(Option<u8>), R(Vec<u8>, Vec<u8>), T }
fn vact(a: &[u8]) -> Option<(VK, Option<Option<usize>>)> {
    let p = split(a, b":");
    let t = match p.get(1) {
        None => None,
        Some(t) => { let (pid, t) = ptid(t)?; if pid == Some(Id::Any) { return None } Some(match t { Id::All | Id::Any => None, Id::Id(t) => Some(t) }) }
    };
    let k = p[0];
    let sig = |s: &[u8]| dnum(s, 255).map(|s| Some(s as u8));
    Some((match k.first()? {
        b'c' if k.len() == 1 => VK::C(None), b's' if k.len() == 1 => VK::S(None), b't' if k.len() == 1 => VK::T,
        b'C' => VK::C(sig(&k[1..])?), b'S' => VK::S(sig(&k[1..])?),
        b'r' => { let q = split(&k[1..], b","); VK::R(q[0].to_vec(), q.get(1)?.to_vec()) }
        _ => return None,
    }, t))
}
fn arglist(a: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    for x in split(a, b";") { let d = dbuf(x)?; if !d.is_empty() { v.push(d) } }
    Some(v)
}
fn lreg(w: &mut W, r: Option<LReg>) {
    let r = match r { None => { w.s("E45"); return } Some(r) => r };
    w.s(&format!("name:{}", r.name));
    if let Some(a) = &r.alt { w.s(&format!(";alt-name:{}", a)) }
    w.s(&format!(";bitsize:{};offset:{};encoding:{};format:{};set:{}", r.bitsize, r.offset, enc_of(r.enc).1, fmt_of(r.fmt).1, r.set));
    if let Some(g) = r.gcc { w.s(&format!(";gcc:{}", g)) }
    if let Some(g) = r.dwarf { w.s(&format!(";dwarf:{}", g)) }
    if let Some(g) = r.gen { w.s(&format!(";generic:{}", gen_of(g).1)) }
    let mut l = |n: &str, v: &Option<Vec<usize>>| if let Some(v) = v { if !v.is_empty() { w.s(n) } for (i, x) in v.iter().enumerate() { if i > 0 { w.s(",") } w.n(*x as u64) } };
    l(";container-regs:", &r.cont);
    l(";invalidate-regs:", &r.inv);
    w.s(";");
}

#[derive(Clone, Debug)]
pub enum Cmd {
    Simple(&'static str), Flag(&'static str, bool), OptPid(&'static str, Option<usize>), Buf(&'static str, Vec<u8>), Num(&'static str, u64),
    Hh(bool, Id), Tt(Id), Mem(Vec<u8>, usize), Wr(Vec<u8>, Vec<u8>), Sup(Vec<Vec<u8>>), Xfer(&'static str, Vec<u8>, u64, usize), VQ, VC(Vec<u8>), PP(usize, Vec<u8>),
    Env(Vec<u8>, Option<Vec<u8>>), Run(Option<Vec<u8>>, Vec<Vec<u8>>), Open(Vec<u8>, u32, u32), Pread(u32, usize, u64), Pwrite(u32, Vec<u8>, Vec<u8>),
    Catch(Option<Option<Vec<Vec<u8>>>>), Bp(bool, u8, Vec<u8>, Vec<u8>),
    TNew(usize, Vec<u8>, bool, u64, u64, Option<u8>, bool), TExt(usize, Vec<u8>, Vec<u8>), TSrc(usize, Vec<u8>, &'static str, u32, u32, Vec<u8>), TConf(String), TFrame(&'static str, u64, Vec<Vec<u8>>), TBuf(u64, usize), TPs(usize, Vec<u8>),
}
