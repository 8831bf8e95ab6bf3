//! Generators: configurations, well-formed commands with edge-biased
//! arguments, mutations, sessions.
use crate::drive::*;
use crate::mock::*;
use crate::model::*;
use crate::rng::Rng;
use gdbstub::target::ext::breakpoints::WatchKind;

pub fn cfg(r: &mut Rng, prop: &str) -> Cfg {
    let p = |r: &mut Rng, k| r.p(k);
    let dense = r.of(&[50usize, 85, 85, 100]);
    let mut c = Cfg {
        seed: r.next() % 1000, arch: r.n(5) as u8, multi: r.p(50), threads: vec![],
        resume: p(r, 80), step: p(r, 70), range: p(r, 60), rcont: p(r, 50), rstep: p(r, 50),
        sra: p(r, dense), bp: p(r, dense), sw: p(r, 75), hw: p(r, 75), watch: p(r, 75),
        ext: p(r, 50), aslr: p(r, 70), env: p(r, 70), shell: p(r, 70), wd: p(r, 70), pid: p(r, 70),
        hio: p(r, dense), hio_m: if r.p(60) { 255 } else { r.next() as u8 },
        tp: p(r, dense), tpsrc: p(r, 70), catch: p(r, dense), mon: p(r, dense), mon_rle: true, secoff: p(r, dense), xmlovr: p(r, 30), lldbovr: p(r, 50),
        memmap: p(r, dense), exec: p(r, dense), auxv: p(r, dense), libs: p(r, dense), extra: p(r, 70),
        use_noack: p(r, 70), use_x: p(r, 80), use_stub: p(r, 60), use_rle: p(r, 60), use_xml: p(r, 80), use_lldb: p(r, 70),
        err_at: usize::MAX, err: TE::NonFatal, hio_errno: r.of(&[1u32, 2, 4, 9, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 91, 9999]),
        mem_hi: u64::MAX, read_cap: if r.p(30) { 1 + r.n(20) } else { 0 }, lie: false,
        reg_mode: r.of(&[0u8, 0, 0, 0, 1, 2, 3]), xfer_len: r.of(&[0usize, 1, 2, 5, 100, 700, 5000, 20000]), args_take: r.of(&[0usize, 1, 2, 100, 100, 100]),
        variant: r.next() % 64,
        buf: BufKind::Default, conn_fail_at: usize::MAX, conn_once: false, late: false,
    };
    for _ in 0..r.of(&[1usize, 1, 2, 3, 5]) { let t = r.of(&[1usize, 2, 3, 9, 15, 16, 255, 256, 0x7fff, 65536, usize::MAX]); if !c.threads.contains(&t) { c.threads.push(t) } }
    if r.p(4) { c.threads.clear() }
    if r.p(30) { let u = umax_of(c.arch); c.mem_hi = r.of(&[0, 1, 15, 0xff, 0x100, u / 2, u - 1, u]).min(u) }
    c.buf = match r.n(6) { 0 => BufKind::Owned(r.of(&[0usize, 1, 4, 16, 40, 100, 256, 600, 4096])), 1 => BufKind::Borrowed(r.of(&[64usize, 100, 128, 600, 1000, 4096]), None), 2 => { let k = r.of(&[64usize, 99, 200, 600, 4096]); BufKind::Borrowed(k + r.n(50), Some(k)) } _ => BufKind::Default };
    if prop == "P20" || r.p(15) {
        c.err_at = r.n(if prop == "P20" { 6 } else { 10 });
        c.err = match r.n(6) { 0 => TE::NonFatal, 1 => TE::Errno(r.of(&[0u8, 1, 9, 10, 15, 16, 22, 99, 100, 121, 255])), 2 => TE::Io(Some(r.of(&[1i32, 2, 22, 110, 255]))), 3 => TE::Io(None), _ => TE::Fatal(r.n(1000) as u32) };
    }
    if prop == "P20" && r.p(30) || r.p(3) { c.conn_fail_at = if r.p(50) { r.of(&[0usize, 1, 2, 3, 5, 8, 20, 100]) } else { r.n(400) }; c.conn_once = r.p(50) }
    if (prop == "P20" || prop == "P13" || prop == "P08" || prop == "P12" || prop == "P22") && r.p(8) || r.p(2) { c.lie = true }
    let on = r.p(93);
    match prop {
        "P26" => { c.arch = 5 + r.n(4) as u8 }
        "P12" => { c.use_x = on; }
        "P13" => { c.sra = on; if r.p(60) { c.multi = true } }
        "P14" => { c.bp = on; }
        "P15" => { c.resume = on; }
        "P16" | "P17" => { c.resume = true; c.bp = on; c.catch = p(r, 80); if r.p(60) { c.rcont = true } if prop == "P17" { c.use_x = true } }
        "P21" => { c.ext = on; }
        "P22" => { c.hio = on; }
        "P23" => { c.tp = on; }
        "P24" => { c.buf = match r.n(4) { 0 => BufKind::Owned(r.n(6000)), 1 => BufKind::Borrowed(1 + r.n(2000), None), 2 => { let k = 1 + r.n(2000); BufKind::Borrowed(k + r.n(50), Some(k)) } _ => BufKind::Default } }
        "P25" => { c.mon = on; c.catch = r.p(90); c.secoff = r.p(90); if r.p(50) { c.multi = true; c.extra = true } c.use_lldb = on; if r.p(70) { c.resume = true; c.rstep = true; c.rcont = true } }
        "P05" => { c.buf = match r.n(4) { 0 => BufKind::Owned(r.n(40)), 1 => BufKind::Borrowed(r.n(60), None), 2 => { let k = r.n(60); BufKind::Borrowed(k + r.n(50), Some(k)) } _ => BufKind::Default } }
        "P08" => { c.memmap = on; c.auxv = on; c.exec = on; c.libs = on; c.use_xml = on; c.hio = on }
        "P18" => { c.use_noack = on }
        _ => {}
    }
    c
}

// ---- argument generators
fn hexs(r: &mut Rng, v: u64) -> String {
    let mut s = format!("{:x}", v);
    if r.p(15) { s = s.to_uppercase() }
    if r.p(15) { s = format!("{}{}", "0".repeat(1 + r.n(20)), s) }
    s
}
pub fn edge(r: &mut Rng, max: u64) -> u64 {
    let v = r.next();
    (match r.n(9) { 0 => 0, 1 => 1, 2 => max, 3 => max.wrapping_sub(1), 4 => v & 0xff, 5 => v & 0xffff, 6 => 1 << (v & 63), 7 => v >> (v & 63), _ => v % 16 }) & max
}
fn num(r: &mut Rng, max: u64) -> String {
    match r.n(60) {
        0 => String::new(),
        1 => format!("{:x}", max as u128 + 1),
        2 => format!("{:x}", (max as u128 + 1) * 2 + r.n(16) as u128),
        3 => "g".into(),
        4 => "-1".into(),
        5 => "x1".into(),
        6 => "fffffffffffffffffffffffffffffffffffff".into(),
        _ => { let v = edge(r, max); hexs(r, v) }
    }
}
#[allow(dead_code)]
fn small(r: &mut Rng) -> String { let v = r.of(&[0u64, 1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 255]); hexs(r, v) }
fn addr(r: &mut Rng, c: &Cfg) -> String {
    let u = umax_of(c.arch);
    match r.n(30) { 0 => num(r, u64::MAX), 1 => String::new(), 2 => format!("{:x}", u as u128 + 1), 3 => format!("1{:x}", u), _ => { let v = match r.n(4) { 0 => edge(r, u), 1 => u - r.n(20).min(u as usize) as u64, 2 => c.mem_hi.min(u).wrapping_sub(r.n(9) as u64) & u, _ => r.next() & u & 0xffff }; hexs(r, v) } }
}
pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.n(8) { 0 => 0, 1 => 1, 2 => 2, 3 => max, _ => r.n(max + 1) };
    let m = r.n(4);
    (0..n).map(|_| match m { 0 => r.next() as u8, 1 => r.of(&[b'#', b'$', b'}', b'*', 0, 3, b'+', 0xff]), 2 => 0, _ => if r.p(30) { r.of(&[b'#', b'$', b'}', b'*', 0, 0xff, b',', b':', b';', b'=']) } else { r.next() as u8 } }).collect()
}
fn hb(r: &mut Rng, max: usize) -> String {
    let b = bytes(r, max);
    let mut s = hx(&b);
    if r.p(6) { s.push('1') }
    if r.p(3) { s.push('z') }
    if r.p(10) { s = s.to_uppercase() }
    s
}
fn ascii_hb(r: &mut Rng) -> String { let k = r.n(10); (0..k).map(|_| format!("{:02x}", r.of(b"ab/.=; \x7f0"))).collect() }
fn pid(r: &mut Rng) -> String { match r.n(14) { 0 => "0".into(), 1 => "-1".into(), 2 => num(r, u64::MAX), 3 => String::new(), _ => { let v = r.of(&[1u64, 2, 3, 9, 15, 16, 255, 256, 0x7fff, 65536, u64::MAX]); hexs(r, v) } } }
pub fn tid(r: &mut Rng, c: &Cfg) -> String {
    let one = |r: &mut Rng| if r.p(60) && !c.threads.is_empty() { format!("{:x}", r.of(&c.threads)) } else { pid(r) };
    match r.n(10) { 0..=4 => one(r), 5..=7 => format!("p{}.{}", pid(r), one(r)), 8 => format!("p{}", pid(r)), _ => format!("p{}.{}.{}", pid(r), one(r), one(r)) }
}
fn bin(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut v = ebin(&bytes(r, max));
    if r.p(4) { v.push(b'}') }
    v
}
fn xf(r: &mut Rng, c: &Cfg) -> String {
    let o = r.of(&[0u64, 0, 0, 1, 5, 10, 99, 150, 200, 700, 5000, u64::MAX, u64::MAX - 1]);
    let l = r.of(&[0u64, 1, 2, 10, 30, 100, 4096, 4096, 0xffff, u64::MAX]);
    let _ = c;
    let (o, l) = if r.p(90) { (hexs(r, o), hexs(r, l)) } else { (num(r, u64::MAX), num(r, u64::MAX)) };
    format!("{},{}", o, l)
}

/// a (mostly) well-formed command body of the given name
pub fn cmd(r: &mut Rng, c: &Cfg, k: &str) -> Vec<u8> {
    let mut b: Vec<u8> = k.as_bytes().to_vec();
    let s: String = match k {
        "D" => match r.n(3) { 0 => String::new(), _ => format!(";{}", pid(r)) },
        "qAttached" => match r.n(3) { 0 => String::new(), _ => format!(":{}", pid(r)) },
        "vKill" | "vAttach" => format!(";{}", pid(r)),
        "G" => if r.p(75) { hx(&bytes(r, 12).into_iter().chain(std::iter::repeat(7)).take(12).collect::<Vec<_>>()) } else { hb(r, 14) },
        "H" => format!("{}{}", r.of(&["g", "c", "c", "g", "x", "m"]), match r.n(10) { 0..=4 => tid(r, c), 5 => "0".into(), 6 => "-1".into(), _ => pid(r) }),
        "T" => tid(r, c),
        "m" => {
            let a = addr(r, c);
            let big = umax_of(c.arch) <= 0xffff || c.mem_hi < 1 << 20;
            let l = match r.n(8) { 0 => 0, 1 => 1, 2 => 2, 3 | 4 => r.n(40) as u64, 5 => r.n(3000) as u64, 6 => r.n(6000) as u64, _ => if big { edge(r, u64::MAX) } else { r.n(300) as u64 } };
            if r.p(95) || !big { format!("{},{:x}", a, l) } else { format!("{},{}", a, num(r, if big { u64::MAX } else { 0xfff })) }
        }
        "M" => { let d = hb(r, 30); let l = if r.p(85) { format!("{:x}", d.len() / 2) } else { num(r, u64::MAX) }; format!("{},{}:{}", addr(r, c), l, d) }
        "X" => { let d = bin(r, 30); let l = if r.p(85) { format!("{:x}", d.len()) } else { num(r, u64::MAX) }; b.extend(format!("{},{}:", addr(r, c), l).bytes()); b.extend(d); String::new() }
        "qSupported" => { let k = 1 + r.n(4); format!(":{}", (0..k).map(|_| r.of(&["multiprocess+", "multiprocess+", "multiprocess-", "swbreak+", "xmlRegisters=i386", "qRelocInsn-", "foo?", "", "+", "-", "multiprocess", "multiprocess?", "multiprocess=1", "vContSupported+"])).collect::<Vec<_>>().join(";")) }
        "qXfer:features:read" => format!(":{}:{}", r.of(&["target.xml", "target.xml", "target.xml", "", "x.xml", "target.xmlx"]), xf(r, c)),
        "qXfer:memory-map:read" | "qXfer:auxv:read" | "qXfer:libraries-svr4:read" => format!(":{}:{}", r.of(&["", "", "", "", "", "", "", "a"]), xf(r, c)),
        "qXfer:exec-file:read" => format!(":{}:{}", if r.p(33) { String::new() } else { pid(r) }, xf(r, c)),
        "c" | "s" => if r.p(70) { String::new() } else { addr(r, c) },
        "vCont" => if r.p(8) { r.of(&["?", "", "?x"]).into() } else {
            let n = 1 + r.n(if c.multi { 3 } else { 2 });
            (0..n).map(|i| {
                let a = if i > 0 && !c.multi { r.of(&["c", "c", "s", "t"]).to_string() } else { match r.n(9) { 0..=1 => "c".into(), 2 | 3 => "s".into(), 4 => format!("C{}", num(r, 255)), 5 => format!("S{}", num(r, 255)), 6 => format!("r{},{}", addr(r, c), addr(r, c)), 7 => r.of(&["t", "q", "", "cc", "s1", "r1", "r,"]).into(), _ => "c".into() } };
                if r.p(70) { format!(";{}:{}", a, tid(r, c)) } else { format!(";{}", a) }
            }).collect()
        },
        "p" => if r.p(85) { format!("{:x}", r.of(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x1f, 0x1f])) } else { num(r, u64::MAX) },
        "P" => format!("{}={}", if r.p(85) { format!("{:x}", r.of(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x1f])) } else { num(r, u64::MAX) }, hb(r, 12)),
        "QDisableRandomization" | "QStartupWithShell" => r.of(&[":0", ":1", ":1", ":2", "", ":", ":00", "1"]).into(),
        "QEnvironmentHexEncoded" => format!(":{}", match r.n(5) { 0 => hb(r, 8), 1 => hx(b"A="), 2 => hx(b"=x"), _ => format!("{}3d{}", ascii_hb(r), ascii_hb(r)) }),
        "QEnvironmentUnset" | "QSetWorkingDir" => format!(":{}", if r.p(70) { ascii_hb(r) } else { hb(r, 8) }),
        "R" => r.of(&["00", "12", "00", "", "0", "000"]).into(),
        "vRun" => { let n = r.n(4); format!(";{}{}", if r.p(70) { ascii_hb(r) } else { hb(r, 6) }, (0..n).map(|_| format!(";{}", if r.p(80) { ascii_hb(r) } else { hb(r, 6) })).collect::<String>()) }
        "qRcmd" => if r.p(10) { String::new() } else { format!(",{}", hb(r, 12)) },
        "vFile:open" => format!(":{},{},{}", ascii_hb(r), if r.p(85) { format!("{:x}", r.of(&[0u32, 1, 2, 8, 0x200, 0x400, 0x800, 0xe0b, 0x601, 0xf0000000])) } else { num(r, u32::MAX as u64) }, if r.p(85) { format!("{:x}", r.of(&[0u32, 0o777, 0o644, 0o40000, 0o100644, 0o140777])) } else { num(r, u32::MAX as u64) }),
        "vFile:close" | "vFile:fstat" => format!(":{}", num(r, u32::MAX as u64)),
        "vFile:pread" => format!(":{},{},{}", num(r, u32::MAX as u64), if r.p(70) { format!("{:x}", r.of(&[0u64, 1, 10, 100, 5000, u64::MAX])) } else { num(r, u64::MAX) }, if r.p(70) { format!("{:x}", r.of(&[0u64, 1, 10, 100, 699, 5000])) } else { num(r, u64::MAX) }),
        "vFile:pwrite" => { b.extend(format!(":{},{},", num(r, u32::MAX as u64), addr(r, c)).bytes()); b.extend(bin(r, 20)); String::new() }
        "vFile:unlink" | "vFile:readlink" => format!(":{}", if r.p(80) { ascii_hb(r) } else { hb(r, 10) }),
        "vFile:setfs" => format!(":{}", num(r, u64::MAX)),
        "QCatchSyscalls" => match r.n(5) { 0 => ":0".into(), 1 => ":1".into(), 2 => r.of(&[":2", "", ":1;", ":0;1", ":11"]).into(), _ => { let n = 1 + r.n(4); format!(":1{}", (0..n).map(|_| format!(";{}", addr(r, c))).collect::<String>()) } },
        "qThreadExtraInfo" => format!(",{}", tid(r, c)),
        "qRegisterInfo" => if r.p(80) { format!("{:x}", r.n(20)) } else { num(r, u64::MAX) },
        "z" | "Z" => {
            let t = if r.p(92) { format!("{}", r.n(5)) } else { num(r, 255) };
            let base = format!("{},{},{}", t, addr(r, c), if r.p(80) { format!("{:x}", r.of(&[0usize, 1, 2, 3, 4, 4, 5, 8, 0x100, 0x104])) } else { num(r, u64::MAX) });
            if r.p(15) { base + r.of(&[";X1,22", ";cmds:0,X1,22", ";", ";X3,2222", ",1"]) } else { base }
        }
        "QTDP" => {
            if r.p(50) { format!(":{}:{}:{}:{}:{}{}{}", num(r, u64::MAX), addr(r, c), r.of(&["E", "D", "E", "D", "X", ""]), num(r, u64::MAX), num(r, u64::MAX), if r.p(15) { r.of(&[":F5", ":S", ":S1", ":F5:S1", ":X1,22", ":Q", ":"]) } else { "" }, if r.p(40) { "-" } else { "" }) }
            else { let n = r.n(4); format!(":-{}:{}:{}{}", num(r, u64::MAX), addr(r, c), (0..n).map(|_| match r.n(8) { 0..=3 => format!("R{}", hb(r, 4)), 4..=6 => { let d = bytes(r, 6); let l = d.len(); let l = if r.p(85) { format!("{:x}", l) } else { r.of(&["0".to_string(), "ff".into(), "8000000000000000".into(), "8000000000000001".into(), "ffffffffffffffff".into(), format!("{:x}", l + 1), "z".into()]) }; format!("X{},{}", l, hx(&d)) } _ => r.of(&["M0,1,2", "S", "Q", "X", "X1"]).into() }).collect::<String>(), if r.p(40) { "-" } else { "" }) }
        }
        "QTDPsrc" => format!(":{}:{}:{}:{}:{}:{}{}", num(r, u64::MAX), addr(r, c), r.of(&["at", "cond", "cmd", "at", "x", ""]), num(r, u32::MAX as u64), num(r, u32::MAX as u64), hb(r, 8), r.of(&["", "", "", ":x", ":"])),
        "QTBuffer" => match r.n(3) { 0 => format!(":circular:{}", r.of(&["0", "1", "1", "2", ""])), 1 => format!(":size:{}", if r.p(30) { "-1".into() } else { num(r, u64::MAX) }), _ => r.of(&[":", ":size", ":foo:1", ":circular", ":size:-2"]).into() },
        "QTFrame" => match r.n(6) { 0 => format!(":pc:{}", addr(r, c)), 1 => format!(":tdp:{}", num(r, u64::MAX)), 2 => format!(":range:{}:{}", addr(r, c), addr(r, c)), 3 => format!(":outside:{}:{}", addr(r, c), addr(r, c)), 4 => format!(":{}", num(r, u64::MAX)), _ => r.of(&[":", ":pc", ":range:1", ":foo"]).into() },
        "qTBuffer" => format!(":{},{}", num(r, u64::MAX), num(r, u64::MAX)),
        "qTP" => format!(":{}:{}", num(r, u64::MAX), addr(r, c)),
        _ => if r.p(3) { "1".into() } else { String::new() },
    };
    b.extend(s.bytes());
    b
}
/// bytes that cannot occur inside a packet the client sends
fn clean(b: &mut Vec<u8>) { for c in b.iter_mut() { if matches!(*c, b'#') { *c = b'"' } } }
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.n(3) {
        match r.n(6) {
            0 if !b.is_empty() => { let i = r.n(b.len()); b[i] = r.of(b"0123456789abcdefxXF,:;=-p.?+*}$\x00\xff") }
            1 if !b.is_empty() => { let i = r.n(b.len()); b.remove(i); }
            2 => { let i = r.n(b.len() + 1); b.insert(i, r.of(b"019afx,:;=-p.+}$\x03\xff")) }
            3 => { let n = r.n(b.len() + 1); b.truncate(n) }
            4 if !b.is_empty() => { let i = r.n(b.len()); let c = b[i]; for _ in 0..r.n(20) { b.insert(i, c) } }
            _ => { let i = r.n(b.len().max(1)); if i < b.len() { b[i] = r.next() as u8 } }
        }
    }
    clean(b)
}
/// `nocost`: an `m` request the target would answer for ever is not sent
pub fn harmless(c: &Cfg, body: &[u8]) -> bool {
    if body.first() != Some(&b'm') { return true }
    let p: Vec<&[u8]> = body[1..].split(|c| *c == b',').collect();
    match p.get(1).and_then(|l| dnum(l, u64::MAX)) { Some(l) if l > 8000 => umax_of(c.arch) <= 0xffff || c.mem_hi < 1 << 17, _ => true }
}
pub fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b'$'];
    v.extend_from_slice(b);
    v.extend(format!("#{:02x}", b.iter().fold(0u8, |a, x| a.wrapping_add(*x))).bytes());
    v
}
pub fn stop(r: &mut Rng, c: &Cfg) -> (SR, bool) {
    let u = umax_of(c.arch);
    let single = r.p(35);
    let t = if single { 1 } else { if r.p(15) { 1 + r.n(300) } else { r.of(&[1usize, 1, 2, 9, 15, 16, 255, 65536, usize::MAX]) } };
    let ot = if single || r.p(40) { None } else { Some(t) };
    let sig = if r.p(60) { { let m = if r.p(60) { 152 } else { 256 }; r.n(m) as u8 } } else { r.of(&[0u8, 2, 5, 9, 10, 11, 15, 16, 99, 100, 145, 255]) };
    let a = edge(r, u);
    (match r.n(12) {
        0 => SR::DoneStep, 1 => SR::Exited(sig), 2 => SR::Terminated(sig), 3 => SR::Signal(sig), 4 => SR::SigThread(t, sig), 5 => SR::Sw(t), 6 => SR::Hw(t),
        7 | 8 => SR::Watch(t, r.of(&[WatchKind::Read, WatchKind::Write, WatchKind::ReadWrite]), a),
        9 => SR::Replay(ot, r.p(50)), _ => SR::Catch(ot, a, r.p(50)),
    }, single)
}

pub struct Focus { pub cmds: Vec<&'static str>, pub own: usize, pub mutate: usize, pub ctl: usize, pub raw: usize, pub unknown: usize }
pub fn focus(prop: &str) -> Focus {
    let all: Vec<&'static str> = {
        let m = Model::new(std::rc::Rc::new(cfg(&mut Rng(1), "")), 0, true, true);
        let mut v: Vec<_> = m.names().iter().map(|n| n.0).collect();
        v.dedup();
        v
    };
    let pre = |ps: &[&str]| all.iter().copied().filter(|n| ps.iter().any(|p| n.starts_with(p))).collect::<Vec<_>>();
    let mut f = Focus { cmds: all.clone(), own: 85, mutate: 5, ctl: 25, raw: 1, unknown: 3 };
    match prop {
        "P01" => f.mutate = 2,
        "P02" => f.cmds = vec!["qRegisterInfo", "qOffsets", "qTP", "qTfP", "qTsP", "qTStatus", "QTFrame", "p", "g", "vFile:open", "vFile:fstat", "vFile:pread", "vFile:pwrite", "qfThreadInfo", "?", "qC", "qXfer:auxv:read", "qXfer:memory-map:read", "qSupported", "m", "qThreadExtraInfo", "qTBuffer"],
        "P03" => { f.cmds = vec!["X", "vFile:pwrite", "M", "G", "P", "qRcmd", "vRun", "QSetWorkingDir", "QEnvironmentHexEncoded", "vFile:unlink", "vFile:open", "QTDP", "QTDPsrc", "QCatchSyscalls", "vFile:setfs", "vFile:close", "z", "p", "qTBuffer"]; f.mutate = 30 }
        "P04" => { f.cmds = vec!["m", "M", "z", "Z", "X", "QCatchSyscalls", "qTP", "vFile:pwrite", "QTFrame", "qOffsets", "vCont"] }
        "P05" => { f.raw = 50; f.mutate = 10 }
        "P06" => { f.raw = 15; f.mutate = 15; f.unknown = 25 }
        "P07" => { f.cmds = vec!["H", "T", "vCont", "qThreadExtraInfo", "qAttached", "D", "vAttach", "vKill", "qXfer:exec-file:read"]; f.mutate = 30 }
        "P08" => f.cmds = pre(&["qXfer", "vFile:pread", "vFile:readlink"]),
        "P09" => { f.mutate = 50; f.unknown = 20 }
        "P12" => f.cmds = vec!["m", "m", "m", "M", "X", "H"],
        "P13" => f.cmds = vec!["g", "G", "p", "p", "p", "P", "P", "H"],
        "P14" => { f.cmds = vec!["z", "Z", "Z"]; f.mutate = 10 }
        "P15" => { f.cmds = vec!["vCont", "vCont", "vCont", "vCont", "c", "s", "H", "H"]; f.unknown = 6 }
        "P16" => { f.cmds = vec!["c", "s", "vCont", "H", "qSupported", "m", "?", "g"]; f.ctl = 30; f.mutate = 1 }
        "P17" => { f.cmds = vec!["c", "s", "vCont", "D", "k", "vKill", "g", "m", "?", "bc"]; f.ctl = 45; f.raw = 10 }
        "P18" => { f.unknown = 8; f.cmds.extend(["QStartNoAckMode"; 10]) }
        "P19" => { f.cmds.extend(["qSupported"; 40]); }
        "P21" => f.cmds = vec!["H", "T", "qfThreadInfo", "qsThreadInfo", "qC", "qAttached", "D", "k", "vKill", "?", "!", "R", "vRun", "vRun", "vAttach", "QDisableRandomization", "QEnvironmentHexEncoded", "QEnvironmentUnset", "QEnvironmentReset", "QSetWorkingDir", "QStartupWithShell", "qSupported"],
        "P22" => f.cmds = pre(&["vFile"]),
        "P23" => { f.cmds = pre(&["QT", "qT"]); f.cmds.retain(|c| *c != "qThreadExtraInfo"); f.cmds.extend(["qTsP"; 8]); f.cmds.extend(["QTDP"; 4]) }
        "P24" => f.cmds = vec!["qSupported", "g", "m"],
        "P25" => f.cmds = vec!["qOffsets", "qRcmd", "qRcmd", "QCatchSyscalls", "QCatchSyscalls", "qThreadExtraInfo", "qRegisterInfo", "qRegisterInfo", "bc", "bs", "bs", "H", "qXfer:features:read"],
        _ => {}
    }
    f
}
/// next command body
pub fn body(r: &mut Rng, c: &Cfg, m: &Model, f: &Focus) -> Vec<u8> {
    if r.p(f.unknown) {
        return r.of(&[&b""[..], b"vMustReplyEmpty", b"qSymbol::", b"C05", b"S05", b"c", b"s", b"vCont;c", b"x0,1", b"j", b"!", b"A", b"b1", b"B", b"d", b"e", b"F", b"i", b"I", b"t", b"y", b"qTraceX", b"QPassSignals:", b"vfoo", b"q", b"Q", b"v", b"qXfer:foo:read::0,1", b"QNonStop:1", b"\xff", b"z9,1,1"]).to_vec();
    }
    let k = if r.p(f.own) { r.of(&f.cmds) } else { let v: Vec<_> = m.names(); r.of(&v).0 };
    let mut b = cmd(r, c, k);
    if r.p(f.mutate) { mutate(r, &mut b) }
    clean(&mut b);
    if !harmless(c, &b) { b = b"?".to_vec() }
    b
}
/// stimuli for the current state
pub fn stimulus(r: &mut Rng, c: &Cfg, m: &Model, f: &Focus) -> Vec<Step> {
    let by = |v: Vec<u8>| v.into_iter().map(Step::Byte).collect::<Vec<_>>();
    match &m.st {
        St::Disc(_) => vec![Step::ToIdle],
        St::CtrlC { .. } => vec![Step::Interrupt(if r.p(30) { None } else { Some(stop(r, c)) })],
        St::Running if r.p(75) => { let (s, g) = stop(r, c); vec![Step::Report(s, g)] }
        _ => {
            if r.p(f.ctl / 3) { return by(vec![3]) }
            if r.p(5) { return by(vec![b'+']) }
            if r.p(f.raw) {
                let mut v = frame(&body(r, c, m, f));
                match r.n(9) {
                    0 => { let n = v.len(); v[n - 1] = r.of(b"0123456789abcdefXxg#$") }
                    1 => { let n = v.len(); v[n - 2] = r.of(b"0123456789abcdefXxg#$") }
                    2 => v = r.of(&[&b"-"[..], b"\x00", b"x", b"#", b"++", b"+\x03"]).to_vec(),
                    3 => { v = vec![b'$']; v.extend(vec![b'a'; r.n(300)]) }
                    4 => { let n = v.len(); v[n - 2..].make_ascii_uppercase() }
                    5 => { let mut w = vec![b'+'; 1 + r.n(3)]; w.extend(v); v = w }
                    6 => { let i = r.n(v.len()); v.insert(i, r.of(b"$#\x03+-")) }
                    7 => { let mut b = body(r, c, m, f); let i = r.n(b.len() + 1); b.insert(i, r.next() as u8); b.insert(i, b'$'); clean(&mut b); v = frame(&b) }
                    _ => { let k = r.n(80); let mut b: Vec<u8> = (0..k).map(|_| r.next() as u8).collect(); clean(&mut b); if harmless(c, &b) { v = frame(&b) } }
                }
                return by(v);
            }
            by(frame(&body(r, c, m, f)))
        }
    }
}
/// which properties speak about a step
pub fn owners(s: &Step, body: Option<&str>) -> Vec<&'static str> {
    let k = match s { Step::Byte(3) if body.is_none() => return vec!["P17", "P05"], Step::Byte(_) => match body { None => return vec!["P05", "P06"], Some(k) => k }, Step::Report(..) => return vec!["P16", "P17"], _ => return vec!["P17", "P16"] };
    let mut v = vec![];
    let mut a = |on: bool, p: &'static str| if on { v.push(p) };
    let is = |l: &[&str]| l.contains(&k);
    a(is(&["m", "M", "X"]), "P12");
    a(is(&["g", "G", "p", "P"]), "P13");
    a(is(&["z", "Z"]), "P14");
    a(is(&["vCont", "c", "s"]), "P15");
    a(k.is_empty() || is(&["c", "s", "vCont"]), "P15");
    a(is(&["qSupported"]), "P19");
    a(is(&["qSupported"]), "P24");
    a(k.is_empty(), "P19");
    a(is(&["H", "T", "qfThreadInfo", "qsThreadInfo", "qC", "qAttached", "D", "k", "vKill", "?", "!", "R", "vRun", "vAttach", "QDisableRandomization", "QEnvironmentHexEncoded", "QEnvironmentUnset", "QEnvironmentReset", "QSetWorkingDir", "QStartupWithShell"]), "P21");
    a(k.starts_with("vFile"), "P22");
    a(k.starts_with("QT") || k.starts_with("qT") && k != "qThreadExtraInfo", "P23");
    a(is(&["qOffsets", "qRcmd", "QCatchSyscalls", "qThreadExtraInfo", "qRegisterInfo", "bc", "bs"]), "P25");
    a(k.starts_with("qXfer"), "P08");
    a(is(&["H", "T", "vCont", "qThreadExtraInfo", "qAttached", "D", "vAttach", "vKill", "qXfer:exec-file:read"]), "P07");
    a(is(&["k", "vKill", "D", "c", "s", "vCont", "bc", "bs"]), "P17");
    a(is(&["X", "vFile:pwrite", "M", "G", "P", "qRcmd", "vRun", "QSetWorkingDir", "QEnvironmentHexEncoded", "vFile:unlink", "vFile:open", "QTDP", "QTDPsrc", "QCatchSyscalls", "vFile:setfs", "vFile:close", "z", "Z", "p", "qTBuffer"]), "P03");
    a(is(&["m", "M", "z", "Z", "X", "QCatchSyscalls", "qTP", "vFile:pwrite", "QTFrame", "qOffsets", "vCont"]), "P04");
    v.extend(["P01", "P02", "P06", "P09", "P18", "P20"]);
    v
}
