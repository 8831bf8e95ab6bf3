//! Checks that call the library directly rather than through a session.
use crate::drive::guard;
use crate::mock::*;
use crate::rng::Rng;
use crate::{Stats, Violation};
use gdbstub::arch::{BreakpointKind, RegId, Registers};
use gdbstub::internal::{BeBytes, LeBytes};
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

pub fn sessions_for(prop: &str) -> bool { !matches!(prop, "P10" | "P11") }
type Res = Result<(), String>;
struct Cx<'a> { st: &'a mut Stats }
impl Cx<'_> {
    fn ev(&mut self, what: &impl Hash) {
        self.st.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        what.hash(&mut h);
        self.st.distinct.insert(h.finish());
    }
    fn sample(&mut self, s: String) { if self.st.samples.len() < 3 { self.st.samples.push(s) } }
}

pub fn run(prop: &str, seed: u64, ms: u64, st: &mut Stats) -> Option<Violation> {
    let share = match prop { "P10" | "P11" => 100, "P04" => 50, "P26" | "P17" | "P21" | "P24" => 20, "P23" => 5, "P16" | "P18" | "P20" | "P22" => 2, "P05" => 12, _ => return None };
    let end = Instant::now() + Duration::from_millis(ms * share / 100);
    let mut s = seed;
    loop {
        let mut r = Rng(s);
        let mut cx = Cx { st };
        let x = guard(|| match prop {
            "P04" => bytes(&mut r, &mut cx),
            "P05" => big(&mut r, &mut cx),
            "P10" => regs(&mut r, &mut cx),
            "P11" => ids(&mut r, &mut cx, s == seed),
            "P16" => signals(&mut cx),
            "P17" => crate::blocking::run(&mut r).map(|n| { cx.st.evals += n.0; cx.st.distinct.extend(n.1); }),
            "P18" => sockets(&mut r, &mut cx),
            "P20" => origins(&mut cx),
            "P22" => hio_errors(&mut cx),
            "P21" => alive(&mut r, &mut cx),
            "P23" => late(&mut r, &mut cx),
            "P24" => builder(&mut r, &mut cx),
            "P26" => dynfwd(&mut cx),
            _ => unreachable!(),
        });
        let e = match x { Ok(Ok(())) => None, Ok(Err(m)) => Some(("Direct", m)), Err(p) => Some(("Panic", format!("panic: {}", p))) };
        if let Some((k, m)) = e { return Some(Violation { seed: s, kind: k.into(), msg: m.clone(), script: vec![m] }) }
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        if Instant::now() >= end || matches!(prop, "P16" | "P20" | "P22" | "P26") { return None }
    }
}

// ---------------------------------------------------------------- P04
macro_rules! width {
    ($r:expr, $cx:expr, $t:ty, $u:ty) => {{
        let (r, cx) = (&mut *$r, &mut *$cx);
        const N: usize = std::mem::size_of::<$t>();
        let hi = (r.next() as u128) << 64;
        let raw: u128 = hi | r.next() as u128;
        let v: $t = match r.n(6) { 0 => 0 as $t, 1 => <$t>::MAX, 2 => <$t>::MIN, 3 => (raw as $t) & 0xf, 4 => (1 as $t) << (r.n(8 * N) as u32), _ => raw as $t };
        let le: Vec<u8> = (0..N).map(|i| ((v as $u) >> (4 * i) >> (4 * i)) as u8).collect();
        let be: Vec<u8> = le.iter().rev().copied().collect();
        for n in 0..N + 4 {
            cx.ev(&(stringify!($t), v, n));
            let mut b = vec![0xA5u8; n];
            let x = BeBytes::to_be_bytes(v, &mut b);
            let mut c = vec![0xA5u8; n];
            let y = LeBytes::to_le_bytes(v, &mut c);
            if n < N {
                if x.is_some() || y.is_some() { return Err(format!("{}: {} to bytes with a buffer of {} gave {:?} / {:?}, expected a refusal", stringify!($t), v, n, x, y)) }
            } else {
                if x != Some(N) || b[..N] != be[..] || b[N..].iter().any(|b| *b != 0xA5) { return Err(format!("{}: {} to big-endian bytes, buffer {}: {:?} {:?}", stringify!($t), v, n, x, b)) }
                if y != Some(N) || c[..N] != le[..] || c[N..].iter().any(|b| *b != 0xA5) { return Err(format!("{}: {} to little-endian bytes, buffer {}: {:?} {:?}", stringify!($t), v, n, y, c)) }
            }
        }
        if <$t as BeBytes>::from_be_bytes(&be) != Some(v) { return Err(format!("{}: {} does not survive the big-endian round trip", stringify!($t), v)) }
        if <$t as LeBytes>::from_le_bytes(&le) != Some(v) { return Err(format!("{}: {} does not survive the little-endian round trip", stringify!($t), v)) }
        // any length in: the value if it fits
        let n = r.n(N + 4);
        let z = r.n(3);
        let s: Vec<u8> = (0..n).map(|_| if z == 0 { r.next() as u8 } else if r.p(60) { 0 } else { r.of(&[1u8, 0x7f, 0x80, 0xff, r.0 as u8]) }).collect();
        let val = |it: &mut dyn Iterator<Item = u8>| -> Option<$t> { let mut v: $u = 0; let mut over = false; for b in it { if N == 1 { over |= v != 0; v = b as $u } else { over |= v >> (8 * N - 8) != 0; v = (v << 4 << 4) | b as $u } } if over { None } else { Some(v as $t) } };
        let wb = val(&mut s.iter().copied());
        let wl = val(&mut s.iter().rev().copied());
        if <$t as BeBytes>::from_be_bytes(&s) != wb { return Err(format!("{}: from big-endian bytes {:02x?}: expected {:?}, got {:?}", stringify!($t), s, wb, <$t as BeBytes>::from_be_bytes(&s))) }
        if <$t as LeBytes>::from_le_bytes(&s) != wl { return Err(format!("{}: from little-endian bytes {:02x?}: expected {:?}, got {:?}", stringify!($t), s, wl, <$t as LeBytes>::from_le_bytes(&s))) }
        cx.sample(format!("{} {} be {:02x?}; bytes {:02x?} -> be {:?} le {:?}", stringify!($t), v, be, s, wb, wl));
    }};
}
fn bytes(r: &mut Rng, cx: &mut Cx) -> Res {
    width!(r, cx, u8, u8); width!(r, cx, u16, u16); width!(r, cx, u32, u32); width!(r, cx, u64, u64); width!(r, cx, u128, u128); width!(r, cx, usize, usize);
    width!(r, cx, i8, u8); width!(r, cx, i16, u16); width!(r, cx, i32, u32); width!(r, cx, i64, u64); width!(r, cx, i128, u128); width!(r, cx, isize, usize);
    Ok(())
}

// ---------------------------------------------------------------- P10
type L = Vec<Option<u8>>;
fn le(l: &mut L, v: u128, n: usize) { for i in 0..n { l.push(Some((v >> (8 * i)) as u8)) } }
fn be(l: &mut L, v: u128, n: usize) { for i in (0..n).rev() { l.push(Some((v >> (8 * i)) as u8)) } }
fn w(r: &mut Rng) -> u128 { match r.n(8) { 0 => 0, 1 => u128::MAX, _ => ((r.next() as u128) << 64) | r.next() as u128 } }
/// what lengths a reader has to accept: at least / exactly the layout
#[derive(PartialEq)]
enum Len { AtLeast(usize), Exact }
fn check<R: Registers + Default + Clone + PartialEq + std::fmt::Debug>(name: &str, r: &mut Rng, cx: &mut Cx, a: R, junk: R, lay: L, len: Len) -> Res {
    let mut got: L = vec![];
    a.gdb_serialize(|b| got.push(b));
    cx.ev(&(name, &got));
    if got != lay {
        let i = got.iter().zip(&lay).position(|(a, b)| a != b).unwrap_or(got.len().min(lay.len()));
        return Err(format!("{}: serialised register block differs from the documented layout at byte {} (lengths {} and {}; got {:?}, expected {:?}) for {:?}", name, i, got.len(), lay.len(), got.get(i), lay.get(i), a));
    }
    let bytes: Vec<u8> = lay.iter().map(|b| b.unwrap_or(0)).collect();
    for mut t in [R::default(), junk.clone()] {
        if t.gdb_deserialize(&bytes).is_err() { return Err(format!("{}: its own serialised block is rejected", name)) }
        if t != a { return Err(format!("{}: round trip gave {:?} for {:?}", name, t, a)) }
    }
    let full = bytes.len();
    let need = match len { Len::AtLeast(n) => n, Len::Exact => full };
    let n = match r.n(6) { 0 => need.saturating_sub(1 + r.n(20)), 1 => r.n(need), 2 => full + 1 + r.n(40), 3 => r.n(64), 4 => need.saturating_sub(1), _ => r.n(full + 100) };
    let s: Vec<u8> = (0..n).map(|i| if r.p(90) { *bytes.get(i).unwrap_or(&0) } else { r.next() as u8 }).collect();
    let mut t = junk.clone();
    let x = t.gdb_deserialize(&s);
    cx.ev(&(name, &s));
    if n < need && x.is_ok() { return Err(format!("{}: a block of {} bytes (needs {}) is accepted", name, n, need)) }
    if len == Len::Exact && n > full && x.is_ok() { return Err(format!("{}: a block of {} bytes (must be {}) is accepted", name, n, full)) }
    cx.sample(format!("{}: {:?} -> {} bytes; {} bytes -> {:?}", name, a, full, n, x));
    Ok(())
}
fn regs(r: &mut Rng, cx: &mut Cx) -> Res {
    use gdbstub_arch::*;
    // x86
    fn seg(r: &mut Rng, l: &mut L) -> x86::reg::X86SegmentRegs { let v: Vec<u32> = (0..6).map(|_| w(r) as u32).collect(); for x in &v { le(l, *x as u128, 4) } x86::reg::X86SegmentRegs { cs: v[0], ss: v[1], ds: v[2], es: v[3], fs: v[4], gs: v[5] } }
    fn fpu(r: &mut Rng, l: &mut L) -> x86::reg::X87FpuInternalRegs { let v: Vec<u32> = (0..8).map(|_| w(r) as u32).collect(); for x in &v { le(l, *x as u128, 4) } x86::reg::X87FpuInternalRegs { fctrl: v[0], fstat: v[1], ftag: v[2], fiseg: v[3], fioff: v[4], foseg: v[5], fooff: v[6], fop: v[7] } }
    fn st(r: &mut Rng, l: &mut L) -> [[u8; 10]; 8] { let mut s = [[0u8; 10]; 8]; for x in s.iter_mut() { for b in x.iter_mut() { *b = r.next() as u8; l.push(Some(*b)) } } s }
    fn x32(r: &mut Rng) -> (x86::reg::X86CoreRegs, L) {
        let mut l = vec![];
        let v: Vec<u32> = (0..10).map(|_| w(r) as u32).collect();
        for x in &v { le(&mut l, *x as u128, 4) }
        let segments = seg(r, &mut l); let stv = st(r, &mut l); let f = fpu(r, &mut l);
        let mut xmm = [0u128; 8]; for x in xmm.iter_mut() { *x = w(r); le(&mut l, *x, 16) }
        let mxcsr = w(r) as u32; le(&mut l, mxcsr as u128, 4);
        l.extend([None; 4]);
        (x86::reg::X86CoreRegs { eax: v[0], ecx: v[1], edx: v[2], ebx: v[3], esp: v[4], ebp: v[5], esi: v[6], edi: v[7], eip: v[8], eflags: v[9], segments, st: stv, fpu: f, xmm, mxcsr }, l)
    }
    fn x64(r: &mut Rng) -> (x86::reg::X86_64CoreRegs, L) {
        let mut l = vec![];
        let mut regs = [0u64; 16]; for x in regs.iter_mut() { *x = w(r) as u64; le(&mut l, *x as u128, 8) }
        let rip = w(r) as u64; le(&mut l, rip as u128, 8);
        let eflags = w(r) as u32; le(&mut l, eflags as u128, 4);
        let segments = seg(r, &mut l); let stv = st(r, &mut l); let f = fpu(r, &mut l);
        let mut xmm = [0u128; 16]; for x in xmm.iter_mut() { *x = w(r); le(&mut l, *x, 16) }
        let mxcsr = w(r) as u32; le(&mut l, mxcsr as u128, 4);
        l.extend([None; 0x18]);
        (x86::reg::X86_64CoreRegs { regs, eflags, rip, segments, st: stv, fpu: f, xmm, mxcsr }, l)
    }
    let (a, l) = x32(r); let j = x32(r).0; check("x86", r, cx, a, j, l, Len::AtLeast(0x134))?;
    let (a, l) = x64(r); let j = x64(r).0; check("x86_64", r, cx, a, j, l, Len::AtLeast(0x218))?;
    // arm
    fn arm(r: &mut Rng) -> (gdbstub_arch::arm::reg::ArmCoreRegs, L) {
        let mut l = vec![];
        let mut g = [0u32; 13]; for x in g.iter_mut() { *x = w(r) as u32; le(&mut l, *x as u128, 4) }
        let v: Vec<u32> = (0..4).map(|_| w(r) as u32).collect();
        for x in &v[..3] { le(&mut l, *x as u128, 4) }
        l.extend([None; 100]);
        le(&mut l, v[3] as u128, 4);
        (gdbstub_arch::arm::reg::ArmCoreRegs { r: g, sp: v[0], lr: v[1], pc: v[2], cpsr: v[3] }, l)
    }
    let (a, l) = arm(r); let j = arm(r).0; check("arm", r, cx, a, j, l, Len::Exact)?;
    fn a64(r: &mut Rng) -> (aarch64::reg::AArch64CoreRegs, L) {
        let mut l = vec![];
        let mut x = [0u64; 31]; for x in x.iter_mut() { *x = w(r) as u64; le(&mut l, *x as u128, 8) }
        let sp = w(r) as u64; le(&mut l, sp as u128, 8);
        let pc = w(r) as u64; le(&mut l, pc as u128, 8);
        let cpsr = w(r) as u32; le(&mut l, cpsr as u128, 4);
        let mut v = [0u128; 32]; for x in v.iter_mut() { *x = w(r); le(&mut l, *x, 16) }
        let fpsr = w(r) as u32; le(&mut l, fpsr as u128, 4);
        let fpcr = w(r) as u32; le(&mut l, fpcr as u128, 4);
        (aarch64::reg::AArch64CoreRegs { x, sp, pc, cpsr, v, fpcr, fpsr }, l)
    }
    let (a, l) = a64(r); let j = a64(r).0; let n = l.len(); check("aarch64", r, cx, a, j, l, Len::AtLeast(n))?;
    macro_rules! mipsn { ($t:ty, $n:expr) => {{
        fn core(r: &mut Rng) -> (mips::reg::MipsCoreRegs<$t>, L) {
            let mut l = vec![];
            let mut g = [0 as $t; 32]; for x in g.iter_mut() { *x = w(r) as $t; le(&mut l, *x as u128, $n) }
            let v: Vec<$t> = (0..6).map(|_| w(r) as $t).collect(); for x in &v { le(&mut l, *x as u128, $n) }
            let mut f = [0 as $t; 32]; for x in f.iter_mut() { *x = w(r) as $t; le(&mut l, *x as u128, $n) }
            let u: Vec<$t> = (0..2).map(|_| w(r) as $t).collect(); for x in &u { le(&mut l, *x as u128, $n) }
            (mips::reg::MipsCoreRegs { r: g, lo: v[1], hi: v[2], pc: v[5], cp0: mips::reg::MipsCp0Regs { status: v[0], badvaddr: v[3], cause: v[4] }, fpu: mips::reg::MipsFpuRegs { r: f, fcsr: u[0], fir: u[1] } }, l)
        }
        fn dsp(r: &mut Rng) -> (mips::reg::MipsCoreRegsWithDsp<$t>, L) {
            let (c, mut l) = core(r);
            let v: Vec<$t> = (0..7).map(|_| w(r) as $t).collect(); for x in &v[..6] { le(&mut l, *x as u128, $n) }
            let d = w(r) as u32; le(&mut l, d as u128, 4); le(&mut l, v[6] as u128, $n);
            let mut x = mips::reg::MipsCoreRegsWithDsp::<$t>::default();
            x.core = c; x.dsp.hi1 = v[0]; x.dsp.lo1 = v[1]; x.dsp.hi2 = v[2]; x.dsp.lo2 = v[3]; x.dsp.hi3 = v[4]; x.dsp.lo3 = v[5]; x.dsp.dspctl = d; x.dsp.restart = v[6];
            (x, l)
        }
        let (a, l) = core(r); let j = core(r).0; let n = l.len(); check(concat!("mips ", stringify!($t)), r, cx, a, j, l, Len::AtLeast(n))?;
        let (a, l) = dsp(r); let j = dsp(r).0; let n = l.len(); check(concat!("mips+dsp ", stringify!($t)), r, cx, a, j, l, Len::AtLeast(n))?;
    }} }
    mipsn!(u32, 4);
    mipsn!(u64, 8);
    macro_rules! msp { ($t:ty, $n:expr) => {{
        fn m(r: &mut Rng) -> (msp430::reg::Msp430Regs<$t>, L) {
            let mut l = vec![];
            let v: Vec<$t> = (0..3).map(|_| w(r) as $t).collect(); for x in &v { le(&mut l, *x as u128, $n) }
            l.extend([None; $n]);
            let mut g = [0 as $t; 12]; for x in g.iter_mut() { *x = w(r) as $t; le(&mut l, *x as u128, $n) }
            (msp430::reg::Msp430Regs { pc: v[0], sp: v[1], sr: v[2], r: g }, l)
        }
        // trailing bytes which do not make up a register are ignored by design
        let (a, l) = m(r); let j = m(r).0; let n = l.len(); check(concat!("msp430 ", stringify!($t)), r, cx, a, j, l, Len::AtLeast(n))?;
    }} }
    msp!(u16, 2);
    msp!(u32, 4);
    fn ppc(r: &mut Rng) -> (gdbstub_arch::ppc::reg::PowerPcCommonRegs, L) {
        let mut l = vec![];
        let mut g = [0u32; 32]; for x in g.iter_mut() { *x = w(r) as u32; be(&mut l, *x as u128, 4) }
        let mut f = [0f64; 32]; for x in f.iter_mut() { let mut b = w(r) as u64; if f64::from_bits(b).is_nan() { b &= !(0x7ff << 52) } *x = f64::from_bits(b); be(&mut l, b as u128, 8) }
        let v: Vec<u32> = (0..7).map(|_| w(r) as u32).collect(); for x in &v { be(&mut l, *x as u128, 4) }
        let mut vr = [0u128; 32]; for x in vr.iter_mut() { *x = w(r); be(&mut l, *x, 16) }
        let (a, b) = (w(r) as u32, w(r) as u32); be(&mut l, a as u128, 4); be(&mut l, b as u128, 4);
        (gdbstub_arch::ppc::reg::PowerPcCommonRegs { r: g, f, pc: v[0], msr: v[1], cr: v[2], lr: v[3], ctr: v[4], xer: v[5], fpscr: v[6], vr, vscr: a, vrsave: b }, l)
    }
    let (a, l) = ppc(r); let j = ppc(r).0; let n = l.len(); check("ppc", r, cx, a, j, l, Len::AtLeast(n))?;
    macro_rules! rv { ($t:ty, $n:expr) => {{
        fn m(r: &mut Rng) -> (riscv::reg::RiscvCoreRegs<$t>, L) {
            let mut l = vec![];
            let mut x = [0 as $t; 32]; for x in x.iter_mut() { *x = w(r) as $t; le(&mut l, *x as u128, $n) }
            let pc = w(r) as $t; le(&mut l, pc as u128, $n);
            (riscv::reg::RiscvCoreRegs { x, pc }, l)
        }
        let (a, l) = m(r); let j = m(r).0; check(concat!("riscv ", stringify!($t)), r, cx, a, j, l, Len::Exact)?;
    }} }
    rv!(u32, 4);
    rv!(u64, 8);
    Ok(())
}

// ---------------------------------------------------------------- P11
fn s<X: ToString>(n: X) -> String { n.to_string() }
fn x86_spec(id: usize) -> Option<(String, usize)> {
    const N: [&str; 10] = ["Eax", "Ecx", "Edx", "Ebx", "Esp", "Ebp", "Esi", "Edi", "Eip", "Eflags"];
    Some(match id { 0..=9 => (s(N[id]), 4), 10..=15 => (seg_name(id - 10), 4), 16..=23 => (format!("St({})", id - 16), 10), 24..=31 => (fpu_name(id - 24), 4), 32..=39 => (format!("Xmm({})", id - 32), 16), 40 => (s("Mxcsr"), 4), _ => return None })
}
fn seg_name(i: usize) -> String { format!("Segment({})", ["CS", "SS", "DS", "ES", "FS", "GS"][i]) }
fn fpu_name(i: usize) -> String { format!("Fpu({})", ["Fctrl", "Fstat", "Ftag", "Fiseg", "Fioff", "Foseg", "Fooff", "Fop"][i]) }
fn x64_spec(id: usize) -> Option<(String, usize)> {
    Some(match id { 0..=15 => (format!("Gpr({})", id), 8), 16 => (s("Rip"), 8), 17 => (s("Eflags"), 4), 18..=23 => (seg_name(id - 18), 4), 24..=31 => (format!("St({})", id - 24), 10), 32..=39 => (fpu_name(id - 32), 4), 40..=55 => (format!("Xmm({})", id - 40), 16), 56 => (s("Mxcsr"), 4), _ => return None })
}
fn arm_spec(id: usize) -> Option<(String, usize)> {
    Some(match id { 0..=12 => (format!("Gpr({})", id), 4), 13 => (s("Sp"), 4), 14 => (s("Lr"), 4), 15 => (s("Pc"), 4), 16..=23 => (format!("Fpr({})", id - 16), 12), 24 => (s("Fps"), 4), 25 => (s("Cpsr"), 4), _ => return None })
}
fn a64_spec(id: usize) -> Option<(String, usize)> {
    Some(match id { 0..=30 => (format!("X({})", id), 8), 31 => (s("Sp"), 8), 32 => (s("Pc"), 8), 33 => (s("Pstate"), 4), 34..=65 => (format!("V({})", id - 34), 16),
        // op0=3 op1=3 CRn=4 CRm=4 op2=1 / op2=0
        66 => (format!("System({})", 0b11_011_0100_0100_001u16), 4), 67 => (format!("System({})", 0b11_011_0100_0100_000u16), 4),
        0x8000..=0xffff => (format!("System({})", id), 8), _ => return None })
}
fn mips_spec(id: usize, p: usize) -> Option<(String, usize)> {
    Some(match id { 0..=31 => (format!("Gpr({})", id), p), 32 => (s("Status"), p), 33 => (s("Lo"), p), 34 => (s("Hi"), p), 35 => (s("Badvaddr"), p), 36 => (s("Cause"), p), 37 => (s("Pc"), p), 38..=69 => (format!("Fpr({})", id - 38), p), 70 => (s("Fcsr"), p), 71 => (s("Fir"), p),
        72 => (s("Hi1"), p), 73 => (s("Lo1"), p), 74 => (s("Hi2"), p), 75 => (s("Lo2"), p), 76 => (s("Hi3"), p), 77 => (s("Lo3"), p), 78 => (s("Dspctl"), 4), 79 => (s("Restart"), p), _ => return None })
}
fn msp_spec(id: usize, p: usize) -> Option<(String, usize)> {
    Some(match id { 0 => (s("Pc"), p), 1 => (s("Sp"), p), 2 => (s("Sr"), p), 3 => (s("Cg"), p), 4..=15 => (format!("Gpr({})", id - 4), p), _ => return None })
}
fn rv_spec(id: usize, p: usize) -> Option<(String, usize)> {
    Some(match id { 0..=31 => (format!("Gpr({})", id), p), 32 => (s("Pc"), p), 33..=64 => (format!("Fpr({})", id - 33), p), 65..=4160 => (format!("Csr({})", id - 65), p), 4161 => (s("Priv"), 1), _ => return None })
}
fn one<I: RegId + std::fmt::Debug>(name: &str, cx: &mut Cx, id: usize, spec: Option<(String, usize)>) -> Res {
    let got = I::from_raw_id(id).map(|(r, n)| (format!("{:?}", r), n.map(|n| n.get()).unwrap_or(0)));
    cx.ev(&(name, id));
    // recorded finding: known_findings.json, aarch64-fpsr-fpcr-size
    if name == "aarch64" && (id == 66 || id == 67) && got == spec.clone().map(|x| (x.0, 8)) { cx.st.known.insert(format!("aarch64-fpsr-fpcr-size raw id {}: size 8, the description has 4", id)); return Ok(()) }
    if got != spec { return Err(format!("{}: raw register id {} maps to {:?}, the register description has {:?}", name, id, got, spec)) }
    Ok(())
}
fn ids(r: &mut Rng, cx: &mut Cx, all: bool) -> Res {
    use gdbstub_arch::*;
    let go = |cx: &mut Cx, id: usize| -> Res {
        one::<x86::reg::id::X86CoreRegId>("x86", cx, id, x86_spec(id))?;
        one::<x86::reg::id::X86_64CoreRegId>("x86_64", cx, id, x64_spec(id))?;
        one::<gdbstub_arch::arm::reg::id::ArmCoreRegId>("arm", cx, id, arm_spec(id))?;
        one::<aarch64::reg::id::AArch64RegId>("aarch64", cx, id, a64_spec(id))?;
        one::<mips::reg::id::MipsRegId<u32>>("mips", cx, id, mips_spec(id, 4))?;
        one::<mips::reg::id::MipsRegId<u64>>("mips64", cx, id, mips_spec(id, 8))?;
        one::<msp430::reg::id::Msp430RegId<u16>>("msp430", cx, id, msp_spec(id, 2))?;
        one::<msp430::reg::id::Msp430RegId<u32>>("msp430x", cx, id, msp_spec(id, 4))?;
        one::<riscv::reg::id::RiscvRegId<u32>>("riscv32", cx, id, rv_spec(id, 4))?;
        one::<riscv::reg::id::RiscvRegId<u64>>("riscv64", cx, id, rv_spec(id, 8))?;
        if <() as RegId>::from_raw_id(id).is_some() { return Err(format!("the empty register id maps {}", id)) }
        let want = match id { 2 => Some("Thumb16"), 3 => Some("Thumb32"), 4 => Some("Arm32"), _ => None };
        let got = gdbstub_arch::arm::ArmBreakpointKind::from_usize(id).map(|k| format!("{:?}", k));
        if got.as_deref() != want { return Err(format!("arm breakpoint kind {}: {:?}, expected {:?}", id, got, want)) }
        let want = match id { 2 => Some("Mips16"), 3 => Some("MicroMips16"), 4 => Some("Mips32"), 5 => Some("MicroMips32"), _ => None };
        let got = mips::MipsBreakpointKind::from_usize(id).map(|k| format!("{:?}", k));
        if got.as_deref() != want { return Err(format!("mips breakpoint kind {}: {:?}, expected {:?}", id, got, want)) }
        Ok(())
    };
    if all { for id in 0..70000 { go(cx, id)? } for k in 8..64 { for d in 0..300 { go(cx, (1usize << k).wrapping_add(d))?; go(cx, (1usize << k).wrapping_sub(d))? } } }
    for _ in 0..500 { go(cx, r.next() as usize)? }
    cx.sample("raw ids 0..70000, 2^k +- 300 and random 64-bit ids, for ten register tables".into());
    Ok(())
}

// ---------------------------------------------------------------- P21: default is_thread_alive
fn alive(r: &mut Rng, cx: &mut Cx) -> Res {
    use gdbstub::common::Tid;
    use gdbstub::target::ext::base::multithread::MultiThreadBase;
    use gdbstub::target::ext::base::BaseOps;
    use gdbstub::target::{Target, TargetResult};
    struct T(Vec<usize>, bool);
    impl Target for T {
        type Arch = MArch<u64, true, true>;
        type Error = MockErr;
        fn base_ops(&mut self) -> BaseOps<'_, Self::Arch, MockErr> { BaseOps::MultiThread(self) }
    }
    impl MultiThreadBase for T {
        fn read_registers(&mut self, _: &mut MRegs<u64>, _: Tid) -> TargetResult<(), Self> { Ok(()) }
        fn write_registers(&mut self, _: &MRegs<u64>, _: Tid) -> TargetResult<(), Self> { Ok(()) }
        fn read_addrs(&mut self, _: u64, _: &mut [u8], _: Tid) -> TargetResult<usize, Self> { Ok(0) }
        fn write_addrs(&mut self, _: u64, _: &[u8], _: Tid) -> TargetResult<(), Self> { Ok(()) }
        fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), MockErr> { for t in &self.0 { f(Tid::new(*t).unwrap()) } if self.1 { Err(MockErr(7)) } else { Ok(()) } }
    }
    let n = r.n(6);
    let v: Vec<usize> = (0..n).map(|_| 1 + r.n(8)).collect();
    let bad = r.p(15);
    for t in 1..10 {
        cx.ev(&(&v, t, bad));
        let got = T(v.clone(), bad).is_thread_alive(Tid::new(t).unwrap());
        let want = if bad { Err(MockErr(7)) } else { Ok(v.contains(&t)) };
        if got != want { return Err(format!("is_thread_alive({}) with threads {:?}: {:?}, expected {:?}", t, v, got, want)) }
    }
    Ok(())
}

// ---------------------------------------------------------------- P24
fn builder(r: &mut Rng, cx: &mut Cx) -> Res {
    use gdbstub::stub::{GdbStubBuilder, GdbStubBuilderError};
    type T = MT<u64, true, true>;
    let n = r.n(40);
    let k = match r.n(4) { 0 => None, 1 => Some(n), 2 => Some(n + 1 + r.n(3)), _ => Some(r.n(50)) };
    let mut buf = vec![0u8; n];
    let p = std::rc::Rc::new(std::cell::RefCell::new(Pipe { out: vec![], writes: 0, fail_at: usize::MAX, failed: false, once: false, flushes: 0, flushed_at: 0, starts: 0, alls: 0, reads: 0, peeks: 0, start_fail: false }));
    let order = r.p(50);
    cx.ev(&(n, k, order));
    let b = GdbStubBuilder::<T, MConn>::new(MConn(p));
    let x = match (k, order) {
        (None, _) => b.with_packet_buffer(&mut buf).build(),
        (Some(k), true) => b.with_packet_buffer(&mut buf).packet_buffer_size(k).build(),
        (Some(k), false) => b.packet_buffer_size(k).with_packet_buffer(&mut buf).build(),
    };
    let ok = k.map_or(true, |k| k <= n);
    match (ok, x) {
        (true, Ok(_)) => Ok(()),
        (false, Err(GdbStubBuilderError::PacketBufSizeMismatch)) => Ok(()),
        (_, x) => Err(format!("buffer of {} bytes, requested size {:?}: {:?}", n, k, x.map(|_| "built").map_err(|e| e.to_string()))),
    }
}

// ---------------------------------------------------------------- P26
fn dynfwd(cx: &mut Cx) -> Res {
    use gdbstub::conn::{Connection, ConnectionExt};
    use gdbstub::stub::GdbStubBuilder;
    use gdbstub::target::ext::base::BaseOps;
    use gdbstub::target::ext::breakpoints::*;
    use gdbstub::target::{Target, TargetResult};
    use std::cell::RefCell;
    use std::rc::Rc;
    // ---- connections: every method, with and without a failing inner connection
    fn conn<C: Connection<Error = ConnErr>>(name: &str, cx: &mut Cx, p: &Rc<RefCell<Pipe>>, c: &mut C) -> Res {
        let r = (c.write(7), c.write_all(b"abc"), c.on_session_start(), c.write_all(b""), c.flush());
        let p = p.borrow();
        cx.ev(&name);
        let good = r == (Ok(()), Ok(()), Ok(()), Ok(()), Ok(())) && p.out == b"\x07abc" && p.alls == 2 && p.starts == 1 && p.flushes == 1;
        let bad = p.fail_at == 0 && r == (Err(ConnErr(5)), Err(ConnErr(5)), Ok(()), Ok(()), Err(ConnErr(6))) && p.out.is_empty() && p.starts == 1 && p.alls == 2;
        if !good && !bad { return Err(format!("{}: calls through the wrapper gave {:?}; inner connection saw {:?}, {} write_all, {} on_session_start, {} flush", name, r, p.out, p.alls, p.starts, p.flushes)) }
        Ok(())
    }
    fn ext<C: ConnectionExt<Error = ConnErr>>(name: &str, p: &Rc<RefCell<Pipe>>, c: &mut C) -> Res {
        let r = (c.read(), c.peek(), c.read());
        let p = p.borrow();
        if (p.reads, p.peeks) != (2, 1) { return Err(format!("{}: two reads and a peek through the wrapper became {} reads and {} peeks", name, p.reads, p.peeks)) }
        if r != (Ok(0x5a), Ok(Some(0xa5)), Ok(0x5a)) { return Err(format!("{}: read/peek through the wrapper gave {:?}", name, r)) }
        Ok(())
    }
    for fail_at in [usize::MAX, 0] {
        let mk = || { let p = Rc::new(RefCell::new(Pipe { out: vec![], writes: 0, fail_at, failed: false, once: false, flushes: 0, flushed_at: 0, starts: 0, alls: 0, reads: 0, peeks: 0, start_fail: false })); (p.clone(), MConn(p)) };
        { let (p, c) = mk(); let mut b: Box<dyn Connection<Error = ConnErr>> = Box::new(c); conn("Box<dyn Connection>", cx, &p, &mut b)? }
        { let (p, mut c) = mk(); let mut b: &mut dyn Connection<Error = ConnErr> = &mut c; conn("&mut dyn Connection", cx, &p, &mut b)? }
        { let (p, c) = mk(); let mut b: Box<dyn ConnectionExt<Error = ConnErr>> = Box::new(c); conn("Box<dyn ConnectionExt>", cx, &p, &mut b)?; ext("Box<dyn ConnectionExt>", &p, &mut b)? }
        { let (p, mut c) = mk(); let mut b: &mut dyn ConnectionExt<Error = ConnErr> = &mut c; conn("&mut dyn ConnectionExt", cx, &p, &mut b)?; ext("&mut dyn ConnectionExt", &p, &mut b)? }
    }
    // the default write_all writes every byte once, in order, and stops at the first failure
    struct Dflt(Vec<u8>, usize);
    impl Connection for Dflt { type Error = u8; fn write(&mut self, b: u8) -> Result<(), u8> { if self.0.len() == self.1 { return Err(b) } self.0.push(b); Ok(()) } fn flush(&mut self) -> Result<(), u8> { Ok(()) } }
    for k in 0..6 {
        let mut d = Dflt(vec![], k);
        let x = d.write_all(&[1, 2, 3, 4]);
        let want = if k < 4 { Err(k as u8 + 1) } else { Ok(()) };
        cx.ev(&("write_all", k));
        if x != want || d.0 != [1u8, 2, 3, 4][..k.min(4)] { return Err(format!("default write_all over a connection failing at byte {}: {:?}, wrote {:?}", k, x, d.0)) }
    }
    // ---- options, including those a session does not show
    struct T([bool; 7], bool);
    impl Target for T {
        type Arch = MArch<u64, true, true>;
        type Error = MockErr;
        fn base_ops(&mut self) -> BaseOps<'_, Self::Arch, MockErr> { BaseOps::SingleThread(self) }
        fn guard_rail_implicit_sw_breakpoints(&self) -> bool { self.0[0] }
        fn use_no_ack_mode(&self) -> bool { self.0[1] }
        fn use_x_upcase_packet(&self) -> bool { self.0[2] }
        fn use_resume_stub(&self) -> bool { self.0[3] }
        fn use_rle(&self) -> bool { self.0[4] }
        fn use_target_description_xml(&self) -> bool { self.0[5] }
        fn use_lldb_register_info(&self) -> bool { self.0[6] }
        fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { if self.1 { Some(self) } else { None } }
    }
    impl Breakpoints for T { fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> { Some(self) } }
    impl SwBreakpoint for T {
        fn add_sw_breakpoint(&mut self, _: u64, _: MBk) -> TargetResult<bool, Self> { Ok(true) }
        fn remove_sw_breakpoint(&mut self, _: u64, _: MBk) -> TargetResult<bool, Self> { Ok(true) }
    }
    impl gdbstub::target::ext::base::singlethread::SingleThreadBase for T {
        fn read_registers(&mut self, _: &mut MRegs<u64>) -> TargetResult<(), Self> { Ok(()) }
        fn write_registers(&mut self, _: &MRegs<u64>) -> TargetResult<(), Self> { Ok(()) }
        fn read_addrs(&mut self, _: u64, _: &mut [u8]) -> TargetResult<usize, Self> { Ok(0) }
        fn write_addrs(&mut self, _: u64, _: &[u8]) -> TargetResult<(), Self> { Ok(()) }
    }
    type DT = dyn Target<Arch = MArch<u64, true, true>, Error = MockErr>;
    fn opts<X: Target>(t: &X) -> [bool; 7] { [t.guard_rail_implicit_sw_breakpoints(), t.use_no_ack_mode(), t.use_x_upcase_packet(), t.use_resume_stub(), t.use_rle(), t.use_target_description_xml(), t.use_lldb_register_info()] }
    fn starts<X: Target<Error = MockErr>>(mut t: X) -> Result<(), String> {
        let p = Rc::new(RefCell::new(Pipe { out: vec![], writes: 0, fail_at: usize::MAX, failed: false, once: false, flushes: 0, flushed_at: 0, starts: 0, alls: 0, reads: 0, peeks: 0, start_fail: false }));
        let x = GdbStubBuilder::<X, MConn>::new(MConn(p)).build().unwrap().run_state_machine(&mut t).map(|_| ()).map_err(|e| format!("{:?}", e));
        x
    }
    for m in 0..256u32 {
        let o: [bool; 7] = std::array::from_fn(|i| m >> i & 1 == 1);
        let bp = m >> 7 == 1;
        cx.ev(&("options", m));
        { let d: &mut DT = Box::leak(Box::new(T(o, bp))); if opts(&d) != o { return Err(format!("&mut dyn Target reports the options {:?}, the target has {:?}", opts(&d), o)) } }
        let b: Box<DT> = Box::new(T(o, bp));
        if opts(&b) != o { return Err(format!("Box<dyn Target> reports the options {:?}, the target has {:?}", opts(&b), o)) }
        // a session starts exactly if breakpoints are supported or the guard rail is off
        let want = bp || o[0];
        for (n, x) in [("T", starts(T(o, bp))), ("Box<dyn Target>", starts(b)), ("&mut dyn Target", { let d: &mut DT = Box::leak(Box::new(T(o, bp))); starts(d) })] {
            if x.is_ok() != want { return Err(format!("{}: starting a session with sw breakpoints {} and guard rail {}: {:?}", n, bp, o[0], x)) }
        }
    }
    cx.sample("all 2^7 option combinations x breakpoint support through T, Box<dyn Target>, &mut dyn Target; all Connection methods through the four wrappers".into());
    Ok(())
}

// ---------------------------------------------------------------- P05: packets far longer than usual
fn big(r: &mut Rng, cx: &mut Cx) -> Res {
    use crate::drive::{make, Real};
    use crate::model::{Step, EC};
    use std::rc::Rc;
    let mut c = crate::gen::cfg(r, "P05");
    c.arch = 0;
    c.use_rle = false;
    c.conn_fail_at = usize::MAX;
    c.err_at = usize::MAX;
    let size = match r.n(3) { 0 => 1 + r.n(300), 1 => 1 + r.n(9000), _ => 1 + r.n(70000) };
    let cap = match r.n(3) { 0 => None, 1 => Some(size), _ => Some(size) };
    c.buf = match cap { None => BufKind::Owned(size), Some(n) => if r.p(50) { BufKind::Borrowed(n, None) } else { BufKind::Borrowed(n + r.n(40), Some(n)) } };
    let desc = format!("{:?}", c.buf);
    let (mut d, _) = make(Rc::new(c))?;
    for _ in 0..3 {
        // total number of bytes of the packet, around the interesting sizes
        let total = match r.n(4) { 0 => size + r.n(4), 1 => size.saturating_sub(r.n(4)), 2 => 5 + r.n(2 * size + 10), _ => if cap.is_none() { 5 + r.n(140000) } else { size + r.n(40) } }.max(5);
        let mut p = vec![b'$', b'j'];
        while p.len() < total - 3 { let b = r.next() as u8; p.push(if b == b'#' { 0 } else { b }) }
        let k = p[1..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
        p.extend(format!("#{:02x}", k).bytes());
        cx.ev(&(&desc, total));
        d.pipe().borrow_mut().out.clear();
        for (i, b) in p.iter().enumerate() {
            match (d.step(&Step::Byte(*b)), cap) {
                (Real::Ok, Some(n)) if i >= n => return Err(format!("{}: byte {} of a packet was accepted", desc, i + 1)),
                (Real::Ok, _) => {}
                (Real::Err(EC::Other, s), Some(n)) if i == n && s.contains("PacketBufferOverflow") => return Ok(()),
                (e, _) => return Err(format!("{}: byte {} of a packet of {} bytes: {:?}", desc, i + 1, p.len(), e)),
            }
        }
        let out = d.pipe().borrow().out.clone();
        if out != b"+$#00" { return Err(format!("{}: an unknown command of {} bytes was answered {:?}", desc, p.len(), out.escape_ascii().to_string())) }
    }
    if cx.st.samples.is_empty() { cx.sample(format!("{}: packets of unknown commands around and beyond the buffer size", desc)) }
    Ok(())
}

// ---------------------------------------------------------------- P23: the recorded finding
/// a target whose enumeration callback has already been used when it fails
fn late(r: &mut Rng, cx: &mut Cx) -> Res {
    use crate::drive::{make, tokens, Real};
    use crate::model::{Step, Tok};
    use std::rc::Rc;
    for cmd in ["qTStatus", "qTfP", "qTsP", "qTBuffer:0,10", "QTFrame:1"] {
        let mut c = crate::gen::cfg(r, "P23");
        c.arch = 0;
        c.tp = true;
        c.tpsrc = true;
        c.late = true;
        c.buf = BufKind::Default;
        c.err = TE::NonFatal;
        c.err_at = r.n(4);
        c.conn_fail_at = usize::MAX;
        c.use_rle = false;
        let (mut d, _) = match make(Rc::new(c)) { Ok(x) => x, Err(e) => return Err(e) };
        for cm in if cmd == "qTsP" { vec!["qTfP", "qTsP"] } else { vec![cmd] } {
            d.pipe().borrow_mut().out.clear();
            let k = cm.bytes().fold(0u8, |a, b| a.wrapping_add(b));
            for b in format!("${}#{:02x}", cm, k).bytes() { match d.step(&Step::Byte(b)) { Real::Ok => {} e => return Err(format!("{}: a recoverable error ended the session: {:?}", cm, e)) } }
            let out = d.pipe().borrow().out.clone();
            let t = tokens(&out, false).map_err(|e| format!("{}: {} in {:?}", cm, e, out.escape_ascii().to_string()))?;
            cx.ev(&(cm, &out));
            match &t[..] {
                [Tok::Plus, Tok::Pkt(p)] => if p.len() > 3 && p.ends_with(b"E79") { cx.st.known.insert(format!("late-tracepoint-error {}: data followed by E79 in one reply", cm.split(':').next().unwrap())); },
                _ => return Err(format!("{}: sent {:?}", cm, out.escape_ascii().to_string())),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P18: the connections which come with the library
fn sockets(r: &mut Rng, cx: &mut Cx) -> Res {
    use gdbstub::conn::{Connection, ConnectionExt};
    use std::io::{Read, Write};
    fn both<C: Connection<Error = std::io::Error> + ConnectionExt>(name: &str, r: &mut Rng, cx: &mut Cx, c: &mut C, peer: &mut (impl Read + Write + Send)) -> Res {
        let e = |e: std::io::Error| format!("{}: {}", name, e);
        c.on_session_start().map_err(e)?;
        let n = 1 + r.n(300);
        let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        cx.ev(&(name, &data));
        // out: what is written and flushed is what arrives
        let k = r.n(n + 1);
        Connection::write_all(c, &data[..k]).map_err(e)?;
        for b in &data[k..] { Connection::write(c, *b).map_err(e)? }
        Connection::flush(c).map_err(e)?;
        let mut got = vec![0u8; n];
        peer.read_exact(&mut got).map_err(e)?;
        if got != data { return Err(format!("{}: sent {:?}, the peer received {:?}", name, data, got)) }
        // in: peek does not consume, read does, and read waits after a peek that found nothing
        match ConnectionExt::peek(c) { Ok(None) => {} x => return Err(format!("{}: peek with nothing to read gave {:?}", name, x)) }
        peer.write_all(&data).map_err(e)?;
        for (i, b) in data.iter().enumerate() {
            if r.p(20) && i > 0 {
                let t = Instant::now();
                let x = loop { match ConnectionExt::peek(c).map_err(e)? { None if t.elapsed() < Duration::from_secs(5) => continue, x => break x } };
                if x != Some(*b) { return Err(format!("{}: peek gave {:?}, the next byte is {}", name, x, b)) }
            }
            let x = ConnectionExt::read(c).map_err(e)?;
            if x != *b { return Err(format!("{}: read gave {}, expected {}", name, x, b)) }
        }
        match ConnectionExt::peek(c) { Ok(None) => {} x => return Err(format!("{}: peek after everything was read gave {:?}", name, x)) }
        // a read on a connection which was just peeked waits for the byte
        std::thread::scope(|s| {
            s.spawn(|| { std::thread::sleep(Duration::from_millis(20)); let _ = peer.write_all(&[42]); });
            match ConnectionExt::read(c) { Ok(42) => Ok(()), x => Err(format!("{}: read with nothing there yet gave {:?}", name, x)) }
        })
    }
    if let Ok(l) = std::net::TcpListener::bind("127.0.0.1:0") {
        if let Ok(Ok(mut c)) = l.local_addr().map(std::net::TcpStream::connect) {
            if let Ok((mut p, _)) = l.accept() {
                struct P<'a>(&'a mut std::net::TcpStream);
                impl Read for P<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { Read::read(self.0, b) } }
                impl Write for P<'_> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Write::write(self.0, b) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
                let _ = p.set_read_timeout(Some(Duration::from_secs(10)));
                both("TcpStream", r, cx, &mut c, &mut P(&mut p))?;
                // issue 28: replies are not held back for the peer's acknowledgement
                if matches!(c.nodelay(), Ok(false)) { return Err("TcpStream: a session delays small replies (TCP_NODELAY is off after on_session_start)".into()) }
            }
        }
    }
    #[cfg(unix)]
    if let Ok((mut c, p)) = std::os::unix::net::UnixStream::pair() {
        struct P(std::os::unix::net::UnixStream);
        impl Read for P { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { Read::read(&mut self.0, b) } }
        impl Write for P { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Write::write(&mut self.0, b) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
        let _ = p.set_read_timeout(Some(Duration::from_secs(10)));
        both("UnixStream", r, cx, &mut c, &mut P(p))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P20: where an error comes from, and what it is made of
fn origins(cx: &mut Cx) -> Res {
    use gdbstub::stub::run_blocking::{BlockingEventLoop, Event, WaitForStopReasonError};
    use gdbstub::stub::{GdbStubBuilder, GdbStubError, MultiThreadStopReason};
    use gdbstub::target::TargetError;
    use std::cell::RefCell;
    use std::rc::Rc;
    type T = MT<u64, true, true>;
    let mk = || {
        let mut r = Rng(1);
        let mut c = crate::gen::cfg(&mut r, "P17");
        c.arch = 0;
        let be = Rc::new(RefCell::new(Backend::new(Rc::new(c), u64::MAX)));
        let p = Rc::new(RefCell::new(Pipe { out: vec![], writes: 0, fail_at: usize::MAX, failed: false, once: false, flushes: 0, flushed_at: 0, starts: 0, alls: 0, reads: 0, peeks: 0, start_fail: true }));
        (T::new(be.clone()), be, p)
    };
    fn kind(what: &str, e: GdbStubError<MockErr, ConnErr>) -> Res {
        let s = format!("{:?}", e);
        let k = (e.is_connection_error(), e.is_target_error(), e.into_connection_error().map(|(c, k)| (c.0, format!("{:?}", k))));
        if k != (true, false, Some((4, "Init".into()))) { return Err(format!("{}: a connection that cannot start the session is reported as {:?} ({})", what, k, s)) }
        Ok(())
    }
    let (mut t, _be, p) = mk();
    cx.ev(&"run_state_machine");
    match GdbStubBuilder::<T, MConn>::new(MConn(p.clone())).build().map_err(|e| e.to_string())?.run_state_machine(&mut t) {
        // the guard rail of software breakpoints comes after the connection
        Err(e) => kind("run_state_machine", e)?,
        Ok(_) => return Err("run_state_machine ignores that the connection cannot start the session".into()),
    }
    if !p.borrow().out.is_empty() { return Err(format!("a session that could not start sent {:?}", p.borrow().out)) }
    struct E;
    impl BlockingEventLoop for E {
        type Target = T;
        type Connection = MConn;
        type StopReason = MultiThreadStopReason<u64>;
        fn wait_for_stop_reason(_: &mut T, _: &mut MConn) -> Result<Event<Self::StopReason>, WaitForStopReasonError<MockErr, ConnErr>> { Err(WaitForStopReasonError::Target(MockErr(1))) }
        fn on_interrupt(_: &mut T) -> Result<Option<Self::StopReason>, MockErr> { Err(MockErr(2)) }
    }
    let (mut t, _be, p) = mk();
    cx.ev(&"run_blocking");
    match GdbStubBuilder::<T, MConn>::new(MConn(p.clone())).build().map_err(|e| e.to_string())?.run_blocking::<E>(&mut t) {
        Err(e) => kind("run_blocking", e)?,
        Ok(x) => return Err(format!("run_blocking ignores that the connection cannot start the session: {:?}", x)),
    }
    if p.borrow().reads != 0 { return Err("run_blocking reads from a connection which could not start the session".into()) }
    // what errors are made of
    cx.ev(&"TargetError");
    if !matches!(TargetError::<MockErr>::from(()), TargetError::NonFatal) { return Err("TargetError::from(()) is not NonFatal".into()) }
    for n in 1..140 {
        match TargetError::<MockErr>::from(std::io::Error::from_raw_os_error(n)) {
            TargetError::Io(e) if e.raw_os_error() == Some(n) => {}
            _ => return Err(format!("TargetError::from(io::Error with code {}) is not Io with that code", n)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P22: error codes of host I/O
fn hio_errors(cx: &mut Cx) -> Res {
    use gdbstub::target::ext::host_io::{HostIoErrno as H, HostIoError};
    use std::io::ErrorKind as K;
    let codes = [(H::EPERM as i64, 1), (H::ENOENT as i64, 2), (H::EINTR as i64, 4), (H::EBADF as i64, 9), (H::EACCES as i64, 13), (H::EFAULT as i64, 14), (H::EBUSY as i64, 16), (H::EEXIST as i64, 17), (H::ENODEV as i64, 19), (H::ENOTDIR as i64, 20), (H::EISDIR as i64, 21), (H::EINVAL as i64, 22), (H::ENFILE as i64, 23), (H::EMFILE as i64, 24), (H::EFBIG as i64, 27), (H::ENOSPC as i64, 28), (H::ESPIPE as i64, 29), (H::EROFS as i64, 30), (H::ENAMETOOLONG as i64, 91), (H::EUNKNOWN as i64, 9999)];
    for (have, want) in codes {
        cx.ev(&want);
        if have != want { return Err(format!("the host I/O error with the protocol's code {} has code {}", want, have)) }
    }
    // an I/O error of the host is the code the documentation names for its kind
    let kinds = [(K::PermissionDenied, 1), (K::NotFound, 2), (K::Interrupted, 4), (K::AlreadyExists, 17), (K::InvalidInput, 22), (K::Other, 9999), (K::UnexpectedEof, 9999), (K::BrokenPipe, 9999), (K::InvalidData, 9999), (K::TimedOut, 9999)];
    for (k, want) in kinds {
        cx.ev(&(want, format!("{:?}", k)));
        match HostIoError::<MockErr>::from(std::io::Error::from(k)) {
            HostIoError::Errno(n) => { let n = n as i64; if n != want { return Err(format!("an I/O error of kind {:?} becomes code {}, expected {}", k, n, want)) } }
            HostIoError::Fatal(_) => return Err(format!("an I/O error of kind {:?} becomes a fatal error", k)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P16
// the numbers of gdb's include/gdb/signals.def, and the names printed for them
fn signals(cx: &mut Cx) -> Result<(), String> {
    use gdbstub::common::Signal;
    let t: [(Signal, u8, &str); 152] = [(Signal::SIGZERO, 0, "SIGZERO"), (Signal::SIGHUP, 1, "SIGHUP"), (Signal::SIGINT, 2, "SIGINT"), (Signal::SIGQUIT, 3, "SIGQUIT"), (Signal::SIGILL, 4, "SIGILL"), (Signal::SIGTRAP, 5, "SIGTRAP"), (Signal::SIGABRT, 6, "SIGABRT"), (Signal::SIGEMT, 7, "SIGEMT"), (Signal::SIGFPE, 8, "SIGFPE"), (Signal::SIGKILL, 9, "SIGKILL"), (Signal::SIGBUS, 10, "SIGBUS"), (Signal::SIGSEGV, 11, "SIGSEGV"), (Signal::SIGSYS, 12, "SIGSYS"), (Signal::SIGPIPE, 13, "SIGPIPE"), (Signal::SIGALRM, 14, "SIGALRM"), (Signal::SIGTERM, 15, "SIGTERM"), (Signal::SIGURG, 16, "SIGURG"), (Signal::SIGSTOP, 17, "SIGSTOP"), (Signal::SIGTSTP, 18, "SIGTSTP"), (Signal::SIGCONT, 19, "SIGCONT"), (Signal::SIGCHLD, 20, "SIGCHLD"), (Signal::SIGTTIN, 21, "SIGTTIN"), (Signal::SIGTTOU, 22, "SIGTTOU"), (Signal::SIGIO, 23, "SIGIO"), (Signal::SIGXCPU, 24, "SIGXCPU"), (Signal::SIGXFSZ, 25, "SIGXFSZ"), (Signal::SIGVTALRM, 26, "SIGVTALRM"), (Signal::SIGPROF, 27, "SIGPROF"), (Signal::SIGWINCH, 28, "SIGWINCH"), (Signal::SIGLOST, 29, "SIGLOST"), (Signal::SIGUSR1, 30, "SIGUSR1"), (Signal::SIGUSR2, 31, "SIGUSR2"), (Signal::SIGPWR, 32, "SIGPWR"), (Signal::SIGPOLL, 33, "SIGPOLL"), (Signal::SIGWIND, 34, "SIGWIND"), (Signal::SIGPHONE, 35, "SIGPHONE"), (Signal::SIGWAITING, 36, "SIGWAITING"), (Signal::SIGLWP, 37, "SIGLWP"), (Signal::SIGDANGER, 38, "SIGDANGER"), (Signal::SIGGRANT, 39, "SIGGRANT"), (Signal::SIGRETRACT, 40, "SIGRETRACT"), (Signal::SIGMSG, 41, "SIGMSG"), (Signal::SIGSOUND, 42, "SIGSOUND"), (Signal::SIGSAK, 43, "SIGSAK"), (Signal::SIGPRIO, 44, "SIGPRIO"), (Signal::SIG33, 45, "SIG33"), (Signal::SIG34, 46, "SIG34"), (Signal::SIG35, 47, "SIG35"), (Signal::SIG36, 48, "SIG36"), (Signal::SIG37, 49, "SIG37"), (Signal::SIG38, 50, "SIG38"), (Signal::SIG39, 51, "SIG39"), (Signal::SIG40, 52, "SIG40"), (Signal::SIG41, 53, "SIG41"), (Signal::SIG42, 54, "SIG42"), (Signal::SIG43, 55, "SIG43"), (Signal::SIG44, 56, "SIG44"), (Signal::SIG45, 57, "SIG45"), (Signal::SIG46, 58, "SIG46"), (Signal::SIG47, 59, "SIG47"), (Signal::SIG48, 60, "SIG48"), (Signal::SIG49, 61, "SIG49"), (Signal::SIG50, 62, "SIG50"), (Signal::SIG51, 63, "SIG51"), (Signal::SIG52, 64, "SIG52"), (Signal::SIG53, 65, "SIG53"), (Signal::SIG54, 66, "SIG54"), (Signal::SIG55, 67, "SIG55"), (Signal::SIG56, 68, "SIG56"), (Signal::SIG57, 69, "SIG57"), (Signal::SIG58, 70, "SIG58"), (Signal::SIG59, 71, "SIG59"), (Signal::SIG60, 72, "SIG60"), (Signal::SIG61, 73, "SIG61"), (Signal::SIG62, 74, "SIG62"), (Signal::SIG63, 75, "SIG63"), (Signal::SIGCANCEL, 76, "SIGCANCEL"), (Signal::SIG32, 77, "SIG32"), (Signal::SIG64, 78, "SIG64"), (Signal::SIG65, 79, "SIG65"), (Signal::SIG66, 80, "SIG66"), (Signal::SIG67, 81, "SIG67"), (Signal::SIG68, 82, "SIG68"), (Signal::SIG69, 83, "SIG69"), (Signal::SIG70, 84, "SIG70"), (Signal::SIG71, 85, "SIG71"), (Signal::SIG72, 86, "SIG72"), (Signal::SIG73, 87, "SIG73"), (Signal::SIG74, 88, "SIG74"), (Signal::SIG75, 89, "SIG75"), (Signal::SIG76, 90, "SIG76"), (Signal::SIG77, 91, "SIG77"), (Signal::SIG78, 92, "SIG78"), (Signal::SIG79, 93, "SIG79"), (Signal::SIG80, 94, "SIG80"), (Signal::SIG81, 95, "SIG81"), (Signal::SIG82, 96, "SIG82"), (Signal::SIG83, 97, "SIG83"), (Signal::SIG84, 98, "SIG84"), (Signal::SIG85, 99, "SIG85"), (Signal::SIG86, 100, "SIG86"), (Signal::SIG87, 101, "SIG87"), (Signal::SIG88, 102, "SIG88"), (Signal::SIG89, 103, "SIG89"), (Signal::SIG90, 104, "SIG90"), (Signal::SIG91, 105, "SIG91"), (Signal::SIG92, 106, "SIG92"), (Signal::SIG93, 107, "SIG93"), (Signal::SIG94, 108, "SIG94"), (Signal::SIG95, 109, "SIG95"), (Signal::SIG96, 110, "SIG96"), (Signal::SIG97, 111, "SIG97"), (Signal::SIG98, 112, "SIG98"), (Signal::SIG99, 113, "SIG99"), (Signal::SIG100, 114, "SIG100"), (Signal::SIG101, 115, "SIG101"), (Signal::SIG102, 116, "SIG102"), (Signal::SIG103, 117, "SIG103"), (Signal::SIG104, 118, "SIG104"), (Signal::SIG105, 119, "SIG105"), (Signal::SIG106, 120, "SIG106"), (Signal::SIG107, 121, "SIG107"), (Signal::SIG108, 122, "SIG108"), (Signal::SIG109, 123, "SIG109"), (Signal::SIG110, 124, "SIG110"), (Signal::SIG111, 125, "SIG111"), (Signal::SIG112, 126, "SIG112"), (Signal::SIG113, 127, "SIG113"), (Signal::SIG114, 128, "SIG114"), (Signal::SIG115, 129, "SIG115"), (Signal::SIG116, 130, "SIG116"), (Signal::SIG117, 131, "SIG117"), (Signal::SIG118, 132, "SIG118"), (Signal::SIG119, 133, "SIG119"), (Signal::SIG120, 134, "SIG120"), (Signal::SIG121, 135, "SIG121"), (Signal::SIG122, 136, "SIG122"), (Signal::SIG123, 137, "SIG123"), (Signal::SIG124, 138, "SIG124"), (Signal::SIG125, 139, "SIG125"), (Signal::SIG126, 140, "SIG126"), (Signal::SIG127, 141, "SIG127"), (Signal::SIGINFO, 142, "SIGINFO"), (Signal::UNKNOWN, 143, "UNKNOWN"), (Signal::INTERNAL_DEFAULT, 144, "INTERNAL_DEFAULT"), (Signal::EXC_BAD_ACCESS, 145, "EXC_BAD_ACCESS"), (Signal::EXC_BAD_INSTRUCTION, 146, "EXC_BAD_INSTRUCTION"), (Signal::EXC_ARITHMETIC, 147, "EXC_ARITHMETIC"), (Signal::EXC_EMULATION, 148, "EXC_EMULATION"), (Signal::EXC_SOFTWARE, 149, "EXC_SOFTWARE"), (Signal::EXC_BREAKPOINT, 150, "EXC_BREAKPOINT"), (Signal::SIGLIBRT, 151, "SIGLIBRT")];
    for (s, n, name) in t {
        cx.ev(&("signal", n));
        if s.0 != n { return Err(format!("Signal::{} is {}, gdb numbers it {}", name, s.0, n)) }
        let d = s.to_string();
        if d.split(" - ").next() != Some(name) { return Err(format!("signal {} is shown as {:?}, expected {}", n, d, name)) }
    }
    Ok(())
}
