//! Bounded, seeded exploration of the real stub through its public API against
//! an independent executable specification (model.rs).
mod drive;
mod gen;
mod mock;
mod model;
mod rng;
mod direct;
mod blocking;
use drive::*;
use model::*;
use rng::Rng;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Stats { pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub known: std::collections::BTreeSet<String> }
pub struct Violation { pub seed: u64, pub kind: String, pub msg: String, pub script: Vec<String> }

fn mine_(prop: &str, own: &[&str]) -> bool { prop == "P26" || own.contains(&prop) }
fn esc(b: &[u8]) -> String { b.escape_ascii().to_string() }
fn accepts(prop: &str, k: Kind, own: &[&str]) -> bool {
    if prop == "P26" { return true }
    if !own.contains(&prop) { return false }
    match prop {
        "P01" => matches!(k, Kind::Framing | Kind::Panic | Kind::Reply),
        "P02" => matches!(k, Kind::Reply | Kind::Panic | Kind::Framing),
        "P06" => true,
        "P18" => matches!(k, Kind::Reply | Kind::Flush | Kind::Framing | Kind::Panic | Kind::State),
        "P20" => matches!(k, Kind::ErrClass | Kind::Panic | Kind::Reply | Kind::Calls),
        _ => true,
    }
}
/// per worker: seed, start (ms since the epoch of the run), whether the current stimulus belongs to the property
static WATCH: [(AtomicU64, AtomicU64, AtomicBool); 8] = [const { (AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false)) }; 8];
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// one random session. None: nothing wrong within this property
fn session(prop: &str, seed: u64, f: &gen::Focus, st: &mut Stats, verbose: bool, plain: bool) -> Option<Violation> {
    let mut r = Rng(seed);
    let mut c = gen::cfg(&mut r, prop);
    if plain { c.arch = 0 }
    let mut script = vec![format!("config {:?}", c)];
    let viol = |kind: String, msg: String, script: Vec<String>| Some(Violation { seed, kind, msg, script });
    let mut s = match Sess::new(c.clone()) {
        Ok(s) => s,
        Err(e) => return if prop == "P24" || prop == "P17" || prop == "P26" { viol(format!("{:?}", e.kind), e.msg, script) } else { None },
    };
    let n = 1 + r.n(12);
    for _ in 0..n {
        let steps = gen::stimulus(&mut r, &c, &s.m, f);
        let bytes: Vec<u8> = steps.iter().filter_map(|s| if let Step::Byte(b) = s { Some(*b) } else { None }).collect();
        let name = if bytes.len() >= 4 && bytes[0] == b'$' && bytes[bytes.len() - 3] == b'#' { Some(s.m.lookup(&bytes[1..bytes.len() - 3]).map(|x| x.1).unwrap_or("")) } else { None };
        if bytes.is_empty() { script.push(format!("{:?} ({:?})", steps[0], s.m.st)) } else { script.push(format!("send {:?}", esc(&bytes))) }
        let last = steps.len() - 1;
        for (i, step) in steps.iter().enumerate() {
            // a byte is not accepted in these states: answer for the target first
            if matches!((&s.m.st, step), (St::Disc(_) | St::CtrlC { .. }, Step::Byte(_))) { break }
            let own = gen::owners(step, if i == last { name } else { None });
            WATCH[ME.with(|m| m.get())].2.store(mine_(prop, &own), Ordering::Relaxed);
            let res = s.step(step);
            let mine = prop == "P26" || own.contains(&prop);
            if i == last && mine { st.evals += 1 }
            if let Err(e) = res {
                // a defect that a plain target shows as well is not about forwarding
                if prop == "P26" && !plain && session(prop, seed, f, &mut Stats::default(), false, true).is_some() { return None }
                if accepts(prop, e.kind, &own) {
                    script.push(format!("-> {:?}: {}", e.kind, e.msg));
                    return viol(format!("{:?}", e.kind), e.msg, script);
                }
                return None;
            }
            if i == last {
                if mine && (!s.last_calls.is_empty() || s.last.len() > 1 || s.last_err.is_some() || s.last.iter().any(|t| matches!(t, Tok::Pkt(p) if !p.is_empty()))) {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (&bytes, show(&s.last), &s.last_calls, format!("{:?}", s.last_err), format!("{:?}", if bytes.is_empty() { Some(step) } else { None })).hash(&mut h);
                    st.distinct.insert(h.finish());
                }
                script.push(format!("   got {} calls {:?}{}", show(&s.last).chars().take(400).collect::<String>(), s.last_calls, match &s.last_err { Some(e) => format!(" ended: {:?}", e), None => String::new() }));
            }
            if s.over { if mine && st.samples.len() < 3 { st.samples.push(script.join("\n")) } if verbose { println!("{}", script.join("\n")) } return None }
        }
    }
    if st.samples.len() < 3 && st.evals > 3 { st.samples.push(script.join("\n")) }
    if verbose { println!("{}", script.join("\n")) }
    None
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let ms: u64 = get("--budget-ms").map(|s| s.parse().unwrap()).unwrap_or(5000);
    let sess: u64 = get("--sessions").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    install_hook();
    if let Some(r) = get("--replay") {
        let v = if let Some(d) = r.strip_prefix("direct:") { direct::run(&prop, d.parse().unwrap(), ms, &mut Stats::default()) } else { session(&prop, r.parse().unwrap(), &gen::focus(&prop), &mut Stats::default(), true, false) };
        match v { Some(v) => { println!("REPRODUCED {}: {}\n{}", v.kind, v.msg, v.script.join("\n")); std::process::exit(1) } None => println!("not reproduced") }
        return;
    }
    let t0 = Instant::now();
    let mut total = Stats::default();
    let mut viol = direct::run(&prop, seed, ms, &mut total);
    let mut direct_evals = total.evals;
    let _ = &mut direct_evals;
    let mut direct_viol = viol.is_some();
    if viol.is_none() && direct::sessions_for(&prop) {
        let stop = Arc::new(AtomicBool::new(false));
        let out = Arc::new(Mutex::new((Stats::default(), None::<Violation>)));
        let nt = 8;
        let hs: Vec<_> = (0..nt).map(|t| {
            let (stop, out, prop) = (stop.clone(), out.clone(), prop.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let f = gen::focus(&prop);
                let mut st = Stats::default();
                ME.with(|m| m.set(t as usize));
                let mut r = Rng(seed.wrapping_mul(1000003) ^ t);
                let mut v = None;
                let mut k = 0;
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_millis(ms) && k < sess {
                    k += 1;
                    let s = r.next();
                    WATCH[t as usize].0.store(s, Ordering::Relaxed);
                    WATCH[t as usize].1.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    v = session(&prop, s, &f, &mut st, false, false);
                    if v.is_some() { stop.store(true, Ordering::Relaxed); break }
                }
                WATCH[t as usize].1.store(0, Ordering::Relaxed);
                let mut o = out.lock().unwrap();
                o.0.evals += st.evals;
                o.0.distinct.extend(st.distinct);
                o.0.samples.extend(st.samples);
                if v.is_some() { o.1 = v }
            }).unwrap()
        }).collect();
        // a session takes milliseconds: one that takes this long does not end
        while hs.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            for w in &WATCH {
                let (s, b, m) = (w.0.load(Ordering::Relaxed), w.1.load(Ordering::Relaxed), w.2.load(Ordering::Relaxed));
                if b != 0 && t0.elapsed().as_millis() as u64 > b + 25000 {
                    let v = format!("the session with seed {} does not come to an end", s);
                    let j = format!("{{\"evaluations\":0,\"distinct_nontrivial\":0,\"samples\":[],\"wall_s\":{:.2},\"known\":[],\"hang\":{},\"violation\":{{\"replay\":\"{}\",\"kind\":\"Hang\",\"msg\":{},\"script\":[{}]}}}}", t0.elapsed().as_secs_f64(), m, s, js(&v), js(&v));
                    match get("--out") { Some(p) => std::fs::write(p, j).unwrap(), None => println!("{}", j) }
                    std::process::exit(if m { 1 } else { 3 });
                }
            }
        }
        for h in hs { if h.join().is_err() { eprintln!("worker died"); std::process::exit(2) } }
        let mut o = out.lock().unwrap();
        total.evals += o.0.evals;
        total.distinct.extend(o.0.distinct.drain());
        let s: Vec<_> = o.0.samples.drain(..).collect();
        total.samples.extend(s);
        viol = o.1.take();
        direct_viol = false;
    }
    total.samples.truncate(3);
    let j = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"wall_s\":{:.2},\"known\":[{}],\"violation\":{}}}", total.evals, total.distinct.len(), total.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64(), total.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        match &viol { None => "null".into(), Some(v) => format!("{{\"replay\":{},\"kind\":{},\"msg\":{},\"script\":[{}]}}", js(&if direct_viol { format!("direct:{}", v.seed) } else { v.seed.to_string() }), js(&v.kind), js(&v.msg), v.script.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) });
    match get("--out") { Some(p) => std::fs::write(p, j).unwrap(), None => println!("{}", j) }
    if let Some(v) = viol { eprintln!("VIOLATION {}: {}\n{}", v.kind, v.msg, v.script.join("\n")); std::process::exit(1) }
}
