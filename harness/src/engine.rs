//! Runs the cases of every rig that serves a property, and writes down what was seen.
use crate::ctx::*;
use crate::rng::{hash_str, mix};
use crate::{mem, tok};
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// How many cases a rig runs per tier.
#[derive(Clone, Copy)]
pub struct Scale {
    pub quick: u64,
    pub thorough: u64,
    /// a fixed enumeration: the number is never scaled down
    pub fixed: bool,
}

#[derive(Clone, Copy)]
pub struct Rig {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub scale: Scale,
    pub f: fn(&mut Ctx),
}

pub const fn rnd(quick: u64, thorough: u64) -> Scale {
    Scale { quick, thorough, fixed: false }
}
pub const fn fixed(n: u64) -> Scale {
    Scale { quick: n, thorough: n, fixed: true }
}

/// Which findings break which property. A crash, a hang or an unexpected panic in a property's own
/// workload always does.
pub fn accepts(prop: &str, k: Kind) -> bool {
    use Kind::*;
    if matches!(k, Panic | Hang) {
        return true;
    }
    match prop {
        "C01" => matches!(k, Func | Iter),
        "C02" => matches!(k, Cap),
        "C03" | "C05" => matches!(k, Func | Iter),
        "C04" => matches!(k, Store),
        "C06" | "C07" => matches!(k, Func),
        "C08" => matches!(k, Geo),
        "C09" => matches!(k, Iter),
        "C10" => matches!(k, Func | Iter),
        "C11" => matches!(k, Func | Utf8),
        "C12" => matches!(k, Nul),
        "C13" => matches!(k, Func | Link | Iter),
        "C14" => matches!(k, Func | Link | Inline | Alloc | Mem | Iter),
        "C15" => matches!(k, Func | Inline | Alloc | Mem | Drop),
        "C16" => matches!(k, Tree | Func | Drop | Alloc | Mem | Iter),
        "C17" => matches!(k, Drop | Mem),
        "C18" => matches!(k, Alloc),
        "C19" => matches!(k, Mem | Alloc),
        "C20" => matches!(k, Drop | Mem | Alloc),
        "C21" => matches!(k, Pure | Conc),
        "C22" => matches!(k, Hash),
        "C23" => matches!(k, DefAlloc | Alloc),
        "C24" => matches!(k, Image | Geo | Link | Alloc | Mem),
        "C25" => matches!(k, Steps),
        "C26" => matches!(k, Copy),
        "C27" => matches!(k, Reject),
        // decided by comparison with the same history without the moves
        "C28" => true,
        "C29" => matches!(k, Compat),
        _ => true,
    }
}

static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_INDEX: AtomicU64 = AtomicU64::new(0);
static CASE_RIG: AtomicU64 = AtomicU64::new(0);

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn out_line(s: &str) {
    let mut o = OUT.lock().unwrap_or_else(|e| e.into_inner());
    match o.as_mut() {
        Some(f) => {
            let _ = f.write_all(format!("{s}\n").as_bytes());
        }
        None => println!("{s}"),
    }
}

fn on_viol(c: &Ctx, k: Kind, msg: &str) {
    out_line(&format!(
        "{{\"t\":\"viol\",\"rig\":{},\"index\":{},\"kind\":\"{:?}\",\"accepted\":{},\"msg\":{}}}",
        esc(c.rig),
        c.index,
        k,
        accepts(c.prop, k),
        esc(msg)
    ));
}

fn case_seed(seed: u64, rig: &str, index: u64) -> u64 {
    mix(mix(seed, hash_str(rig)), index.wrapping_add(1))
}

pub struct Harness(pub String);

fn run_case(rig: &Rig, prop: &'static str, thorough: bool, seed: u64, index: u64, tracing: bool) -> Ctx {
    if prop != "C28" {
        return run_once(rig, prop, thorough, seed, index, tracing, true, true);
    }
    if NOMOVES.load(Relaxed) {
        return run_once(rig, prop, thorough, seed, index, tracing, false, true);
    }
    let mut c = run_once(rig, prop, thorough, seed, index, tracing, true, false);
    if !c.viol.is_empty() {
        let d = run_once(rig, prop, thorough, seed, index, false, false, false);
        // what happens without moving anything too is not about moving
        let all = c.viol.len();
        c.viol.retain(|v| v.2 <= d.ops && !d.viol.iter().any(|w| (w.0, w.2) == (v.0, v.2)));
        if c.viol.len() < all {
            c.count("failures that do not depend on moving");
        }
        for (k, m, _) in &c.viol {
            on_viol(&c, *k, m);
        }
    }
    c
}

pub static NOMOVES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[allow(clippy::too_many_arguments)]
fn run_once(rig: &Rig, prop: &'static str, thorough: bool, seed: u64, index: u64, tracing: bool, moves: bool, print: bool) -> Ctx {
    let mut c = Ctx::new(rig.name, prop, thorough, case_seed(seed, rig.name, index), index);
    c.tracing = tracing;
    c.moves = moves;
    c.on_viol = if print { Some(on_viol) } else { None };
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let r = catch_unwind(AssertUnwindSafe(|| (rig.f)(&mut c)));
    tok::fuse_off();
    if let Err(p) = r {
        // a case that was cut short may leave values behind
        // (a case an oracle ended unwinds in good order: what it leaves behind was forgotten)
        c.leak_ok |= !p.is::<CaseAbort>();
        if p.is::<CaseAbort>() {
        } else if p.is::<FusePanic>() {
            eprintln!("harness: injected panic escaped in {} #{index}", rig.name);
            std::process::exit(4);
        } else if let Some(h) = p.downcast_ref::<mem::HugeAlloc>() {
            c.report(Kind::Panic, format!("absurd allocation of {} bytes requested", h.0));
        } else {
            let m = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if c.soft > 0 && m.contains("src/bin/") && !m.contains("/repo/") {
                // the workload itself stumbled over what was reported before
                c.count("cases ended early");
            } else if m.contains("harness:") {
                eprintln!("{m} in {} #{index}", rig.name);
                std::process::exit(4);
            } else {
                c.report(Kind::Panic, format!("unexpected panic: {m}"));
            }
        }
    }
    mem::g_sync();
    c.case_end();
    c
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn watchdog(rigs: &'static [Rig], limit_s: f64, prop: &'static str) {
    std::thread::spawn(move || {
        let cpu = || {
            let mut t: libc::timespec = unsafe { std::mem::zeroed() };
            unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
            t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
        };
        let mut last = (0u64, 0.0f64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let n = CASE_NO.load(Relaxed);
            if n != last.0 {
                last = (n, cpu());
            } else if n != u64::MAX && cpu() - last.1 > limit_s {
                let rig = &rigs[CASE_RIG.load(Relaxed) as usize];
                out_line(&format!(
                    "{{\"t\":\"viol\",\"rig\":{},\"index\":{},\"kind\":\"Hang\",\"accepted\":{},\"msg\":\"no end after {limit_s} s of CPU time\"}}",
                    esc(rig.name),
                    CASE_INDEX.load(Relaxed),
                    accepts(prop, Kind::Hang),
                ));
                unsafe { libc::_exit(3) };
            }
        }
    });
}

/// Entry point of every workload binary.
pub fn main(rigs: &'static [Rig]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<std::string::String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if m.contains("unsafe precondition") || m.contains("misaligned") || m.contains("null pointer deref") || m.contains("cannot unwind") || m.contains("in a destructor") {
            eprintln!("panicked: {m} at {at}");
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m} at {at}");
    }));
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let prop = leak(arg(&args, "--prop").unwrap_or("C00"));
    let thorough = arg(&args, "--tier") == Some("thorough");
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mult: f64 = arg(&args, "--mult").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let limit: f64 = arg(&args, "--cpu").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let only = arg(&args, "--rig");
    NOMOVES.store(args.iter().any(|a| a == "--nomoves"), Relaxed);
    match cmd {
        "list" => {
            for r in rigs {
                println!("{} {} {}", r.name, r.props.join(","), r.scale.quick);
            }
        }
        "replay" => {
            let index: u64 = arg(&args, "--index").and_then(|s| s.parse().ok()).unwrap_or(0);
            let rig = rigs.iter().find(|r| Some(r.name) == only).expect("no such rig");
            unsafe {
                TRACE_HOOK = Some(|s| {
                    println!("op {s}");
                });
            }
            if !cfg!(miri) {
                watchdog(rigs, limit, prop);
            }
            CASE_INDEX.store(index, Relaxed);
            CASE_RIG.store(rigs.iter().position(|r| r.name == rig.name).unwrap() as u64, Relaxed);
            CASE_NO.store(1, Relaxed);
            let c = run_case(rig, prop, thorough, seed, index, true);
            CASE_NO.store(u64::MAX, Relaxed);
            let bad = c.viol.iter().any(|(k, ..)| accepts(prop, *k));
            println!("{}", if bad { "VIOLATED" } else { "held" });
            std::process::exit(if bad { 1 } else { 0 });
        }
        "run" => {
            let shard: u64 = arg(&args, "--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
            let nshards: u64 = arg(&args, "--nshards").and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget: f64 = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(1e9);
            let progress = arg(&args, "--progress").map(|p| std::fs::File::create(p).unwrap());
            let outp = arg(&args, "--out");
            if let Some(p) = outp {
                *OUT.lock().unwrap() = Some(std::fs::File::create(p).unwrap());
            }
            if !cfg!(miri) {
                watchdog(rigs, limit, prop);
            }
            let t0 = std::time::Instant::now();
            let mut counts: HashMap<&'static str, u64> = HashMap::new();
            let mut hists: Vec<u64> = Vec::new();
            let mut per_rig: Vec<(&'static str, u64, u64)> = Vec::new();
            let (mut evals, mut nontrivial, mut ops, mut other) = (0u64, 0u64, 0u64, 0u64);
            let mut samples: Vec<(String, Vec<String>)> = Vec::new();
            let mut accepted = 0u64;
            let mut skipped = 0u64;
            // resume behind a case that ended an earlier process
            let mut after = arg(&args, "--after").map(|a| {
                let (r, i) = a.rsplit_once(':').unwrap();
                (leak(r), i.parse::<u64>().unwrap())
            });
            'outer: for (ri, rig) in rigs.iter().enumerate() {
                if !rig.props.contains(&prop) || only.is_some_and(|o| o != rig.name) {
                    continue;
                }
                let base = if thorough { rig.scale.thorough } else { rig.scale.quick };
                let n = if rig.scale.fixed && mult >= 1.0 {
                    base
                } else {
                    ((base as f64 * mult).ceil() as u64).max(1)
                };
                let mut done = 0u64;
                let mut rig_ops = 0u64;
                // a scaled-down enumeration is a sample of it
                let stride = if rig.scale.fixed && mult < 1.0 { (base / n).max(1) } else { 1 };
                for j in 0..n {
                    if j % nshards != shard {
                        continue;
                    }
                    let i = j * stride;
                    if let Some((r, k)) = after {
                        if r == rig.name && k == i {
                            after = None;
                        }
                        continue;
                    }
                    if t0.elapsed().as_secs_f64() > budget {
                        skipped += 1;
                        continue;
                    }
                    if let Some(p) = &progress {
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&(ri as u64).to_le_bytes());
                        b[8..].copy_from_slice(&i.to_le_bytes());
                        let _ = p.write_all_at(&b, 0);
                    }
                    CASE_INDEX.store(i, Relaxed);
                    CASE_RIG.store(ri as u64, Relaxed);
                    CASE_NO.fetch_add(1, Relaxed);
                    let sample = samples.iter().filter(|s| s.0.starts_with(rig.name)).count() < 1 && shard == 0;
                    let c = run_case(rig, prop, thorough, seed, i, sample);
                    evals += 1;
                    done += 1;
                    ops += c.ops;
                    rig_ops += c.ops;
                    if c.effects >= 2 {
                        nontrivial += 1;
                        hists.push(mix(hash_str(rig.name), c.hist));
                    }
                    if sample && c.effects >= 2 {
                        let mut t = c.trace.clone();
                        t.truncate(25);
                        samples.push((format!("{} #{i} seed {seed}", rig.name), t));
                    }
                    for (k, v) in &c.counts {
                        if k.starts_with("max ") {
                            let e = counts.entry(k).or_insert(0);
                            *e = (*e).max(*v);
                        } else {
                            *counts.entry(k).or_insert(0) += v;
                        }
                    }
                    let acc = c.viol.iter().filter(|(k, ..)| accepts(prop, *k)).count() as u64;
                    accepted += acc;
                    other += c.viol.len() as u64 - acc;
                    if accepted >= 3 {
                        break 'outer;
                    }
                }
                per_rig.push((rig.name, done, rig_ops));
            }
            CASE_NO.store(u64::MAX, Relaxed);
            hists.sort_unstable();
            hists.dedup();
            if let Some(p) = outp {
                let bytes: Vec<u8> = hists.iter().flat_map(|h| h.to_le_bytes()).collect();
                let _ = std::fs::write(format!("{p}.hist"), bytes);
            }
            let mut s = format!(
                "{{\"t\":\"done\",\"evaluations\":{evals},\"nontrivial\":{nontrivial},\"distinct\":{},\"ops\":{ops},\"accepted\":{accepted},\"other\":{other},\"skipped\":{skipped},\"allocs\":{},\"frees\":{},\"toks\":{},\"tokdrops\":{},\"counts\":{{",
                hists.len(),
                mem::TOTAL_ALLOCS.load(Relaxed),
                mem::TOTAL_FREES.load(Relaxed),
                tok::N_TOK.load(Relaxed),
                tok::N_DROP.load(Relaxed)
            );
            let mut keys: Vec<_> = counts.iter().collect();
            keys.sort();
            s.push_str(&keys.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
            s.push_str("},\"rigs\":{");
            s.push_str(
                &per_rig
                    .iter()
                    .map(|(n, d, o)| format!("{}:[{d},{o}]", esc(n)))
                    .collect::<Vec<_>>()
                    .join(","),
            );
            s.push_str("},\"samples\":[");
            s.push_str(
                &samples
                    .iter()
                    .map(|(n, t)| {
                        format!(
                            "{{\"case\":{},\"ops\":[{}]}}",
                            esc(n),
                            t.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
                        )
                    })
                    .collect::<Vec<_>>()
                    .join(","),
            );
            s.push_str("]}");
            out_line(&s);
            std::process::exit(if accepted > 0 { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: list | run --prop P ... | replay --rig R --index I");
            std::process::exit(4);
        }
    }
}
