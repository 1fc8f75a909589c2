//! Property-based verification of ifc_rs. See /verif/DESIGN.md.
#[macro_use]
mod engine;
mod edits;
mod enums;
mod gen;
mod schema;
mod step;
mod props;

use engine::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"'); o
}
fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }
fn clip(s: &str, n: usize) -> String { if s.chars().count() > n { format!("{}…", s.chars().take(n).collect::<String>()) } else { s.to_string() } }

struct Args { id: String, tier: String, seed: u64, index: u64, cases: Option<u64>, skip: Vec<u64>, work: PathBuf }
fn args() -> Args {
    let v: Vec<String> = std::env::args().skip(2).collect();
    let mut a = Args { id: String::new(), tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()), seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), index: 0, cases: None, skip: vec![], work: PathBuf::new() };
    let mut i = 0;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--tier" => { a.tier = val; i += 1; }
            "--seed" => { a.seed = val.parse().unwrap(); i += 1; }
            "--index" => { a.index = val.parse().unwrap(); i += 1; }
            "--cases" => { a.cases = Some(val.parse().unwrap()); i += 1; }
            "--skip" => { a.skip = val.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); i += 1; }
            "--work" => { a.work = val.into(); i += 1; }
            x => a.id = x.to_string(),
        }
        i += 1;
    }
    if a.tier != "thorough" { a.tier = "quick".into(); }
    a
}
fn find(id: &str) -> &'static Prop { props::all().iter().copied().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) }) }

fn write_replay(p: &Prop, seed: u64, index: Option<u64>, tape: &[u64], msg: &str, input: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let key = hash_of(&(p.id, tape, msg, index));
    let f = dir.join(format!("{}-{:08x}.txt", p.id, key as u32));
    let mut o = format!("property={}\nseed={seed}\n", p.id);
    if let Some(i) = index { let _ = writeln!(o, "index={i}"); } else { let _ = writeln!(o, "tape={}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
    let _ = write!(o, "--- message\n{msg}\n--- input\n{input}\n");
    let _ = std::fs::write(&f, o);
    f
}

fn evidence(p: &Prop, a: &Args, evaluations: u64, cases: u64, nontrivial: usize, samples: &[String], labels: &str, wall: f64, violations: u64, extra: &str) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let samples = samples.iter().map(|s| js(&clip(s, 1500))).collect::<Vec<_>>().join(",");
    let assumptions = p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let o = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{evaluations},\"cases\":{cases},\"distinct_nontrivial\":{nontrivial},\"rule\":{},\"samples\":[{samples}],\"labels\":{{{labels}}}{extra}}},\"assumptions\":[{assumptions}],\"wall_s\":{wall:.3},\"violations\":{violations}}}\n",
        js(p.id), js(&a.tier), a.seed, js(p.rule));
    std::fs::write(dir.join(format!("{}.json", p.id)), o).unwrap();
}

fn worker() -> i32 {
    let a = args();
    let p = find(&a.id);
    let t0 = Instant::now();
    let cases = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough } else { p.quick });
    let cap = Duration::from_secs(if a.tier == "thorough" { 3000 } else { 420 });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    let cfg = RunCfg { seed: a.seed, cases, threads, cap, progress: Some(a.work.join("progress")), prelim: Some(a.work.join("prelim")), skip: a.skip.clone() };
    let rep = run(p, &cfg);
    let labels = rep.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let mut samples = rep.samples.clone();
    let viol = rep.failure.is_some() as u64;
    if samples.is_empty() { if let Some(f) = &rep.failure { samples.push(f.2.clone()); } }
    let extra = if rep.capped { ",\"stopped_at_time_cap\":true".to_string() } else { String::new() };
    evidence(p, &a, rep.evaluations, rep.cases, rep.nontrivial.len(), &samples, &labels, t0.elapsed().as_secs_f64(), viol, &extra);
    for k in &rep.known { println!("KNOWN-FINDING: property={} {k}", p.id); }
    println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s{}", p.id, rep.cases, rep.evaluations, rep.nontrivial.len(), t0.elapsed().as_secs_f64(), if rep.capped { " (time cap)" } else { "" });
    if std::env::var("VERIF_LABELS").is_ok() { for (k, v) in &rep.labels { println!("   {k}: {v}"); } }
    match rep.failure {
        None => 0,
        Some((tape, msg, input)) => {
            let f = write_replay(p, a.seed, None, &tape, &msg, &input);
            println!("{}", clip(&msg, 2000));
            println!("--- minimal input ({} shrink runs)\n{}", rep.shrink_runs, clip(&input, 3000));
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        }
    }
}

fn limited(cpu: u64, mem_kb: u64, sub: &[String]) -> std::process::ExitStatus {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("bash");
    c.arg("-c").arg(format!("{}ulimit -v {mem_kb}; ulimit -c 0; exec \"$0\" \"$@\"", if cpu > 0 { format!("ulimit -t {cpu}; ") } else { String::new() })).arg(exe);
    for s in sub { c.arg(s); }
    c.status().expect("spawn")
}

/// Runs the worker as a child; a crash, hang or memory blow-up of the code under test is attributed to a case by
/// re-running the cases that were in progress alone under a CPU and memory limit.
fn check() -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let a = args();
    let p = find(&a.id);
    let work = root().join("target").join("work").join(format!("{}-{}", a.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let t0 = Instant::now();
    let mut skip: Vec<u64> = a.skip.clone();
    let mut code = 2;
    for attempt in 0..3 {
        let mut sub = vec!["worker".to_string(), a.id.clone(), "--tier".into(), a.tier.clone(), "--seed".into(), a.seed.to_string(), "--work".into(), work.display().to_string()];
        if let Some(c) = a.cases { sub.push("--cases".into()); sub.push(c.to_string()); }
        if !skip.is_empty() { sub.push("--skip".into()); sub.push(skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
        let st = limited(0, 24 << 20, &sub);
        match st.code() { Some(0) => { code = 0; break; } Some(1) => { code = 1; break; } _ => {} }
        println!("{}: worker ended with {:?} (attempt {attempt}); isolating", p.id, st);
        if let Ok(pre) = std::fs::read_to_string(work.join("prelim")) {
            let (i, m) = pre.split_once('\n').unwrap_or((&pre, ""));
            let i: u64 = i.parse().unwrap_or(0);
            let f = write_replay(p, a.seed, Some(i), &[], m, "(found by case index; shrinking ended the process)");
            evidence(p, &a, 1, 1, 1, &[m.to_string()], "", t0.elapsed().as_secs_f64(), 1, "");
            println!("{m}\nVIOLATION property={} replay={}", p.id, f.display());
            code = 1; break;
        }
        let prog = std::fs::read(work.join("progress")).unwrap_or_default();
        let idx: Vec<u64> = prog.chunks(8).filter(|c| c.len() == 8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
        let mut bad = None;
        for i in &idx {
            let one = |_: ()| limited(60, 6 << 20, &["one".into(), a.id.clone(), "--seed".into(), a.seed.to_string(), "--index".into(), i.to_string()]);
            let s1 = one(());
            if matches!(s1.code(), Some(0) | Some(1)) { continue; }
            let s2 = one(());
            if matches!(s2.code(), Some(0) | Some(1)) { continue; }
            bad = Some((*i, format!("the case ends the process (signal {:?}, exit {:?}): crash, endless loop (over 60 s of CPU) or memory exhaustion", s2.signal(), s2.code())));
            break;
        }
        if let Some((i, m)) = bad {
            let f = write_replay(p, a.seed, Some(i), &[], &m, "(regenerate with: harness replay <file>)");
            evidence(p, &a, 1, 1, 1, &[m.clone()], "", t0.elapsed().as_secs_f64(), 1, "");
            println!("{m}\nVIOLATION property={} replay={}", p.id, f.display());
            code = 1; break;
        }
        skip.clear(); // not reproducible: an effect of the environment; try again
    }
    let _ = std::fs::remove_dir_all(&work);
    if code == 2 { println!("{}: inconclusive (worker kept ending without a reproducible cause)", p.id); }
    code
}

fn one(id: &str, seed: u64, index: u64) -> i32 {
    let p = find(id);
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let o = run_case(p.case, Src::random(case_seed(seed, p.id, index)));
        match o.res { Ok(()) => { println!("ok"); 0 } Err(m) => { println!("FAIL {m}\n--- input\n{}", o.ctx.input); 1 } }
    }).unwrap();
    h.join().unwrap_or(2)
}
fn replay(f: &Path) -> i32 {
    let t = std::fs::read_to_string(f).unwrap();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|x| x.to_string()));
    let p = find(&get("property").unwrap());
    if let Some(i) = get("index") { return one(p.id, get("seed").unwrap().parse().unwrap(), i.parse().unwrap()); }
    for pr in p.probes { let mut c = Ctx::default(); if let Err(m) = pr(&mut c) { println!("FAIL fixed probe: {m}\n{}", c.input); return 1; } }
    let tape: Vec<u64> = get("tape").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let o = run_case(p.case, Src::replay(&tape));
    match o.res { Ok(()) => { println!("ok"); 0 } Err(m) => { println!("FAIL {m}\n--- input\n{}", o.ctx.input); println!("VIOLATION property={} replay={}", p.id, f.display()); 1 } }
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    let cmd = std::env::args().nth(1).unwrap_or_default();
    install_panic_hook();
    let code = match cmd.as_str() {
        // used by P10: identifiers created by another process
        "guids" => { let n: usize = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1); for _ in 0..n { println!("{}", ifc_rs::prelude::IfcGloballyUniqueId::new_v4().base64_ifc_string()); } 0 }
        // used by P29: files read and written by a process in another environment
        "rewrite" => { print!("{}", props::whole::rewrite_all(std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1))); 0 }
        "list" => { for p in props::all() { println!("{}", p.id); } 0 }
        "check" => check(),
        "worker" => worker(),
        "one" => { let a = args(); one(&a.id, a.seed, a.index) }
        "replay" => replay(Path::new(&std::env::args().nth(2).unwrap())),
        _ => { eprintln!("usage: harness list | check ID [--tier quick|thorough] [--seed N] | one ID --seed N --index I | replay FILE"); 2 }
    };
    std::process::exit(code);
}
