//! P28 writing to sinks that fail, P29 models and surroundings do not influence each other.
use super::*;
use std::fmt::Write as _;
use std::collections::HashMap;
use std::io::Write as _;

pub static PROPS: [Prop; 2] = [
    Prop { id: "P28", rule: "a case is a generated (or built) model written to sinks that fail: at one or several chunks, after a number of bytes, for good or only once, with short writes and interruptions; non-trivial: each failure before the last byte, distinct by text and place of the failure",
        assumptions: &["a sink reports its own failure (std::fmt::Write and std::io::Write contracts)"], quick: 20_000, thorough: 900_000, case: p28, probes: &[p28_disk] },
    Prop { id: "P29", rule: "a case is a pair of similar buildings made one after another or in parallel and compared with the same made in threads of their own (identifiers, times, numbering and order of relations aside), or 2-4 scripts (reading good and damaged files, edits, insertions, removals, queries, writing, building projects), executed each on its own, then interleaved at random and sometimes in parallel threads; the transcripts are compared; non-trivial: an interleaving that switches between two scripts that both hold a model, distinct by texts and order",
        assumptions: &["fresh identifiers and the time of building are no part of a transcript"], quick: 8_000, thorough: 400_000, case: p29, probes: &[p29_env] },
];

// ---- P28 ------------------------------------------------------------------------------------------------------------
/// Takes what it is given, but fails at the listed chunks (or when more than `room` bytes arrive).
struct Sink { got: String, chunk: usize, fail_at: Vec<usize>, room: usize, for_good: bool, failed: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        let n = self.chunk; self.chunk += 1;
        if self.failed > 0 && self.for_good { self.failed += 1; return Err(std::fmt::Error); }
        if self.fail_at.contains(&n) || self.got.len() + t.len() > self.room { self.failed += 1; return Err(std::fmt::Error); }
        self.got.push_str(t); Ok(())
    }
}
/// A byte sink with short writes and interruptions; full after `room` bytes, or failing once at the `fail_at`-th call.
struct Bytes { got: Vec<u8>, room: usize, short: usize, call: usize, fail_at: usize, zero: bool, interrupt: usize }
impl std::io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.call; self.call += 1;
        if b.is_empty() { return Ok(0); }
        if n == self.fail_at { return Err(std::io::Error::other("device fails once")); }
        if self.interrupt > 0 && n % self.interrupt == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let k = b.len().min(self.room - self.got.len()).min(self.short.max(1));
        if k == 0 { return if self.zero { Ok(0) } else { Err(std::io::ErrorKind::StorageFull.into()) }; }
        self.got.extend_from_slice(&b[..k]); Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn chunks_of(i: &IFC) -> usize {
    let mut k = Sink { got: String::new(), chunk: 0, fail_at: vec![], room: usize::MAX, for_good: false, failed: 0 };
    let _ = write!(k, "{i}"); k.chunk
}
fn p28(s: &mut Src, c: &mut Ctx) -> Res {
    let ifc = if s.chance(1, 40) { let t = some_project(s.bits()); c.input = t.clone(); must_read(&t, "a built file")? }
        else {
            let o = GenOpts { budget: 3 + s.u(20), n_roots: (1, 5), ..Default::default() };
            let g = graph(s, o);
            let h = header(s);
            let t = render_file(s, PLAIN, &h, &g);
            c.input = t.clone();
            must_read(&t, "a well-formed file")?
        };
    let full = write(&ifc)?;
    let n = chunks_of(&ifc);
    let text = c.input.clone();
    let mut judge = |what: String, ok: bool, got: &[u8], failed: bool, c: &mut Ctx| -> Res {
        c.eval(1);
        c.input = format!("{what}\n{text}");
        ensure!(full.as_bytes().starts_with(got), "{what}: what arrived is not the beginning of the text, it ends in {:?}", short(&String::from_utf8_lossy(&got[got.len().saturating_sub(80)..])));
        ensure!(!ok || got.len() == full.len(), "{what}: writing reports success but only {} of {} bytes arrived", got.len(), full.len());
        ensure!(ok || failed, "{what}: writing reports an error although the sink took everything");
        if failed { c.non_trivial(&(full.as_str(), what.as_str())); }
        Ok(())
    };
    let rounds = if s.chance(1, 30) { n.min(400) } else { 6 };
    for r in 0..rounds {
        // a sink of characters
        let fail_at = if rounds > 6 { vec![r] } else { (0..1 + s.u(3)).map(|_| s.u(n + 1)).collect() };
        let room = if s.chance(1, 3) { s.u(full.len() + 2) } else { usize::MAX };
        let mut k = Sink { got: String::new(), chunk: 0, fail_at, room, for_good: s.bool(), failed: 0 };
        let ok = guard(|| write!(k, "{ifc}").is_ok())?;
        ensure!(k.failed <= 1, "writing goes on after the sink failed at chunk {:?} of {n}", k.fail_at);
        judge(format!("sink failing at chunks {:?} of {n} or after {} bytes{}", k.fail_at, if room == usize::MAX { "any".to_string() } else { room.to_string() }, if k.for_good { " for good" } else { "" }), ok, k.got.as_bytes(), k.failed > 0, c)?;
        // a sink of bytes, directly or through a buffer
        let room = if s.bool() { s.u(full.len() + 2) } else { usize::MAX };
        let short = [1usize, 2, 7, 64, 8192, usize::MAX][s.u(6)];
        let fail_at = if s.bool() { s.u(n + 20) } else { usize::MAX };
        let mut b = Bytes { got: vec![], room: room.max(0), short, call: 0, fail_at, zero: s.bool(), interrupt: [0, 0, 2, 3][s.u(4)] };
        let buffered = s.bool();
        let ok = guard(|| if buffered { let mut w = std::io::BufWriter::with_capacity(16 + s.u(500), &mut b); let ok = write!(w, "{ifc}").is_ok(); let ok = ok && w.flush().is_ok(); let _ = w.into_parts(); ok } else { write!(b, "{ifc}").is_ok() })?;
        let failed = b.room < full.len() || b.call > b.fail_at;
        judge(format!("device with room for {} bytes, {} bytes at a time, failing at call {}{}", if room == usize::MAX { "any".into() } else { room.to_string() }, short, if fail_at == usize::MAX { "none".into() } else { fail_at.to_string() }, if buffered { ", buffered" } else { "" }), ok, &b.got, failed, c)?;
    }
    c.input = text.clone();
    ensure!(write(&ifc)? == full, "the model is written differently after a failed writing");
    // the parts of a file
    for (what, f) in [("header", &ifc.header as &dyn std::fmt::Display), ("data section", &ifc.data), ("footer", &ifc.footer)] {
        let part = guard(|| f.to_string())?;
        ensure!(full.contains(&part), "the {what} written on its own is not part of the text of the file: {part:?}");
        let room = s.u(part.len() + 1);
        let mut k = Sink { got: String::new(), chunk: 0, fail_at: vec![], room, for_good: false, failed: 0 };
        let ok = guard(|| write!(k, "{f}").is_ok())?;
        ensure!(part.starts_with(&k.got) && k.failed <= 1 && ok == (k.failed == 0) && (!ok || k.got == part), "{what} written to a sink with room for {room} bytes: {}, arrived {:?}", if ok { "success" } else { "error" }, k.got);
        c.eval(1);
    }
    c.sample(|| format!("{n} chunks\n{full}"));
    Ok(())
}
/// real files: a full device, a closed pipe, a file opened for reading
fn p28_disk(c: &mut Ctx) -> Result<Vec<String>, String> {
    for seed in 0..40u64 {
        let t = some_project(seed);
        c.input = t.clone(); c.eval(1); c.non_trivial(&("device", seed));
        let ifc = must_read(&t, "a built file")?;
        let full = write(&ifc)?;
        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            ensure!(guard(|| write!(f, "{ifc}").is_err())?, "writing to a full device reports success");
            let mut b = std::io::BufWriter::new(f);
            ensure!(guard(|| write!(b, "{ifc}").and_then(|_| b.flush()).is_err())?, "writing to a full device through a buffer reports success");
            let _ = b.into_parts();
        }
        let dir = super::robust::scratch();
        let p = dir.join(format!("out-{seed}.ifc"));
        let r = (|| -> Res {
            let mut f = std::fs::File::create(&p).map_err(|e| format!("harness: {e}"))?;
            ensure!(guard(|| write!(f, "{ifc}").is_ok())?, "writing to a file fails");
            drop(f);
            ensure!(std::fs::read_to_string(&p).ok().as_deref() == Some(full.as_str()), "the file on disk differs from the text in memory");
            let mut f = std::fs::File::open(&p).map_err(|e| format!("harness: {e}"))?;
            ensure!(guard(|| write!(f, "{ifc}").is_err())?, "writing to a file that is open for reading reports success");
            let back = guard(|| IFC::from_file(&p))?.map_err(|e| format!("the file written to disk is not accepted: {e}"))?;
            ensure!(write(&back)? == full, "the file written to disk reads back differently");
            Ok(())
        })();
        let _ = std::fs::remove_file(&p);
        r?;
    }
    Ok(vec![])
}

// ---- P29 ------------------------------------------------------------------------------------------------------------
#[derive(Clone)]
struct Script { text: String, g: Graph, steps: Vec<u64> }
struct Exec<'a> { sc: &'a Script, at: usize, ifc: Option<IFC>, log: Vec<String> }
fn broken(t: &str, k: u64) -> String {
    let mut s = Src::random(k);
    match s.u(4) { 0 => t[..t.find("DATA").unwrap_or(0)].to_string(), 1 => t.replacen(");", ")", 1 + s.u(3)), 2 => t.replacen("#1=", "#1=IFCPOLYLINE((#987654));\n#1=", 1), _ => format!("{t}#1=") }
}
impl<'a> Exec<'a> {
    fn new(sc: &'a Script) -> Self { Exec { sc, at: 0, ifc: None, log: vec![] } }
    /// one step; false at the end
    fn step(&mut self) -> bool {
        let Some(&k) = self.sc.steps.get(self.at) else { return false };
        self.at += 1;
        let mut s = Src::random(k);
        let what = s.u(10);
        let g = &self.sc.g;
        let line = guard(|| {
            if self.ifc.is_none() {
                return match read(&self.sc.text) { Ok(i) => { self.ifc = Some(i); "read".to_string() } Err(e) => format!("error {e}") };
            }
            let ifc = self.ifc.as_mut().unwrap();
            match what {
                0 => match read(&broken(&self.sc.text, k)) { Ok(i) => format!("accepted {i}"), Err(e) => format!("error {e}") },
                1 | 2 => { let mut i = g.insts[s.u(g.insts.len())].clone(); if i.ent.is_none() || kind_of(ifc, i.id as usize) != kind_name(&i) { return "no edit".into(); } format!("edit {:?}", crate::edits::edit(&mut s, ifc, &mut i, true)) }
                3 => format!("new {:?}", ifc.data.insert_new(Point3D::from(bevy_math::DVec3::new(coord(&mut s), 1.0, 2.0))).id()),
                4 => { let id = Id(s.pick(&g.insts).id as usize); format!("removed {:?}", ifc.data.remove(id).map(|x| x.to_string())) }
                5 => { let _ = some_project(k); let _ = IfcGloballyUniqueId::new_v4(); "built".into() }
                6 => match read(&ifc.to_string()) { Ok(mut i) => { let mut l = vec![]; for x in &g.insts { l.push(kind_of(&mut i, x.id as usize)); } format!("read again {l:?}") } Err(e) => format!("read again: {e}") },
                7 => match read(&self.sc.text) {
                    Ok(i) => {
                        let ex = IfcExtractor::from(i);
                        let mut l = format!("{:?}", ex.projects().map(|p| p.0.id()).collect::<Vec<_>>());
                        for x in &g.insts { if let Some(f) = super::extract::STRUCTS.iter().find(|f| x.ent.is_some() && f.0 == kind_name(x)) { l.push_str(&format!("{:?}", guard(|| (f.1)(&ex, x.id)))); } }
                        l
                    }
                    Err(e) => e,
                },
                8 => { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = ifc.data.get(TypedId::<Wall>::new(Id(usize::MAX))); })); "no such instance".into() }
                _ => format!("written {ifc}"),
            }
        });
        self.log.push(line.unwrap_or_else(|e| e));
        true
    }
    fn end(mut self) -> Vec<String> { if let Some(i) = self.ifc.take() { self.log.push(write(&i).unwrap_or_else(|e| e)); } self.log }
}
fn compare(alone: &[Vec<String>], got: Vec<Vec<String>>, how: &str) -> Res {
    for (k, (a, b)) in alone.iter().zip(&got).enumerate() {
        for (n, (x, y)) in a.iter().zip(b).enumerate() { ensure!(x == y, "script {}, step {}, {how}: {} -- on its own: {}", k + 1, n + 1, short(y), short(x)); }
        ensure!(a.len() == b.len(), "script {} {how} has another number of steps", k + 1);
    }
    Ok(())
}
fn p29(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(1, 4) { return p29_built(s, c); }
    let k = 2 + s.u(3);
    let mut scripts: Vec<Script> = vec![];
    for n in 0..k {
        if n > 0 && s.chance(1, 3) { // another model under the same numbers
            let mut x = scripts[s.u(n)].clone();
            let i = s.u(x.g.insts.len()); let v = one_of_kind(s, "Material", true); let m = v.0.get(v.1).unwrap().clone();
            if m.vals.iter().all(|v| !matches!(v, Val::Ref(_))) { x.g.insts[i] = Inst { id: x.g.insts[i].id, ..m }; }
            let h = header(s);
            x.text = render_file(s, PLAIN, &h, &x.g);
            x.steps = (0..2 + s.u(8)).map(|_| s.bits()).collect();
            scripts.push(x); continue;
        }
        let o = GenOpts { budget: 3 + s.u(14), n_roots: (1, 4), plain_ids: s.bool(), ..Default::default() };
        let g = graph(s, o);
        let h = header(s);
        let st = any_style(s);
        let text = render_file(s, st, &h, &g);
        scripts.push(Script { text, g, steps: (0..2 + s.u(8)).map(|_| s.bits()).collect() });
    }
    c.input = scripts.iter().enumerate().map(|(n, x)| format!("--- script {}: steps {:?}\n{}", n + 1, x.steps, x.text)).collect::<Vec<_>>().join("\n");
    let alone: Vec<Vec<String>> = scripts.iter().map(|x| { let mut e = Exec::new(x); while e.step() {} e.end() }).collect();
    c.eval(1);
    // interleaved
    let mut ex: Vec<Exec> = scripts.iter().map(Exec::new).collect();
    let mut order = vec![];
    let total: usize = scripts.iter().map(|x| x.steps.len()).sum();
    while order.len() < total { let n = s.u(k); let n = (0..k).map(|d| (n + d) % k).find(|n| ex[*n].at < scripts[*n].steps.len()).unwrap(); ex[n].step(); order.push(n + 1); }
    c.input = format!("order {order:?}\n{}", c.input);
    let held = alone.iter().filter(|a| a[0] == "read").count();
    compare(&alone, ex.into_iter().map(|e| e.end()).collect(), &format!("interleaved as {order:?}"))?;
    if held >= 2 && order.windows(2).any(|p| p[0] != p[1]) { c.non_trivial(&(&c.input.clone(), 0)); }
    if s.chance(1, 4) {
        let barrier = std::sync::Barrier::new(k);
        let got: Vec<Vec<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = scripts.iter().map(|x| { let b = &barrier; std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { let mut e = Exec::new(x); b.wait(); while e.step() {} e.end() }).expect("harness: thread") }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        compare(&alone, got, "in parallel threads")?;
        c.label("threads"); c.eval(1);
    }
    c.sample(|| format!("order {order:?}"));
    Ok(())
}
/// A built file without what is different every time: identifiers, times, numbering, the order of relations and of
/// their members. Every record with what it refers to, down to six levels.
fn outline(t: &str) -> Result<Vec<(u64, String)>, String> {
    let d = parse_doc(t)?;
    fn plain(v: &Val, k: Option<&K>, rel: bool, h: &HashMap<u64, u64>) -> String {
        match (v, k) {
            (_, Some(K::Guid | K::Ts)) => "?".into(),
            (Val::Ref(r), _) => format!("#{:x}", h.get(r).copied().unwrap_or(1)),
            (Val::List(l), k) => { let ik = if let Some(K::L(i)) = k { Some(*i) } else { None }; let mut l: Vec<String> = l.iter().map(|x| plain(x, ik, rel, h)).collect(); if rel { l.sort(); } format!("({})", l.join(",")) }
            (Val::Typed(n, l), _) => format!("{n}({})", l.iter().map(|x| plain(x, None, rel, h)).collect::<Vec<_>>().join(",")),
            (v, _) => v.show(),
        }
    }
    let text = |r: &Rec, h: &HashMap<u64, u64>| {
        let e = ents().iter().find(|e| e.kw == r.kw); let rel = r.kw.starts_with("IFCREL");
        let a: Vec<String> = r.args.iter().enumerate().map(|(n, v)| if rel && n == 2 { "?".into() } else { plain(v, e.and_then(|e| e.fields.get(n)).map(|f| &f.k), rel, h) }).collect();
        format!("{}({})", r.kw, a.join(","))
    };
    let mut h: HashMap<u64, u64> = HashMap::new();
    for _ in 0..6 { h = d.recs.iter().map(|r| (r.id, hash_of(&text(r, &h)))).collect(); }
    let mut l: Vec<(u64, String)> = d.recs.iter().map(|r| (h[&r.id], r.raw.clone())).collect();
    for (n, v) in &d.header { let mut v = v.clone(); if n == "FILE_NAME" && v.len() > 1 { v[1] = Val::Omit; } let t = format!("{n} {}", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")); l.push((hash_of(&t), t)); }
    l.sort();
    Ok(l)
}
/// Buildings made one after another or at the same time: each comes out as it does in a thread of its own. The second
/// is like the first but for some of the choices, so that both have much the same under the same numbers.
fn p29_built(s: &mut Src, c: &mut Ctx) -> Res {
    let seed = s.bits(); let rate = [6u64, 15, 40, 100][s.u(4)];
    let mut src = Src::random(seed);
    let first = guard(|| super::build::any_project_of(&mut src))?;
    let a = src.tape.clone();
    let mut b = a.clone(); for x in b.iter_mut() { if s.chance(1, rate) { *x = s.bits() >> 11; } }
    if a.len() > 4000 { return Ok(()); }
    let alone = |t: &[u64]| -> Result<Vec<(u64, String)>, String> { std::thread::scope(|sc| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || guard(|| super::build::any_project(t))).expect("harness: thread").join().map_err(|_| "harness: thread".to_string())?).and_then(|t| outline(&t)) };
    let (wa, wb) = (alone(&a)?, alone(&b)?);
    let chk = |what: &str, got: &str, want: &[(u64, String)]| -> Res {
        let got = outline(got)?;
        let extra: Vec<&str> = { let mut w: HashMap<u64, i64> = HashMap::new(); for x in want { *w.entry(x.0).or_default() += 1; } got.iter().filter(|x| { let k = w.entry(x.0).or_default(); *k -= 1; *k < 0 }).map(|x| x.1.as_str()).collect() };
        ensure!(extra.is_empty() && got.len() == want.len(), "a building {what} differs from the same one made in a thread of its own ({} records instead of {}), for example in {:?}", got.len(), want.len(), extra.iter().min_by_key(|x| x.len()));
        Ok(())
    };
    c.input = format!("tape {a:?}\nsecond tape {b:?}\n--- first\n{first}"); c.eval(3);
    chk("made after others", &first, &wa)?;
    chk("made after a similar one", &guard(|| super::build::any_project(&b))?, &wb)?;
    chk("made after a similar one", &guard(|| super::build::any_project(&a))?, &wa)?;
    if s.chance(1, 3) {
        let barrier = std::sync::Barrier::new(2);
        let run = |t: &[u64]| { barrier.wait(); guard(|| super::build::any_project(t)) };
        let (x, y) = std::thread::scope(|sc| { let h = |t: &'static str| std::thread::Builder::new().name(t.into()).stack_size(8 << 20); let x = h("a").spawn_scoped(sc, || run(&a)).expect("harness: thread"); let y = h("b").spawn_scoped(sc, || run(&b)).expect("harness: thread"); (x.join(), y.join()) });
        chk("made at the same time as another", &x.map_err(|_| "harness: thread")??, &wa)?;
        chk("made at the same time as another", &y.map_err(|_| "harness: thread")??, &wb)?;
        c.eval(2);
    }
    c.label("built");
    if wa != wb { c.non_trivial(&(seed, &b)); }
    Ok(())
}
/// `harness rewrite`: texts read and written by another process (separated by a line of its own)
pub const MARK: &str = "=====8<=====";
pub fn rewrite_all(n: u64) -> String {
    let mut out = String::new();
    for k in 0..n {
        let mut s = Src::random(hash_of(&("env", k)));
        let o = GenOpts { budget: 10, n_roots: (1, 4), ..Default::default() };
        let g = graph(&mut s, o);
        let h = header(&mut s);
        let t = render_file(&mut s, PLAIN, &h, &g);
        match read(&t) { Ok(i) => out.push_str(&i.to_string()), Err(e) => out.push_str(&e) }
        for d in ["2024-01-02T03:04:05", "2024-07-02T03:04:05+02:00", "1969-12-31T23:59:59", "2024-03-31T02:30:00"] {
            let t = t.replacen(&civil(h.ts), d, 1);
            match read(&t) { Ok(i) => out.push_str(&format!("\n{d}: {}\n{}", i.header.name.timestamp.0.timestamp(), i.header)), Err(e) => out.push_str(&format!("\n{d}: {e}")) }
        }
        out.push_str(&format!("\n{MARK}\n"));
    }
    let n0 = chrono::Utc::now().timestamp();
    let t = some_project(1);
    let n1 = chrono::Utc::now().timestamp();
    let i = read(&t).expect("a built file");
    let ts = i.header.name.timestamp.0.timestamp();
    out.push_str(&format!("time of building {}\n", if (n0 - 1..=n1 + 1).contains(&ts) { "now".into() } else { format!("off by {} s", ts - n0) }));
    for (_, o) in i.data.find_all_of_type::<OwnerHistory>() { let ts = o.creation_date.0.timestamp(); out.push_str(&format!("owner history {}\n", if (n0 - 1..=n1 + 1).contains(&ts) { "now".into() } else { format!("off by {} s", ts - n0) })); }
    out
}
fn p29_env(c: &mut Ctx) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().expect("harness: own path");
    let n = 60u64;
    let here = rewrite_all(n);
    ensure!(!here.contains("off by"), "a built file bears another time: {}", &here[here.rfind(MARK).unwrap_or(0)..]);
    let dir = super::robust::scratch();
    for (k, v) in [("TZ", "UTC"), ("TZ", "JST-9"), ("TZ", "EST5EDT,M3.2.0,M11.1.0"), ("TZ", "CET-1CEST,M3.5.0,M10.5.0/3"), ("TZ", "XXX+11:30"), ("TZ", ":/etc/localtime"), ("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("LC_NUMERIC", "de_DE"), ("HOME", "/nonexistent"), ("RUST_LOG", "trace"), ("USER", "nobody"), ("IFC_SCHEMA", "IFC2X3")] {
        let o = std::process::Command::new(&exe).args(["rewrite", &n.to_string()]).env(k, v).current_dir(&dir).output().expect("harness: child");
        c.eval(1); c.non_trivial(&(k, v)); c.input = format!("{k}={v}");
        let there = String::from_utf8_lossy(&o.stdout);
        if there != here {
            let (a, b) = here.split(MARK).zip(there.split(MARK)).find(|(a, b)| a != b).unwrap_or(("", "(it ends earlier)"));
            let d = a.lines().zip(b.lines()).find(|(x, y)| x != y).unwrap_or((a, b));
            return Err(format!("with {k}={v} in the environment: {} -- without it: {}", short(d.1), short(d.0)));
        }
    }
    // several processes at the same time and a model of a clean environment
    let o = std::process::Command::new(&exe).args(["rewrite", &n.to_string()]).env_clear().current_dir("/").output().expect("harness: child");
    ensure!(String::from_utf8_lossy(&o.stdout) == here, "without any environment the files are read or written differently");
    Ok(vec![])
}
