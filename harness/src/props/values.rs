//! P06-P10: texts, reals, enumerations, integers, identifiers.
use super::*;
use crate::edits::*;
use std::collections::HashSet;

pub static PROPS: [Prop; 5] = [
    Prop { id: "P06", rule: "a case puts hostile texts into a generated file through the text of the file, through the API (attributes, property values, header) and reads back what was written; non-trivial: each text that contains something besides ASCII letters and digits, distinct by text and place",
        assumptions: &["texts that themselves contain STEP escape sequences (backslash X) are only checked for being kept", "texts with apostrophes inside records are kept as opaque text when read (known finding)"],
        quick: 360_000, thorough: 6_000_000, case: p06, probes: &[p06_probe, p06_texts] },
    Prop { id: "P07", rule: "a case reads reals from arbitrary decimal spellings and sets arbitrary doubles through the API, in attributes, coordinates, measures and property values of random kinds; every real is an evaluation; non-trivial: each double other than a small integer, distinct by bits",
        assumptions: &["Rust's decimal-to-double conversion rounds to nearest"], quick: 360_000, thorough: 6_000_000, case: p07, probes: &[] },
    Prop { id: "P08", rule: "every literal of every enumeration attribute of every kind is read, written and set through the API once (fixed part); random cases put random literals and damaged literals into random kinds; non-trivial: each (kind, attribute, literal) distinct",
        assumptions: &["the frozen literal tables in enums.rs"], quick: 60_000, thorough: 3_000_000, case: p08, probes: &[p08_exhaustive, p08_api] },
    Prop { id: "P09", rule: "a case writes boundary-biased integers, timestamps and instance numbers into files and through the API; non-trivial: each number outside -9..9, distinct by place and value",
        assumptions: &["numbers beyond the representable range may be rejected or kept as opaque text but never read as another number"], quick: 600_000, thorough: 5_000_000, case: p09, probes: &[] },
    Prop { id: "P10", rule: "a case reads and writes files with valid global identifiers (random, boundary and single-bit patterns) and damaged ones, and creates fresh ones; non-trivial: each identifier, distinct by text",
        assumptions: &[], quick: 120_000, thorough: 3_000_000, case: p10, probes: &[p10_fresh] },
];

// ---- P06 ------------------------------------------------------------------------------------------------------------
/// every string literal of the text, undecoded
fn string_literals(t: &str) -> Vec<String> {
    let mut out = vec![]; let b: Vec<char> = t.chars().collect(); let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            let mut s = String::new(); i += 1;
            loop { if i >= b.len() { break; } if b[i] == '\'' { if i + 1 < b.len() && b[i + 1] == '\'' { s.push('\''); i += 2; continue; } break; } s.push(b[i]); i += 1; }
            out.push(s);
        }
        i += 1;
    }
    out
}
const UMLAUTS: &str = "ÄäÖöÜüß";
/// a text with STEP escape sequences other than the umlauts, which the library keeps as they are
fn escaped_text(s: &mut Src) -> String {
    let mut o = word(s);
    for _ in 0..1 + s.u(3) {
        let p = *s.pick(&["\\X2\\03A9\\X0\\", "\\X2\\00C400D6\\X0\\", "\\X\\E4", "\\S\\D", "\\X4\\0001F600\\X0\\", "\\PA\\", "\\\\", "\\X2\\00c4\\X0\\", "\\X2\\00C4", "\\X0\\", "\\X2\\", "\\n"]);
        o.push_str(p); o.push_str(&word(s));
    }
    o
}
fn has_str(f: &F) -> bool { matches!(f.k, K::Str | K::L(K::Str) | K::Value) }
fn p06(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[4, 4, 2, 2]) {
        // set through the API on a random kind
        0 => {
            let pool: Vec<&Ed> = EDITS.iter().filter(|d| has_str(ent(d.kind).fields.iter().find(|f| f.name == d.field).unwrap())).collect();
            let d = *s.pick(&pool);
            let (mut g, id) = one_of_kind(s, d.kind, false);
            let mut ifc = must_read(&render_file(s, PLAIN, &plain_header(), &g), "a plain file")?;
            let e = ent(d.kind);
            let n = e.fields.iter().position(|f| f.name == d.field).unwrap();
            let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap();
            if matches!(e.fields[n].k, K::L(_)) && !matches!(inst.vals[n], Val::List(_)) { return Ok(()); }
            let v = match e.fields[n].k { K::L(_) => Val::List((0..s.many(1, 4, 200)).map(|_| Val::Str(text(s, true))).collect()), K::Value => Val::Typed(["IFCLABEL", "IFCIDENTIFIER"][s.u(2)].into(), vec![Val::Str(text(s, true))]), _ => Val::Str(text(s, true)) };
            (d.set)(&mut ifc, id as usize, &v);
            inst.vals[n] = v.clone();
            let inst = inst.clone();
            c.input = format!("#{id} {}.{} := {}", d.kind, d.field, v.show());
            check_inst(&mut ifc, &inst)?;
            let w = write(&ifc)?;
            c.input = format!("{}\n{w}", c.input);
            let doc = parse_doc(&w).or_else(|_| parse_doc_lenient(&w))?;
            check_doc(&doc, &g.insts)?;
            let rec = doc.recs.iter().find(|r| r.id == id).unwrap();
            for l in string_literals(&rec.raw) { ensure!(!l.contains(|ch| UMLAUTS.contains(ch)), "umlaut written raw in {:?}", rec.raw); }
            // read back
            let mut b = must_read(&w, "the written file")?;
            let texts = texts_of(&v);
            let apos = inst.vals.iter().any(|v| texts_of(v).iter().any(|t| t.contains('\'')));
            if apos && kind_of(&mut b, id as usize) == "Dummy" {
                // known finding: kept as text
                let raw = get::<Dummy>(&b, id as usize).unwrap().to_string();
                ensure!(opaque_eq(&raw, &rec.raw), "the text of the record changed: {:?} became {raw:?}", rec.raw);
            } else { check_inst(&mut b, &inst).map_err(|m| format!("after writing and reading back: {m}"))?; }
            let w2 = write(&b)?;
            check_doc(&parse_doc_lenient(&w2)?, &g.insts).map_err(|m| format!("second writing: {m}"))?;
            c.eval(texts.len() as u64);
            for t in texts { if t.chars().any(|x| !x.is_ascii_alphanumeric()) { c.non_trivial(&(d.kind, d.field, t)); } }
            c.sample(|| rec.raw.clone());
        }
        // read from a file, umlauts raw or encoded, on a random kind
        1 => {
            let kinds: Vec<&'static str> = ents().iter().filter(|e| e.fields.iter().any(has_str)).map(|e| e.name).collect();
            let k = *s.pick(&kinds);
            let (mut g, id) = one_of_kind(s, k, false);
            let e = ent(k);
            let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap();
            for (n, f) in e.fields.iter().enumerate() {
                if s.chance(1, 4) { continue; }
                match f.k {
                    K::Str => inst.vals[n] = Val::Str(text(s, false)),
                    K::L(K::Str) => inst.vals[n] = Val::List((0..s.many(0, 4, 200)).map(|_| Val::Str(text(s, false))).collect()),
                    K::Value => inst.vals[n] = Val::Typed(["IFCLABEL", "IFCIDENTIFIER"][s.u(2)].into(), vec![Val::Str(text(s, false))]),
                    _ => {}
                }
            }
            let inst = inst.clone();
            let t = render_file(s, Style { noise: 0, forms: true }, &plain_header(), &g);
            c.input = t.clone();
            let mut a = must_read(&t, "a file")?;
            check_inst(&mut a, &inst)?;
            let w = write(&a)?;
            c.input = format!("{t}\n--- written\n{w}");
            let doc = parse_doc(&w).or_else(|_| parse_doc_lenient(&w))?;
            check_doc(&doc, &g.insts)?;
            let rec = doc.recs.iter().find(|r| r.id == id).unwrap();
            for l in string_literals(&rec.raw) { ensure!(!l.contains(|ch| UMLAUTS.contains(ch)), "umlaut written raw in {:?}", rec.raw); }
            let mut b = must_read(&w, "the written file")?;
            check_inst(&mut b, &inst).map_err(|m| format!("after writing and reading back: {m}"))?;
            for v in &inst.vals { for t in texts_of(v) { c.eval(1); if t.chars().any(|x| !x.is_ascii_alphanumeric()) { c.non_trivial(&(k, t)); } } }
            c.sample(|| rec.raw.clone());
        }
        // header texts set through the API
        2 => {
            let mut ifc = IFC::default();
            let h = header(s);
            ifc.header.name.name.0 = h.name.clone().into();
            ifc.header.name.preprocessor_version.0 = h.pre.clone().into();
            ifc.header.name.originating_system.0 = h.orig.clone().into();
            ifc.header.name.authorization.0 = h.auth.clone().into();
            c.input = format!("{h:?}");
            let w = write(&ifc)?;
            c.input = w.clone();
            let doc = parse_doc(&w)?;
            let b = must_read(&w, "the written header")?;
            for (n, (want, got)) in [(0, (&h.name, format!("{}", b.header.name.name.0))), (4, (&h.pre, format!("{}", b.header.name.preprocessor_version.0))), (5, (&h.orig, format!("{}", b.header.name.originating_system.0))), (6, (&h.auth, format!("{}", b.header.name.authorization.0)))] {
                let lit = &doc.header[1].1[n];
                ensure!(*lit == Val::Str(want.clone()), "FILE_NAME parameter {} should be {want:?} but is {}", n + 1, lit.show());
                ensure!(got == *want || got == format!("'{want}'"), "FILE_NAME parameter {} reads back as {got:?} instead of {want:?}", n + 1);
                c.eval(1); if want.chars().any(|x| !x.is_ascii_alphanumeric()) { c.non_trivial(&("header", n, want)); }
            }
            c.sample(|| w.lines().nth(3).unwrap_or("").to_string());
        }
        // escape sequences the library does not interpret are kept
        _ => {
            let t = escaped_text(s);
            let f = file_with(&format!("IFCMATERIAL('{t}',$,$);\nIFCPROPERTYSINGLEVALUE('a','{t}',IFCLABEL('{t}'),$);\nIFCORGANIZATION($,'{t}','x',$,$);"));
            c.input = f.clone();
            let a = must_read(&f, "a file with escape sequences")?;
            ensure!(get::<Material>(&a, 1).is_some() && get::<PropertySingleValue>(&a, 2).is_some() && get::<Organization>(&a, 3).is_some(), "a text with escape sequences makes the record opaque");
            let w = write(&a)?;
            let (da, dw) = (parse_doc(&f)?, parse_doc(&w)?);
            for (x, y) in da.recs.iter().zip(&dw.recs) { ensure!(x.args == y.args, "text changed: {} became {}", x.raw, y.raw); }
            let w2 = write(&must_read(&w, "the written file")?)?;
            ensure!(w == w2, "second writing differs:\n{w}\n{w2}");
            c.eval(1); c.non_trivial(&t);
        }
    }
    Ok(())
}
fn texts_of(v: &Val) -> Vec<String> { match v { Val::Str(s) => vec![s.clone()], Val::List(l) | Val::Typed(_, l) => l.iter().flat_map(texts_of).collect(), _ => vec![] } }
/// every character, every pair of printable characters and every length, read and written
fn p06_texts(c: &mut Ctx) -> Result<Vec<String>, String> {
    let g = super::read_write::texts_graph();
    for forms in [false, true] {
        let t = render_file(&mut Src::random(6), Style { noise: 0, forms }, &plain_header(), &g);
        c.input = format!("a file of many texts:\n{}", short(&t));
        let mut a = must_read(&t, "a file of many texts")?;
        for i in &g.insts { check_inst(&mut a, i)?; c.eval(1); c.non_trivial(&("texts", i.id)); }
        if forms { break; }
        let w = write(&a)?;
        check_doc(&parse_doc(&w)?, &g.insts)?;
        for l in string_literals(&w) { if let Some(x) = l.chars().find(|ch| UMLAUTS.contains(*ch)) { return Err(format!("umlaut {x} written raw in {:?}", short(&l))); } }
        let mut b = must_read(&w, "the written file")?;
        for i in &g.insts { check_inst(&mut b, i).map_err(|m| format!("after writing and reading back: {m}"))?; }
    }
    // set through the API, apostrophes as well
    let mut ifc = must_read(&file_with("IFCMATERIAL('x',$,$);"), "a plain file")?;
    let mut texts = super::read_write::odd_texts();
    for a in ' '..='~' { texts.push(format!("{a}'")); texts.push(format!("'{a}")); texts.push(format!("a'{a}'b")); }
    let (k, n) = (ent_ix("Person"), 3);
    ifc.data.insert_new(Person::empty());
    for b in texts.chunks(400) {
        let mut p = Person::empty();
        for x in b { p = p.add_middle_name(x.as_str()); }
        ifc.data.insert(Id(2), p);
        let mut vals = vec![Val::Omit; ents()[k].fields.len()]; vals[n] = Val::List(b.iter().map(|x| Val::Str(x.clone())).collect());
        let inst = Inst { id: 2, ent: Some(k), vals, raw: String::new(), alt: false };
        c.input = format!("middle names {}", short(&format!("{b:?}")));
        check_inst(&mut ifc, &inst)?;
        let w = write(&ifc)?;
        check_doc(&parse_doc(&w)?, &[Inst { id: 1, ent: None, vals: vec![], raw: "IFCMATERIAL('x',$,$);".into(), alt: false }, inst]).or_else(|m| if m.contains("#1") { Ok(()) } else { Err(m) })?;
        c.eval(1); c.non_trivial(&("set", b));
    }
    Ok(vec![])
}
fn p06_probe(c: &mut Ctx) -> Result<Vec<String>, String> {
    let rec = "IFCMATERIAL('it''s',$,$);";
    c.eval(1); c.input = rec.into();
    let ifc = must_read(&file_with(rec), "a doubled apostrophe")?;
    if let Some(m) = get::<Material>(&ifc, 1) { ensure!(m.material.custom().map(|x| x.0.as_str()) == Some("it's"), "read as {m}"); ensure!(m.to_string() == rec, "written as {m}"); return Ok(vec![]); }
    let d = get::<Dummy>(&ifc, 1).ok_or("neither a material nor an opaque record")?.to_string();
    ensure!(d == rec, "text changed to {d:?}");
    ensure!(known("P06", "doubled-apostrophe-in-record"), "the record `{rec}` is not read as its kind but kept as an opaque record");
    Ok(vec![format!("the record `{rec}` (doubled apostrophe) is not read as its kind but kept as an opaque record")])
}

// ---- P07 ------------------------------------------------------------------------------------------------------------
/// an arbitrary decimal spelling
fn decimal(s: &mut Src) -> String {
    let digits = |s: &mut Src, n: usize| (0..n).map(|_| (b'0' + s.u(10) as u8) as char).collect::<String>();
    let n = 1 + s.len(0, 24); let a = digits(s, n);
    let n = s.len(0, 28); let b = digits(s, n);
    let e = match s.weighted(&[5, 3, 2]) { 0 => String::new(), 1 => format!("E{}", s.range(-30, 30)), _ => { let v = s.range(-340, 300); match s.u(3) { 0 => format!("E{v}"), 1 => if v < 0 { format!("E-{:03}", -v) } else { format!("E+{v:03}") }, _ => if v < 0 { format!("E{v}") } else { format!("E+{v}") } } } };
    let sign = ["", "", "-", "+"][s.u(4)];
    let a = if s.chance(1, 6) { "0".into() } else { a };
    format!("{sign}{a}.{b}{e}")
}
fn reals_of(v: &mut Val, f: &mut impl FnMut(&mut f64)) { match v { Val::Real(r) => f(r), Val::List(l) | Val::Typed(_, l) => for x in l { reals_of(x, f) }, _ => {} } }
const REAL_KINDS: &[&str] = &["Point2D", "Point3D", "Direction2D", "Direction3D", "PointList2D", "PointList3D", "MaterialLayer", "MaterialLayerSetUsage", "MaterialConstituent", "Building", "Storey", "Site", "Window", "Door", "Space", "ExtrudedAreaSolid", "RectangleProfileDef",
    "GeometricRepresentationContext", "GeometricRepresentationSubContext", "CartesianTransformationOperator3D", "CartesianTransformationOperator3DnonUniform", "PropertySingleValue", "MeasureWithUnit"];
/// Where `d` is a value of its own in a record, outside of its strings.
fn token(line: &str, d: &str) -> Option<usize> {
    line.match_indices(d).map(|x| x.0).find(|at| line[..*at].matches('\'').count() % 2 == 0 && line[..*at].ends_with(['(', ',']) && line[at + d.len()..].starts_with([',', ')']))
}
fn p07(s: &mut Src, c: &mut Ctx) -> Res {
    let k = *s.pick(REAL_KINDS);
    let (mut g, id) = one_of_kind(s, k, true);
    if k == "PropertySingleValue" { let i = g.insts.iter_mut().find(|i| i.id == id).unwrap(); i.vals[2] = Val::Typed(["IFCREAL", "IFCTHERMALTRANSMITTANCEMEASURE"][s.u(2)].into(), vec![Val::Real(1.0)]); }
    let api = s.bool();
    if !api {
        // unique stand-ins, replaced in the text by arbitrary spellings
        let mut n = 0u64; let mut subst = vec![];
        let beyond = s.chance(1, 12);
        for i in g.insts.iter_mut() { for v in i.vals.iter_mut() { reals_of(v, &mut |r| { n += 1; *r = 900_000_000_000.0 + n as f64; }) } }
        let t = render_file(s, PLAIN, &plain_header(), &g);
        for i in g.insts.iter_mut() { for v in i.vals.iter_mut() { reals_of(v, &mut |r| {
            let d = decimal(s); let x: f64 = d.strip_prefix('+').unwrap_or(&d).parse().unwrap();
            let d = if x.is_finite() { d } else { "1.5".to_string() };
            let x: f64 = d.strip_prefix('+').unwrap_or(&d).parse().unwrap();
            subst.push((format!("{}.", *r as u64), d)); *r = x; }) } }
        let mut t2 = t;
        for (a, b) in &subst { t2 = t2.replacen(a.as_str(), b, 1); }
        if beyond && !subst.is_empty() {
            // one literal beyond the double range: that record must not be read as some other number
            let big = ["1.E400", "-2.5E+309", "1.7976931348623159E308", "123456789.E99999999999"][s.u(4)];
            let root = g.get(id).unwrap().clone();
            let mut own = 0; for v in &root.vals { let mut v = v.clone(); reals_of(&mut v, &mut |_| own += 1); }
            if own == 0 { return Ok(()); }
            let line = line_of(&t2, id).to_string();
            let mut first = None; for v in &root.vals { let mut v = v.clone(); reals_of(&mut v, &mut |r| { if first.is_none() { first = Some(*r); } }); }
            let (_, d) = subst.iter().find(|(_, d)| { let x: f64 = d.strip_prefix('+').unwrap_or(d).parse().unwrap(); Some(x.to_bits()) == first.map(|f| f.to_bits()) && line.contains(d.as_str()) }).unwrap();
            let Some(at) = token(&line, d) else { return Ok(()); };
            let bad = format!("{}{big}{}", &line[..at], &line[at + d.len()..]);
            let t3 = t2.replace(&line, &bad);
            c.input = t3.clone();
            let mut a = must_read(&t3, "a file with a real beyond the double range")?;
            let kd = kind_of(&mut a, id as usize);
            ensure!(kd == "Dummy", "#{id} with the real {big} was read as {kd}");
            let raw = get::<Dummy>(&a, id as usize).unwrap().to_string();
            ensure!(raw.contains(big), "the real {big} is lost: {raw:?}");
            c.label("beyond range"); c.eval(1); c.non_trivial(&bad);
            return Ok(());
        }
        c.input = t2.clone();
        let mut a = must_read(&t2, "a file with reals")?;
        for i in &g.insts { check_inst(&mut a, i)?; }
        let w = write(&a)?;
        c.input = format!("{t2}\n--- written\n{w}");
        check_doc(&parse_doc(&w)?, &g.insts)?;
        let mut b = must_read(&w, "the written file")?;
        for i in &g.insts { check_inst(&mut b, i).map_err(|m| format!("after writing and reading back: {m}"))?; }
    } else {
        let mut a = must_read(&render_file(s, PLAIN, &plain_header(), &g), "a plain file")?;
        let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap();
        // coordinates of points and directions are set by building the value
        if !point_set(&mut a, k, inst, s) {
            let pool: Vec<&Ed> = EDITS.iter().filter(|d| d.kind == k && matches!(ent(k).fields.iter().find(|f| f.name == d.field).unwrap().k, K::Real | K::Value | K::V2 | K::V3 | K::L(K::V2) | K::L(K::V3))).collect();
            if pool.is_empty() { return Ok(()); }
            for d in pool {
                let n = ent(k).fields.iter().position(|f| f.name == d.field).unwrap();
                let v = if d.field == "value" { Val::Typed(["IFCREAL", "IFCTHERMALTRANSMITTANCEMEASURE"][s.u(2)].into(), vec![Val::Real(real(s))]) } else { new_val(s, &ent(k).fields[n].k, false) };
                (d.set)(&mut a, id as usize, &v);
                inst.vals[n] = v;
            }
        }
        let w = write(&a)?;
        c.input = w.clone();
        check_doc(&parse_doc(&w)?, &g.insts)?;
        let mut b = must_read(&w, "the written file")?;
        for i in &g.insts { check_inst(&mut b, i).map_err(|m| format!("after writing and reading back: {m}"))?; }
        c.label("api");
    }
    let mut sample = String::new();
    for i in &g.insts { for v in &i.vals { let mut v = v.clone(); reals_of(&mut v, &mut |r| { c.eval(1); if sample.is_empty() { sample = format!("{r:?}"); } if !(r.fract() == 0.0 && r.abs() < 1000.0) { c.non_trivial(&r.to_bits()); } }); } }
    c.sample(|| format!("{k}: {sample}"));
    Ok(())
}
/// stores an instance with random coordinates, for the kinds whose coordinates are only set on construction
fn point_set(a: &mut IFC, k: &str, inst: &mut Inst, s: &mut Src) -> bool {
    use bevy_math::{DVec2, DVec3};
    let (x, y, z) = (real(s), real(s), real(s));
    let id = Id(inst.id as usize);
    let l2 = Val::List(vec![Val::Real(x), Val::Real(y)]);
    let l3 = Val::List(vec![Val::Real(x), Val::Real(y), Val::Real(z)]);
    match k {
        "Point2D" => { inst.vals[0] = l2; a.data.insert(id, Point2D::from(DVec2::new(x, y))); }
        "Point3D" => { inst.vals[0] = l3; a.data.insert(id, Point3D::from(DVec3::new(x, y, z))); }
        // directions are normalised on construction: what is stored counts
        "Direction2D" => { a.data.insert(id, Direction2D::from(DVec2::new(coord(s) + 0.1234567, coord(s)))); }
        "Direction3D" => { a.data.insert(id, Direction3D::from(DVec3::new(coord(s) + 0.1234567, coord(s), coord(s)))); }
        _ => return false,
    }
    if k.starts_with("Direction") {
        if let Some(v) = (ent(k).proj)(a, inst.id as usize) { inst.vals = v }
    }
    true
}

// ---- P08 ------------------------------------------------------------------------------------------------------------
/// literals of an enumeration-like attribute, as values
fn literals(k: &K) -> Vec<Val> {
    match k {
        K::En(t) => t.iter().map(|x| Val::Enum(x.to_string())).collect(),
        K::SEn(t) => t.iter().map(|x| Val::Str(x.to_string())).collect(),
        K::Bool => ["T", "F", "U"].iter().map(|x| Val::Enum(x.to_string())).collect(),
        K::Dim => (1..=3).map(Val::Int).collect(),
        K::Value => ["T", "F", "U"].iter().map(|x| Val::Typed("IFCBOOLEAN".into(), vec![Val::Enum(x.to_string())])).collect(),
        _ => vec![],
    }
}
fn p08_exhaustive(c: &mut Ctx) -> Result<Vec<String>, String> {
    for e in ents() {
        for (n, f) in e.fields.iter().enumerate() {
            for v in literals(&f.k) {
                for long in [false, true] {
                    let mut s = Src::replay(&[]);
                    let (mut g, id) = one_of_kind(&mut s, e.name, false);
                    let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap();
                    inst.vals[n] = v.clone();
                    let mut t = render_file(&mut s, PLAIN, &plain_header(), &g);
                    if long {
                        if !matches!(f.k, K::Bool | K::Value) { continue; }
                        t = t.replace(".T.", ".TRUE.").replace(".F.", ".FALSE.").replace(".U.", ".UNKNOWN.");
                    }
                    c.input = t.clone();
                    let mut a = must_read(&t, "a file")?;
                    check_inst(&mut a, &g.insts.iter().find(|i| i.id == id).unwrap().clone())?;
                    let w = write(&a)?;
                    check_doc(&parse_doc(&w)?, &g.insts)?;
                    if matches!(f.k, K::En(_) | K::SEn(_)) {
                        let tok = match &v { Val::Enum(x) => format!(".{x}."), Val::Str(x) => format!("'{x}'"), _ => String::new() };
                        let line = line_of(&w, id);
                        ensure!(line.contains(&tok), "{} {}: {tok} is written as {line}", e.name, f.name);
                    }
                    c.eval(1); c.non_trivial(&(e.name, n, v.show()));
                }
            }
        }
    }
    Ok(vec![])
}
/// every variant set through the API is written as its literal
fn p08_api(c: &mut Ctx) -> Result<Vec<String>, String> {
    for d in EDITS {
        let e = ent(d.kind);
        let n = e.fields.iter().position(|f| f.name == d.field).unwrap();
        for v in literals(&e.fields[n].k) {
            if v == Val::Enum("U".into()) || matches!(e.fields[n].k, K::Value) { continue; }
            let mut s = Src::replay(&[]);
            let (mut g, id) = one_of_kind(&mut s, e.name, false);
            let mut a = must_read(&render_file(&mut s, PLAIN, &plain_header(), &g), "a file")?;
            (d.set)(&mut a, id as usize, &v);
            g.insts.iter_mut().find(|i| i.id == id).unwrap().vals[n] = v.clone();
            let w = write(&a)?;
            c.input = w.clone();
            check_doc(&parse_doc(&w)?, &g.insts).map_err(|m| format!("{}.{} set to {}: {m}", d.kind, d.field, v.show()))?;
            c.eval(1); c.non_trivial(&(e.name, "set", n, v.show()));
        }
    }
    Ok(vec![])
}
fn damaged(s: &mut Src, lit: &str) -> String {
    let b = &lit[1..lit.len() - 1];
    let q = &lit[..1];
    let cut = |k: usize| b.chars().take(b.chars().count().saturating_sub(k)).collect::<String>();
    match s.u(8) {
        0 => format!("{q}{}{q}", cut(1)),
        1 => format!("{q}{b}X{q}"),
        2 => format!("{q}X{b}{q}"),
        3 => format!("{q}{}{q}", if b.chars().any(|c| c.is_ascii_uppercase()) { b.to_lowercase() } else { format!("{b}x") }),
        4 => format!("{q}{b}_{q}"),
        5 => format!("{q}{}{q}", b.chars().enumerate().map(|(i, c)| if i == b.len() / 2 { 'Q' } else { c }).collect::<String>()),
        6 => format!("{q}{b}{b}{q}"),
        _ => format!("{q}{q}"),
    }
}
fn p08(s: &mut Src, c: &mut Ctx) -> Res {
    let pool: Vec<(usize, usize)> = ents().iter().enumerate().flat_map(|(i, e)| e.fields.iter().enumerate().filter(|(_, f)| matches!(f.k, K::En(_) | K::SEn(_) | K::Bool)).map(move |(n, _)| (i, n))).collect();
    let (ei, n) = *s.pick(&pool);
    let e = &ents()[ei]; let f = &e.fields[n];
    let (mut g, id) = one_of_kind(s, e.name, true);
    let lits = literals(&f.k);
    let v = s.pick(&lits).clone();
    // a stand-in text, replaced by the literal
    let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap();
    inst.vals[n] = Val::Bin("@@HERE@@".into());
    let t = render_file(s, PLAIN, &plain_header(), &g);
    g.insts.iter_mut().find(|i| i.id == id).unwrap().vals[n] = v.clone();
    let lit = match (&v, &f.k) { (Val::Enum(x), K::Bool) => { let l = s.bool(); match (x.as_str(), l) { ("T", true) => ".TRUE.".into(), ("F", true) => ".FALSE.".into(), ("U", true) => ".UNKNOWN.".into(), (x, _) => format!(".{x}.") } } (Val::Enum(x), _) => format!(".{x}."), (Val::Str(x), _) => format!("'{x}'"), _ => String::new() };
    if s.chance(1, 2) {
        let t = t.replace("\"@@HERE@@\"", &lit);
        c.input = t.clone();
        let mut a = must_read(&t, "a file")?;
        for i in &g.insts { check_inst(&mut a, i)?; }
        let w = write(&a)?;
        check_doc(&parse_doc(&w)?, &g.insts)?;
        c.non_trivial(&(e.name, n, lit.as_str()));
    } else {
        let bad = damaged(s, &lit);
        let valid: Vec<String> = lits.iter().map(|v| match v { Val::Enum(x) => format!(".{x}."), Val::Str(x) => format!("'{x}'"), _ => String::new() }).chain([".TRUE.".to_string(), ".FALSE.".into(), ".UNKNOWN.".into()]).collect();
        if valid.contains(&bad) { return Ok(()); }
        let t = t.replace("\"@@HERE@@\"", &bad);
        c.input = t.clone();
        let mut a = must_read(&t, "a file with an unknown literal")?;
        let k = kind_of(&mut a, id as usize);
        if k != "Dummy" {
            let got = (e.proj)(&mut a, id as usize).map(|v| v[n].show()).unwrap_or_default();
            return Err(format!("{bad} in {}.{} was read as {got} ({k})", e.name, f.name));
        }
        c.label("damaged literal"); c.non_trivial(&(e.name, n, bad));
    }
    c.eval(1);
    c.sample(|| format!("{} {} {lit}", e.name, f.name));
    Ok(())
}

// ---- P09 ------------------------------------------------------------------------------------------------------------
fn p09(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[3, 3, 3, 2]) {
        0 => { // integers and timestamps in files
            let kinds = ["OwnerHistory", "Site", "MaterialLayer", "DimensionalExponents", "DerivedUnitElement"];
            let k = *s.pick(&kinds);
            let (mut g, id) = one_of_kind(s, k, false);
            let e = ent(k);
            let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap();
            for (n, f) in e.fields.iter().enumerate() {
                match f.k {
                    K::Int => inst.vals[n] = Val::Int(int(s) as i128), K::Ts => inst.vals[n] = Val::Int(timestamp(s) as i128),
                    K::Int32 => inst.vals[n] = Val::Int(match s.u(3) { 0 => s.bits() as i32 as i128, 1 => i32::MIN as i128, _ => i32::MAX as i128 }),
                    K::L(K::Int) => inst.vals[n] = Val::List((0..s.many(0, 5, 200)).map(|_| Val::Int(int(s) as i128)).collect()), _ => {}
                }
            }
            let inst = inst.clone();
            let t = render_file(s, Style { noise: 0, forms: true }, &plain_header(), &g);
            c.input = t.clone();
            let mut a = must_read(&t, "a file")?;
            check_inst(&mut a, &inst)?;
            let w = write(&a)?;
            check_doc(&parse_doc_lenient(&w)?, &g.insts)?;
            let mut b = must_read(&w, "the written file")?;
            check_inst(&mut b, &inst).map_err(|m| format!("read back: {m}"))?;
            // digits: plain decimal
            let line = line_of(&w, id);
            for v in &inst.vals { if let Val::Int(i) = v { ensure!(line.contains(&i.to_string()), "{i} is not written in decimal digits: {line}"); c.eval(1); if i.abs() > 9 { c.non_trivial(&(k, *i)); } } }
            c.sample(|| line.to_string());
        }
        1 => { // through the API
            let pool: Vec<&Ed> = EDITS.iter().filter(|d| matches!(ent(d.kind).fields.iter().find(|f| f.name == d.field).unwrap().k, K::Int | K::Int32 | K::Ts)).collect();
            let d = *s.pick(&pool);
            let (mut g, id) = one_of_kind(s, d.kind, false);
            let mut a = must_read(&render_file(s, PLAIN, &plain_header(), &g), "a file")?;
            let e = ent(d.kind); let n = e.fields.iter().position(|f| f.name == d.field).unwrap();
            let v = new_val(s, &e.fields[n].k, false);
            (d.set)(&mut a, id as usize, &v);
            let inst = g.insts.iter_mut().find(|i| i.id == id).unwrap(); inst.vals[n] = v.clone(); let inst = inst.clone();
            let w = write(&a)?;
            c.input = format!("{}.{} := {}\n{w}", d.kind, d.field, v.show());
            check_doc(&parse_doc_lenient(&w)?, &g.insts)?;
            check_inst(&mut must_read(&w, "the written file")?, &inst)?;
            c.eval(1); c.non_trivial(&(d.kind, d.field, v.show()));
        }
        2 => { // instance numbers
            let n = 2 + s.u(6);
            let mut ids: Vec<u64> = vec![];
            while ids.len() < n { let x = match s.u(5) { 0 => s.below(100), 1 => u64::MAX - s.below(1000), 2 => s.bits(), 3 => 1 << s.u(64), _ => [0, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1][s.u(7)] }; if !ids.contains(&x) { ids.push(x); } else { let y = ids.iter().max().unwrap().checked_add(1).unwrap_or(5 + ids.len() as u64); if !ids.contains(&y) { ids.push(y); } } }
            // a chain of organisations with one role each, in random order
            let mut order: Vec<usize> = (0..n).collect(); s.shuffle(&mut order);
            let target: Vec<usize> = (0..n).map(|_| 1 + s.u(n - 1)).collect();
            let mut recs = String::new();
            for i in &order { let i = *i; if i == 0 { recs += &format!("#{}=IFCPERSON($,'p0',$,$,$,$,({}),$);\n", ids[0], target.iter().map(|t| format!("#{}", ids[*t])).collect::<Vec<_>>().join(",")); } else { recs += &format!("#{}=IFCACTORROLE(.ARCHITECT.,$,'r{i}');\n", ids[i]); } }
            let t = file_with(recs.trim_end());
            c.input = t.clone();
            let a = must_read(&t, "a file with arbitrary instance numbers")?;
            let p = get::<Person>(&a, ids[0] as usize).ok_or("person is not under its number")?;
            let refs: Vec<u64> = p.roles.custom().map(|r| r.0.iter().map(|t| t.id().0 as u64).collect()).unwrap_or_default();
            ensure!(refs == target.iter().map(|t| ids[*t]).collect::<Vec<_>>(), "references read as {refs:?}");
            for i in 1..n { let r = get::<ActorRole>(&a, ids[i] as usize).ok_or(format!("#{} is missing", ids[i]))?; ensure!(r.description.custom().map(|d| d.0.clone()) == Some(format!("r{i}")), "#{} denotes another instance", ids[i]); }
            let w = write(&a)?;
            let doc = parse_doc(&w)?;
            let mut want: Vec<(u64, String)> = ids.iter().enumerate().map(|(i, id)| (*id, if i == 0 { "p0".into() } else { format!("r{i}") })).collect(); want.sort();
            ensure!(doc.recs.iter().map(|r| r.id).collect::<Vec<_>>() == want.iter().map(|x| x.0).collect::<Vec<_>>(), "numbers written: {:?}", doc.recs.iter().map(|r| r.id).collect::<Vec<_>>());
            for (r, (id, name)) in doc.recs.iter().zip(&want) { ensure!(r.raw.contains(&format!("'{name}'")), "#{id} is written as {}", r.raw); }
            let f = doc.recs.iter().find(|r| r.id == ids[0]).unwrap();
            ensure!(f.args[6] == Val::List(target.iter().map(|t| Val::Ref(ids[*t])).collect()), "references written as {}", f.args[6].show());
            c.eval(n as u64); for i in &ids { if *i > 9 { c.non_trivial(&("id", *i)); } }
            c.sample(|| recs.clone());
        }
        _ => { // beyond the range: never another number
            let big = match s.u(4) { 0 => format!("{}{}", ["", "-"][s.u(2)], 9223372036854775808u128 + s.bits() as u128 + 1), 1 => "9223372036854775808".into(), 2 => "-9223372036854775809".into(), _ => format!("{}", 10u128.pow(19 + s.u(15) as u32)) };
            let (rec, kind) = match s.u(4) { 0 => (format!("IFCMATERIALLAYER($,1.,.T.,$,$,$,{big});"), "MaterialLayer"), 1 => (format!("IFCOWNERHISTORY($,$,$,.ADDED.,$,$,$,{big});"), "OwnerHistory"), 2 => (format!("IFCDIMENSIONALEXPONENTS(1,{big},0,0,0,0,0);"), "DimensionalExponents"), _ => (format!("IFCOWNERHISTORY($,$,$,.ADDED.,{big},$,$,1);"), "OwnerHistory") };
            let rec = if kind == "OwnerHistory" && s.bool() { let x = [TS_MAX + 1 + s.below(1 << 40) as i64, TS_MIN - 1 - s.below(1 << 40) as i64][s.u(2)]; rec.replace(&big, &x.to_string()) } else { rec };
            let t = file_with(&rec);
            c.input = t.clone();
            if let Ok(mut a) = read(&t).map_err(|e| { e }) {
                let k = kind_of(&mut a, 1);
                ensure!(k == "Dummy", "{rec} was read as {k}");
                ensure!(get::<Dummy>(&a, 1).unwrap().to_string() == rec, "text changed");
            } else { ensure!(!read(&t).err().unwrap_or_default().starts_with("panic"), "reading {rec} panics"); }
            // instance numbers beyond 64 bits
            let n = u64::MAX as u128 + 1 + s.below(1000) as u128;
            let t = file_with(&format!("#{n}=IFCMATERIAL('a',$,$);\n#7=IFCMATERIAL('b',$,$);"));
            match read(&t) { Err(e) => ensure!(!e.starts_with("panic"), "{e}"), Ok(a) => { let w = write(&a)?; ensure!(w.contains(&format!("#{n}")), "instance #{n} became {w}"); } }
            c.eval(2); c.non_trivial(&(rec, n));
        }
    }
    Ok(())
}

// ---- P10 ------------------------------------------------------------------------------------------------------------
fn p10(s: &mut Src, c: &mut Ctx) -> Res {
    let kinds: Vec<&'static str> = ents().iter().filter(|e| e.fields[0].k == K::Guid).map(|e| e.name).collect();
    if s.chance(2, 3) {
        let n = 1 + s.u(4);
        let mut all = vec![];
        for _ in 0..n {
            let k = *s.pick(&kinds);
            let (g, _) = one_of_kind(s, k, false);
            let t = render_file(s, PLAIN, &plain_header(), &g);
            c.input = t.clone();
            let mut a = must_read(&t, "a file")?;
            for i in &g.insts { check_inst(&mut a, i)?; }
            let w = write(&a)?;
            check_doc(&parse_doc_lenient(&w)?, &g.insts)?;
            for i in &g.insts { if let Some(e) = i.ent { if ents()[e].fields[0].k == K::Guid { if let Val::Str(x) = &i.vals[0] { ensure!(w.contains(&format!("('{x}',")), "{x} is not written literally"); c.eval(1); c.non_trivial(x); all.push(x.clone()); } } } }
        }
        c.sample(|| all.join(" "));
    } else {
        // not an identifier: the record must not be read as if it were another one
        let g = guid(s);
        let bad = match s.u(6) {
            0 => g[..21].to_string(), 1 => format!("{g}0"), 2 => { let mut b: Vec<char> = g.chars().collect(); let k = s.u(22); b[k] = *s.pick(&['-', ' ', '+', '/', '.', 'ä', '=', '#']); b.into_iter().collect() }
            3 => { let mut b = g.into_bytes(); b[0] = B64[4 + s.u(60)]; String::from_utf8(b).unwrap() }
            4 => String::new(), _ => "6ba7b810-9dad-11d1-80b4-00c04fd430c8".into(),
        };
        let t = file_with(&format!("IFCPROPERTYSET('{bad}',$,'n',$,());"));
        c.input = t.clone();
        match read(&t) {
            Err(e) => ensure!(!e.starts_with("panic"), "{e}"),
            Ok(mut a) => {
                let k = kind_of(&mut a, 1);
                ensure!(k == "Dummy", "the invalid identifier {bad:?} was read as a {k}: {}", write(&a)?);
                ensure!(write(&a)?.contains(&format!("('{bad}',")), "the text {bad:?} is lost");
            }
        }
        c.eval(1); c.non_trivial(&bad); c.label("invalid identifier");
    }
    Ok(())
}
/// decodes a 22-character identifier
fn guid_value(x: &str) -> Option<u128> {
    if x.len() != 22 { return None; }
    let mut v: u128 = 0;
    for (i, b) in x.bytes().enumerate() { let d = B64.iter().position(|c| *c == b)? as u128; if i == 0 && d > 3 { return None; } v = (v << 6) | d; }
    Some(v)
}
fn p10_fresh(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut seen = HashSet::new();
    let mut check = |x: String, c: &mut Ctx| -> Res {
        c.input = x.clone();
        let v = guid_value(&x).ok_or(format!("{x:?} is not a valid identifier"))?;
        ensure!(guid_of(v) == x, "{x:?} is not canonical");
        ensure!((v >> 76) & 0xf == 4 && (v >> 62) & 3 == 2, "{x:?} ({v:032x}) is not the encoding of a version 4 UUID");
        c.eval(1); c.non_trivial(&x);
        ensure!(seen.insert(x.clone()), "identifier {x} was created twice");
        Ok(())
    };
    for _ in 0..200_000 { check(IfcGloballyUniqueId::new_v4().base64_ifc_string(), c)?; }
    for i in 0..3000 {
        check(Wall::new(&format!("w{i}")).global_id.base64_ifc_string(), c)?;
        check(SlabType::new("t", SlabTypeEnum::Floor).global_id.base64_ifc_string(), c)?;
        let mut x = RelAggregates::new("r", Id(1), [Id(2)]);
        check(x.root_mut().global_id.base64_ifc_string(), c)?;
        let mut p = PropertySet::new("p", []);
        check(p.root_mut().global_id.base64_ifc_string(), c)?;
    }
    // created by several threads at once, and by several processes
    let parts: Vec<Vec<String>> = std::thread::scope(|sc| { let hs: Vec<_> = (0..8).map(|_| sc.spawn(|| (0..30_000).map(|_| IfcGloballyUniqueId::new_v4().base64_ifc_string()).collect())).collect(); hs.into_iter().map(|h| h.join().expect("creating an identifier panicked")).collect() });
    for x in parts.into_iter().flatten() { check(x, c)?; }
    let exe = std::env::current_exe().expect("harness: own path");
    let kids: Vec<_> = (0..12).map(|_| std::process::Command::new(&exe).args(["guids", "300"]).stdout(std::process::Stdio::piped()).spawn().expect("harness: child")).collect();
    for k in kids {
        let o = k.wait_with_output().expect("harness: child");
        let l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect();
        if l.len() != 300 { return Err(format!("a process that creates identifiers ended after {} of 300: {:?}", l.len(), o.status)); }
        for x in l { check(x, c).map_err(|e| format!("{e} (by two processes)"))?; }
    }
    // all bits of the random part vary, evenly (the bounds are more than 20 standard deviations wide)
    let mut sums = [0u64; 128];
    for x in &seen { let v = guid_value(x).unwrap(); for (i, n) in sums.iter_mut().enumerate() { *n += (v >> i & 1) as u64; } }
    for (i, n) in sums.iter().enumerate() { if !(76..80).contains(&i) && i != 62 && i != 63 { let r = *n as f64 / seen.len() as f64; ensure!((0.47..0.53).contains(&r), "bit {i} is set in {:.1} % of {} identifiers: they are not random", r * 100., seen.len()); } }
    let (mut ones, mut zeros) = (0u128, 0u128);
    for x in &seen { let v = guid_value(x).unwrap(); ones |= v; zeros |= !v; }
    let fixed: u128 = (0xf << 76) | (3 << 62);
    ensure!(ones | fixed == u128::MAX && zeros | fixed == u128::MAX, "some bits never vary: ones {ones:032x} zeros {zeros:032x}");
    Ok(vec![])
}
