//! P11-P14: header, reference checking, arbitrary and damaged input.
use super::*;
use std::collections::{BTreeMap, BTreeSet};

pub static PROPS: [Prop; 4] = [
    Prop { id: "P11", rule: "a case writes a header with random entries in a random layout, reads it, compares every field, writes it and reads the text with the independent STEP reader; or sets the header fields through the API; non-trivial: each header with a list of length other than one or a text with characters besides letters, distinct by content",
        assumptions: &["names of description entries consist of the characters the library reads as a name; items contain no comma and no bracket", "implementation level 2;1 is the only one supported"], quick: 720_000, thorough: 6_000_000, case: p11, probes: &[p11_schemas, p11_every] },
    Prop { id: "P12", rule: "a case is a random file that must be accepted, then the same file with exactly one checked reference (any kind, attribute, list position) turned to an instance of a wrong kind, to a missing number, or to an opaque record; non-trivial: each mutation, distinct by (referring kind, attribute, list length and position, wrong kind)",
        assumptions: &["the tolerated kinds per attribute in schema.rs", "owner histories of relations, property sets and material properties and the references named Weak in schema.rs are not checked by the library"], quick: 60_000, thorough: 3_000_000, case: p12, probes: &[p12_every, p12_many, p12_twins, p12_lists] },
    Prop { id: "P13", rule: "a case is a file damaged by 1-12 random edits (bytes, tokens, splices, nesting, huge numbers) or a random sequence of tokens, read from memory and sometimes from disk, and written if accepted; non-trivial: each text that differs from a well-formed file, distinct by text",
        assumptions: &["a case that needs more than 60 s counts as endless"], quick: 100_000, thorough: 8_000_000, case: p13, probes: &[p13_disk, p13_large, p13_cycles] },
    Prop { id: "P14", rule: "a case damages a well-formed file structurally (cut before the closing marker, missing keyword or terminator, mangled header, extra content), which must be rejected, or edits it at random and compares the instance numbers of an accepted file with those in the text; non-trivial: each damaged text, distinct",
        assumptions: &["instance numbers in the text are found by a scanner that knows strings and comments"], quick: 240_000, thorough: 3_000_000, case: p14, probes: &[p14_every_cut] },
];

// ---- P11 ------------------------------------------------------------------------------------------------------------
pub fn hdr_of(i: &IFC) -> Hdr {
    let h = &i.header; let n = &h.name;
    Hdr {
        descs: h.description.descriptions.iter().map(|d| (d.name.clone(), d.items.clone())).collect(),
        name: n.name.0.clone(), ts: n.timestamp.0.timestamp(), authors: n.author.0.iter().map(|a| a.0.clone()).collect(), orgs: n.organization.0.iter().map(|a| a.0.clone()).collect(),
        pre: n.preprocessor_version.0.clone(), orig: n.originating_system.0.clone(), auth: n.authorization.0.clone(),
        schemas: h.schema.0.iter().map(|s| SCHEMAS.iter().position(|x| *x == format!("{s:?}")).unwrap_or(99)).collect(),
    }
}
pub fn set_hdr(i: &mut IFC, h: &Hdr) {
    let lits: String = (0..3).map(|k| format!("'{}'", SCHEMAS[k])).collect::<Vec<_>>().join(",");
    let t = file_with("IFCMATERIAL($,$,$);").replacen("FILE_SCHEMA(('IFC4X3_ADD2'))", &format!("FILE_SCHEMA(({lits}))"), 1);
    let donor = IFC::from_str(&t).expect("harness: donor header");
    let all = donor.header.schema.0.clone();
    i.header.schema.0 = h.schemas.iter().map(|k| all[*k]).collect();
    let d0 = donor.header.description.descriptions[0].clone();
    i.header.description.descriptions = h.descs.iter().map(|(n, it)| { let mut d = d0.clone(); d.name = n.clone(); d.items = it.clone(); d }).collect();
    let a0 = donor.header.name.author.0[0].clone(); let o0 = donor.header.name.organization.0[0].clone();
    let n = &mut i.header.name;
    n.name.0 = h.name.clone();
    n.timestamp.0 = crate::gen::moment(h.ts);
    n.author.0 = h.authors.iter().map(|x| { let mut a = a0.clone(); a.0 = x.clone(); a }).collect();
    n.organization.0 = h.orgs.iter().map(|x| { let mut a = o0.clone(); a.0 = x.clone(); a }).collect();
    n.preprocessor_version.0 = h.pre.clone(); n.originating_system.0 = h.orig.clone(); n.authorization.0 = h.auth.clone();
}
/// what the text says, read with the independent reader
pub fn hdr_of_text(w: &str) -> Result<Hdr, String> {
    let d = parse_doc_lenient(w)?;
    let get = |k: usize, n: &str, len: usize| -> Result<&Vec<Val>, String> {
        let (kw, a) = d.header.get(k).ok_or(format!("{n} is not written"))?;
        ensure!(kw == n && a.len() == len, "header entity {} is {kw} with {} attributes", k + 1, a.len()); Ok(a)
    };
    let st = |v: &Val| if let Val::Str(s) = v { Ok(s.clone()) } else { Err(format!("a string is expected in the header, found {}", v.show())) };
    let li = |v: &Val| -> Result<Vec<String>, String> { if let Val::List(l) = v { l.iter().map(st).collect() } else { Err(format!("a list is expected in the header, found {}", v.show())) } };
    ensure!(d.header.len() == 3, "{} header entities", d.header.len());
    let a = get(0, "FILE_DESCRIPTION", 2)?;
    let mut descs = vec![];
    for t in li(&a[0])? {
        if t.is_empty() { continue; }
        let (n, r) = t.split_once('[').ok_or(format!("description {t:?}"))?;
        let r = r.strip_suffix(']').ok_or(format!("description {t:?}"))?;
        descs.push((n.trim().to_string(), r.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()));
    }
    ensure!(st(&a[1])? == "2;1", "implementation level {}", a[1].show());
    let n = get(1, "FILE_NAME", 7)?;
    let s = get(2, "FILE_SCHEMA", 1)?;
    let ts = st(&n[1])?;
    let mut schemas = vec![];
    for x in li(&s[0])? { schemas.push(SCHEMAS.iter().position(|y| *y == x).ok_or(format!("schema {x:?} written"))?); }
    Ok(Hdr { descs, name: st(&n[0])?, ts: parse_civil(&ts).ok_or(format!("timestamp {ts:?} written"))?, authors: li(&n[2])?, orgs: li(&n[3])?, pre: st(&n[4])?, orig: st(&n[5])?, auth: st(&n[6])?, schemas })
}
fn parse_civil(t: &str) -> Option<i64> {
    let t = t.strip_suffix('Z').or_else(|| t.strip_suffix("+00:00")).unwrap_or(t);
    let n = |a: usize, b: usize| t.get(a..b)?.parse::<i64>().ok();
    if t.len() != 19 { return None; }
    let (y, mo, d) = (n(0, 4)?, n(5, 7)?, n(8, 10)?);
    let y2 = if mo <= 2 { y - 1 } else { y }; let era = y2.div_euclid(400); let yoe = y2.rem_euclid(400);
    let doy = (153 * (if mo > 2 { mo - 3 } else { mo + 9 }) + 2) / 5 + d - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    let ts = days * 86400 + n(11, 13)? * 3600 + n(14, 16)? * 60 + n(17, 19)?;
    if civil(ts) == t { Some(ts) } else { None }
}
fn hdr_diff(want: &Hdr, got: &Hdr, how: &str) -> Res {
    macro_rules! f { ($($x:ident),*) => { $( ensure!(want.$x == got.$x, "{how}: header field {} should be {:?} but is {:?}", stringify!($x), want.$x, got.$x); )* } }
    f!(descs, name, ts, authors, orgs, pre, orig, auth, schemas);
    Ok(())
}
fn plain(t: &str) -> bool { t.chars().all(|c| c.is_ascii_alphabetic()) }
fn p11(s: &mut Src, c: &mut Ctx) -> Res {
    let h = header(s);
    if h.authors.len() != 1 || h.orgs.len() != 1 || h.descs.len() != 1 || ![&h.name, &h.pre, &h.orig, &h.auth].iter().all(|t| plain(t)) { c.non_trivial(&format!("{h:?}")); }
    let g = Graph { insts: vec![] };
    let mut ifc;
    if s.chance(2, 3) {
        let st = any_style(s);
        let mut t = render_file(s, st, &h, &g);
        if s.chance(1, 10) { t = t.replacen(&format!("{}'", civil(h.ts)), &format!("{}.{}Z'", civil(h.ts), ["5", "123", "999999999", "000"][s.u(4)]), 1); }
        c.input = t.clone();
        ifc = must_read(&t, "a file with a well-formed header")?;
        hdr_diff(&h, &hdr_of(&ifc), "after reading")?;
    } else {
        ifc = if s.bool() { IFC::default() } else { must_read(&file_with("IFCMATERIAL($,$,$);"), "a plain file")? };
        set_hdr(&mut ifc, &h);
        c.input = format!("{h:?}");
        c.label("set through the API");
        hdr_diff(&h, &hdr_of(&ifc), "after setting")?;
    }
    let w = write(&ifc)?;
    c.input = format!("{}\n--- written:\n{w}", c.input);
    hdr_diff(&h, &hdr_of_text(&w)?, "in the written text")?;
    let b = must_read(&w, "the written file")?;
    hdr_diff(&h, &hdr_of(&b), "after writing and reading back")?;
    c.eval(27);
    c.sample(|| w.clone());
    Ok(())
}
/// every schema spelling; foreign schemas are rejected, not read as another one
fn p11_schemas(c: &mut Ctx) -> Result<Vec<String>, String> {
    for (lit, k) in SCHEMA_LITS {
        let t = file_with("IFCMATERIAL($,$,$);").replacen("'IFC4X3_ADD2'", &format!("'{lit}'"), 1);
        c.input = t.clone(); c.eval(1);
        let i = must_read(&t, "a file with a known schema")?;
        ensure!(hdr_of(&i).schemas == [*k], "schema {lit} is read as {:?}", i.header.schema.0);
        ensure!(write(&i)?.contains(&format!("FILE_SCHEMA(('{}'))", SCHEMAS[*k])), "schema {lit} is written as {}", i.header.schema);
    }
    for lit in ["IFC5", "IFC2X2", "IFC4X4", "IFC4X1", "IFC2X", "IFC", "", "IFC4X3_ADD3", "AP214", "IFC4 ADD"] {
        let t = file_with("IFCMATERIAL($,$,$);").replacen("'IFC4X3_ADD2'", &format!("'{lit}'"), 1);
        c.input = t.clone(); c.eval(1);
        if let Ok(i) = read(&t) { return Err(format!("schema {lit:?} is read as {:?}", i.header.schema.0)); }
    }
    Ok(vec![])
}

/// every text and every number of list members
fn p11_every(c: &mut Ctx) -> Result<Vec<String>, String> {
    let round = |h: &Hdr, c: &mut Ctx| -> Res {
        let t = render_file(&mut Src::replay(&[]), PLAIN, h, &Graph { insts: vec![] });
        c.input = short(&t);
        let a = must_read(&t, "a file with a well-formed header")?;
        hdr_diff(h, &hdr_of(&a), "after reading").map_err(|m| short(&m))?;
        let w = write(&a)?;
        hdr_diff(h, &hdr_of_text(&w)?, "in the written text").map_err(|m| short(&m))?;
        hdr_diff(h, &hdr_of(&must_read(&w, "the written file")?), "after writing and reading back").map_err(|m| short(&m))?;
        c.eval(1); c.non_trivial(h.authors.as_slice().first().unwrap_or(&String::new())); c.non_trivial(&(h.authors.len(), h.orgs.len(), h.descs.len()));
        Ok(())
    };
    for n in (0..=260).chain([300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 3000]) {
        let l = |t: &str, n: usize| (0..n).map(|i| format!("{t}{i}")).collect::<Vec<_>>();
        let descs = if n % 2 == 0 || n > 300 { vec![("ViewDefinition".into(), l("v", n)), ("Option".into(), l("o", n / 2))] } else { (0..n).map(|i| (format!("D{i}"), l("i", i % 5))).collect() };
        round(&Hdr { descs, authors: l("a", n), orgs: l("o", n + n / 3), ..plain_header() }, c)?;
    }
    let mut texts = super::read_write::odd_texts();
    for a in ' '..='~' { for t in [format!("{a}'"), format!("'{a}"), format!("a'{a}'b"), format!("\\{a}\\"), format!("\\{a}")] { if strip_escapes(&t) == t { texts.push(t); } } }
    for (n, b) in texts.chunks(500).enumerate() {
        let at = |k: usize| b[(n * 7 + k) % b.len()].clone();
        round(&Hdr { authors: b.to_vec(), orgs: b.iter().rev().cloned().collect(), name: at(1), pre: at(2), orig: at(3), auth: at(4), ..plain_header() }, c)?;
    }
    Ok(vec![])
}

// ---- P12 ------------------------------------------------------------------------------------------------------------
pub const GEOMETRY: &[&str] = &["ArbitraryClosedProfileDef", "Axis2D", "Axis3D", "Direction2D", "Direction3D", "Point2D", "Point3D", "ExtrudedAreaSolid", "IndexedPolyCurve", "PointList2D", "PointList3D", "PolyLine", "ProductDefinitionShape", "RectangleProfileDef", "GeometricRepresentationContext", "GeometricRepresentationSubContext", "ShapeRepresentation", "LocalPlacement", "CartesianTransformationOperator3D", "CartesianTransformationOperator3DnonUniform", "MappedItem", "RepresentationMap"];
pub const OBJECTS: &[&str] = &["ActorRole", "PostalAddress", "TelecomAddress", "Application", "Organization", "OwnerHistory", "Person", "PersonAndOrganization", "Wall", "WallType", "Slab", "SlabType", "Roof", "RoofType", "Building", "Storey", "Site", "OpeningElement", "Window", "WindowType", "Project", "Space", "SpaceType", "Door", "DoorType", "ShadingDevice", "ShadingDeviceType"];
const UNITS: &[&str] = &["SiUnit", "ConversionBasedUnit", "DerivedUnit", "MonetaryUnit", "DerivedUnitElement", "MeasureWithUnit", "DimensionalExponents", "UnitAssigment"];
const MATERIALS: &[&str] = &["Material", "MaterialConstituent", "MaterialConstituentSet", "MaterialLayer", "MaterialLayerSet", "MaterialLayerSetUsage", "MaterialProperties"];
/// kinds a reader may reasonably accept in addition to those the layout table generates
fn tolerated(kind: &str, field: &str) -> &'static [&'static str] {
    match (kind, field) {
        ("ShapeRepresentation", "items") => GEOMETRY,
        ("RelAggregates", _) | ("RelContainedInSpatialStructure", _) | ("RelFillsElement", _) | ("RelVoidsElement", "relating_building_element") => OBJECTS,
        ("RelAssociatesMaterial", "relating_material") => MATERIALS,
        ("MeasureWithUnit", "unit") | ("DerivedUnitElement", "unit") | ("UnitAssigment", "units") => UNITS,
        ("GeometricRepresentationContext", "true_north") | ("GeometricRepresentationSubContext", "true_north") => &["Axis2D", "Axis3D", "Direction2D", "Direction3D"],
        ("RepresentationMap", "origin") => &["Axis2D"],
        ("Project", "representation_context") => &["GeometricRepresentationSubContext"],
        ("Person", "addresses") | ("Organization", "addresses") => &["PostalAddress", "TelecomAddress"],
        (_, "object_placement") => &["LocalPlacement", "Axis2D", "Axis3D"],
        ("ArbitraryClosedProfileDef", "outer_curve") => &["PolyLine", "IndexedPolyCurve"],
        ("ExtrudedAreaSolid", "swept_area") => &["RectangleProfileDef", "ArbitraryClosedProfileDef"],
        _ => &[],
    }
}
/// (index of the attribute, list index) of every checked reference
fn checked_positions(i: &Inst) -> Vec<(usize, Option<usize>, &'static [&'static str])> {
    let Some(e) = i.ent else { return vec![] };
    let mut out = vec![];
    for (n, (f, v)) in ents()[e].fields.iter().zip(&i.vals).enumerate() {
        match (&f.k, v) {
            (K::Ref(k), Val::Ref(_)) => out.push((n, None, *k)),
            (K::L(K::Ref(k)), Val::List(l)) => for j in 0..l.len() { out.push((n, Some(j), *k)) },
            _ => {}
        }
    }
    out
}
fn set_ref(v: &mut Val, j: Option<usize>, to: u64) { match (v, j) { (Val::List(l), Some(j)) => l[j] = Val::Ref(to), (v, _) => *v = Val::Ref(to) } }
fn names(e: &str, id: u64) -> bool {
    let m = format!("#{id}");
    e.match_indices(&m).any(|(k, _)| !e[k + m.len()..].starts_with(|c: char| c.is_ascii_digit()))
}
fn wrong_kinds(kind: &str, field: &str, allowed: &[&str]) -> Vec<&'static str> {
    ents().iter().map(|e| e.name).filter(|n| !allowed.contains(n) && !tolerated(kind, field).contains(n)).collect()
}
fn p12(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 4 + s.u(20), n_roots: (1, 3), ..Default::default() };
    let nr = 1 + s.u(3);
    let mut g = Gen::new(s, o);
    for _ in 0..nr { let k = g.s.u(ents().len()); g.add(k, 4); }
    if g.s.chance(1, 5) { g.rewire(1, 2); }
    let cands: Vec<usize> = (0..g.g.len()).filter(|i| !checked_positions(&g.g[*i]).is_empty()).collect();
    if cands.is_empty() { let (gr, _) = g.finish_map(); let t = render_file(s, PLAIN, &plain_header(), &gr); c.input = t.clone(); must_read(&t, "a file with correct references")?; return Ok(()); }
    let victim = *g.s.pick(&cands);
    let ps = checked_positions(&g.g[victim]);
    let (fi, li, allowed) = *g.s.pick(&ps);
    let e = &ents()[g.g[victim].ent.unwrap()];
    let field = e.fields[fi].name;
    let mode = g.s.weighted(&[6, 2, 1]);
    let wrong = wrong_kinds(e.name, field, allowed);
    let wk = if mode == 0 { *g.s.pick(&wrong) } else { "" };
    let target = match mode {
        0 => { // an existing instance of the wrong kind or a new one
            let ex = g.by_kind.get(&ent_ix(wk)).cloned().unwrap_or_default();
            let ex: Vec<usize> = ex.into_iter().filter(|x| *x != victim).collect();
            if !ex.is_empty() && g.s.bool() { *g.s.pick(&ex) } else { g.o.budget = g.g.len() + 2; g.add(ent_ix(wk), 1) }
        }
        2 => g.add_opaque(),
        _ => 0,
    };
    let (good, ids) = g.finish_map();
    let mut bad = good.clone();
    let vid = ids[victim];
    let to = match mode {
        1 => { let have: BTreeSet<u64> = good.insts.iter().map(|i| i.id).collect(); let mut t = match s.u(6) { 4 | 5 => good.insts[s.u(good.insts.len())].id.saturating_add([1u64 << 8, 1 << 10, 1 << 12, 1 << 16, 1 << 20, 1 << 32, 1000, 1_000_000][s.u(8)]).min(u64::MAX >> 1), 0 => good.max_id() + 1, 1 => s.below(good.max_id() + 2), 2 => s.bits() >> 1, _ => good.max_id().wrapping_mul(10) >> 4 }; while have.contains(&t) { t += 1; } t }
        _ => ids[target],
    };
    let v = bad.insts.iter_mut().find(|i| i.id == vid).unwrap();
    let len = match &v.vals[fi] { Val::List(l) => l.len(), _ => 0 };
    set_ref(&mut v.vals[fi], li, to);
    let st = if s.bool() { PLAIN } else { any_style(s) };
    let t = render_file(s, st, &plain_header(), &good);
    c.input = t.clone();
    must_read(&t, "a file with correct references")?;
    let t = render_file(s, st, &plain_header(), &bad);
    c.input = t.clone();
    let what = format!("reference {} of #{vid} ({}) in attribute {field}{}", to, e.name, li.map(|j| format!(" at list position {}", j + 1)).unwrap_or_default());
    c.non_trivial(&(e.name, field, li, len, wk, mode));
    c.sample(|| format!("{what}: {}\n{t}", match mode { 0 => format!("is a {wk}"), 1 => "is missing".into(), _ => "is an opaque record".into() }));
    match mode {
        2 => { must_read(&t, &format!("{what}, which is a record of an unsupported kind,"))?; c.label("opaque target"); }
        _ => match read(&t) {
            Ok(_) => return Err(format!("{what} {} but the file is accepted", if mode == 0 { format!("is a {wk} (#{to})") } else { "is missing".into() })),
            Err(m) if m.starts_with("panic") => return Err(format!("{what}: reading panics: {}", short(&m))),
            Err(m) => ensure!(names(&m, vid), "{what}: the error does not name #{vid}: {}", short(&m)),
        },
    }
    c.label(match mode { 0 => "wrong kind", 1 => "missing", _ => "opaque" });
    c.eval(2);
    Ok(())
}
/// every checked reference attribute of every kind: each wrong kind once, and a missing number
fn p12_every(c: &mut Ctx) -> Result<Vec<String>, String> {
    for (k, e) in ents().iter().enumerate() {
        let mut done = BTreeSet::new();
        for seed in 0..8u64 {
            let mut s = Src::random(hash_of(&("p12", e.name, seed)));
            let o = GenOpts { budget: 10, opaque: false, dummy_targets: false, plain_ids: true, ..Default::default() };
            let mut g = Gen::new(&mut s, o);
            let n = g.add(k, 2);
            let mut ps = checked_positions(&g.g[n]);
            ps.retain(|(fi, li, _)| li.map(|j| j < 3).unwrap_or(true) && done.insert((*fi, *li)));
            if ps.is_empty() { continue; }
            // one instance of every kind
            g.o.budget = 0;
            let all: Vec<usize> = (0..ents().len()).map(|k| g.add(k, 0)).collect();
            let (gr, ids) = g.finish_map();
            let vid = ids[n];
            let t = render_file(&mut s, PLAIN, &plain_header(), &gr);
            c.input = t.clone();
            must_read(&t, "a file with correct references")?;
            let line = line_of(&t, vid).to_string();
            // only the referring record is laid out again
            for (fi, li, allowed) in ps {
                let mut tos: Vec<(u64, &str)> = wrong_kinds(e.name, e.fields[fi].name, allowed).into_iter().map(|w| (ids[all[ent_ix(w)]], w)).collect();
                tos.push((ids.len() as u64 + 7, "missing"));
                for (to, w) in tos {
                    let mut inst = gr.get(vid).unwrap().clone();
                    set_ref(&mut inst.vals[fi], li, to);
                    let rec = render_record(&mut s, PLAIN, &inst);
                    let t2 = t.replacen(&line, &format!("#{vid}= {rec}"), 1);
                    c.eval(1);
                    c.non_trivial(&("every", e.name, fi, li, w));
                    match read(&t2) {
                        Ok(_) => { c.input = t2; return Err(format!("reference in attribute {} of {} #{vid} designates #{to} ({w}) but the file is accepted", e.fields[fi].name, e.name)); }
                        Err(m) if m.starts_with("panic") || !names(&m, vid) => { c.input = t2; return Err(format!("reference in attribute {} of {} #{vid} designates #{to} ({w}): {}", e.fields[fi].name, e.name, short(&m))); }
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(vec![])
}

/// whether the values can be the attributes of a record of this kind
fn fits(e: &crate::schema::Ent, v: &[Val]) -> bool {
    fn one(k: &K, v: &Val) -> bool {
        match (k, v) {
            (K::Str, Val::Str(_)) | (K::Guid, Val::Str(_)) | (K::Ref(_) | K::Weak(_), Val::Ref(_)) | (K::Bool, Val::Enum(_)) | (K::Real, Val::Real(_)) | (K::Int, Val::Int(_)) => !matches!((k, v), (K::Guid, Val::Str(s)) if s.len() != 22),
            (K::En(l), Val::Enum(x)) => l.iter().any(|y| y == x),
            (K::SEn(l), Val::Str(x)) => l.iter().any(|y| y == x),
            (K::L(k), Val::List(l)) => l.iter().all(|x| one(k, x)),
            (K::V2, Val::List(l)) => l.len() == 2 && l.iter().all(|x| matches!(x, Val::Real(_))),
            (K::V3, Val::List(l)) => l.len() == 3 && l.iter().all(|x| matches!(x, Val::Real(_))),
            _ => false,
        }
    }
    e.fields.len() == v.len() && e.fields.iter().zip(v).all(|(f, v)| if *v == Val::Omit { f.opt } else { one(&f.k, v) })
}
/// A record whose attributes are word for word those of a correct record of another kind: a reference that is allowed
/// there and not here is reported, whichever of the two comes first.
fn p12_twins(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut pairs = BTreeSet::new();
    for (kb, b) in ents().iter().enumerate() {
        for seed in 0..12u64 {
            let mut s = Src::random(hash_of(&("twins", b.name, seed)));
            let o = GenOpts { budget: 12, opaque: false, dummy_targets: false, plain_ids: true, ..Default::default() };
            let mut g = Gen::new(&mut s, o);
            let n = g.add(kb, 2);
            let (gr, ids) = g.finish_map();
            let right = gr.get(ids[n]).unwrap().clone();
            let kind = |id: u64| gr.get(id).and_then(|i| i.ent).map(|e| ents()[e].name).unwrap_or("");
            for (ka, a) in ents().iter().enumerate() {
                if ka == kb || a.kw == b.kw || !fits(a, &right.vals) { continue; }
                let mut wrong = right.clone(); wrong.ent = Some(ka); wrong.alt = false;
                let bad = checked_positions(&wrong).into_iter().find(|(fi, li, allowed)| {
                    let to = match (&wrong.vals[*fi], li) { (Val::List(l), Some(j)) => &l[*j], (v, _) => v };
                    let Val::Ref(to) = to else { return false };
                    let w = kind(*to);
                    w != "" && !allowed.contains(&w) && !tolerated(a.name, a.fields[*fi].name).contains(&w)
                });
                let Some((fi, _, _)) = bad else { continue };
                if !pairs.insert((kb, ka, fi, seed % 2)) { continue; }
                let other = gr.max_id() + 1;
                for swap in [false, true] {
                    let mut g2 = gr.clone();
                    // the correct record keeps its number or takes the higher one; its own references to itself do not occur
                    wrong.id = if swap { right.id } else { other };
                    if swap { let k = g2.insts.iter().position(|i| i.id == right.id).unwrap(); g2.insts[k].id = other; }
                    if swap && g2.insts.iter().any(|i| refs_to(&i.vals, right.id)) { continue; }
                    must_read(&render_file(&mut s, PLAIN, &plain_header(), &g2), "a file with correct references")?;
                    g2.insts.push(wrong.clone());
                    let t = render_file(&mut s, PLAIN, &plain_header(), &g2);
                    c.eval(1); c.non_trivial(&(b.name, a.name, fi, swap)); c.input = t.clone();
                    match read(&t) {
                        Ok(_) => return Err(format!("#{} ({}) has the attributes of #{} ({}), for which its attribute {} must not refer to that kind, but the file is accepted", wrong.id, a.name, if swap { other } else { right.id }, b.name, a.fields[fi].name)),
                        Err(m) => ensure!(!m.starts_with("panic") && names(&m, wrong.id), "the error for the wrong reference of #{} ({}) does not name it: {}", wrong.id, a.name, short(&m)),
                    }
                }
            }
        }
    }
    // a record alone in its file, all references of which lead nowhere
    for (k, e) in ents().iter().enumerate() {
        for (seed, to) in [(1u64, 7u64), (2, u64::MAX), (3, 0), (4, u64::MAX - 1), (5, 2), (6, 1 << 32)] {
            let mut s = Src::random(hash_of(&("alone", e.name, seed)));
            let mut g = Gen::new(&mut s, GenOpts { budget: 0, opaque: false, dummy_targets: false, plain_ids: true, ..Default::default() });
            let n = g.add(k, 2);
            let (gr, ids) = g.finish_map();
            let mut i = gr.get(ids[n]).unwrap().clone();
            i.id = 1;
            let ps = checked_positions(&i);
            if ps.is_empty() { continue; }
            fn all(v: &mut Val, to: u64) { match v { Val::Ref(r) => *r = to, Val::List(l) | Val::Typed(_, l) => for x in l { all(x, to) }, _ => {} } }
            for v in i.vals.iter_mut() { all(v, to); }
            let t = render_file(&mut s, PLAIN, &plain_header(), &Graph { insts: vec![i] });
            c.eval(1); c.non_trivial(&("alone", e.name, seed)); c.input = t.clone();
            match read(&t) {
                Ok(_) => return Err(format!("a single {} whose references lead nowhere (#{to}) is accepted", e.name)),
                Err(m) => ensure!(!m.starts_with("panic") && names(&m, 1), "the error for the references of #1 ({}) does not name it: {}", e.name, short(&m)),
            }
        }
    }
    if pairs.len() < 20 { return Err(format!("only {} pairs of kinds were tried", pairs.len())); }
    Ok(vec![])
}
/// One wrong reference in a list of otherwise correct ones: lists of many lengths, at many places.
fn p12_lists(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut ats: Vec<(usize, usize)> = (1..24).flat_map(|n| [(n, 0), (n, n / 2), (n, n - 1)]).collect();
    ats.extend([31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257].iter().flat_map(|n| [(*n, n - 1), (*n, n / 3)]));
    ats.extend([0usize, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 99, 100, 127, 128, 150, 199, 200, 255, 256, 299, 300, 319].map(|k| (320, k)));
    ats.sort(); ats.dedup();
    let mut tried = 0;
    for (k, e) in ents().iter().enumerate() {
        for (fi, f) in e.fields.iter().enumerate() {
            let K::L(K::Ref(allowed)) = &f.k else { continue };
            tried += 1;
            for (x, (n, at)) in ats.iter().enumerate() {
                let mut s = Src::random(hash_of(&("lists", e.name, fi, x)));
                let mut g = Gen::new(&mut s, GenOpts { budget: 0, opaque: false, dummy_targets: false, plain_ids: true, big: false, ..Default::default() });
                let to: Vec<u64> = (0..1 + x % 3).map(|i| g.add(ent_ix(allowed[(x + i) % allowed.len()]), 0) as u64).collect();
                let wrongs = wrong_kinds(e.name, f.name, allowed);
                let off = if wrongs.is_empty() { None } else { Some(g.add(ent_ix(wrongs[(x * 7) % wrongs.len()]), 0) as u64) };
                let r = g.add(k, 0);
                g.g[r].vals[fi] = Val::List((0..*n).map(|j| Val::Ref(to[j % to.len()])).collect());
                let (gr, ids) = g.finish_map();
                let me = ids[r];
                if x % 16 == 0 { must_read(&render_file(&mut s, PLAIN, &plain_header(), &gr), "a file with correct references")?; }
                // nowhere; to a kind not allowed; and twice, so that equal ones are looked up twice
                for how in 0..3 {
                    let bad = match (how, off) { (0, _) => gr.max_id() + 1 + x as u64, (_, Some(o)) => ids[o as usize], _ => continue };
                    let mut g2 = gr.clone();
                    let i = g2.insts.iter_mut().find(|i| i.id == me).unwrap();
                    if let Val::List(l) = &mut i.vals[fi] { l[*at] = Val::Ref(bad); if how == 2 { l[*n - 1] = Val::Ref(bad); } }
                    let t = render_file(&mut s, PLAIN, &plain_header(), &g2);
                    c.eval(1); c.non_trivial(&(e.name, fi, n, at, how)); c.input = t.clone();
                    match read(&t) {
                        Ok(_) => return Err(format!("#{me} ({}) refers to #{bad} in place {at} of the {n} of its attribute {}, which {}, but the file is accepted", e.name, f.name, if how == 0 { "does not exist" } else { "is of another kind" })),
                        Err(m) => ensure!(!m.starts_with("panic") && names(&m, me), "the error for the wrong reference of #{me} ({}) does not name it: {}", e.name, short(&m)),
                    }
                }
            }
        }
    }
    if tried < 8 { return Err(format!("only {tried} list attributes were tried")); }
    Ok(vec![])
}
fn refs_to(v: &[Val], id: u64) -> bool { v.iter().any(|v| match v { Val::Ref(x) => *x == id, Val::List(l) => refs_to(l, id), Val::Typed(_, l) => refs_to(l, id), _ => false }) }

/// the references of every instance of a large file are checked
fn p12_many(c: &mut Ctx) -> Result<Vec<String>, String> {
    let n = 70_000u64;
    // 1: point, 2..n: polylines over the point
    let t = |bad: &[(u64, String)]| {
        let mut b = String::from("IFCCARTESIANPOINT((0.,0.,0.));");
        let bad: BTreeMap<u64, &String> = bad.iter().map(|(k, v)| (*k, v)).collect();
        for i in 2..=n { b.push_str(&format!("\n#{i}= IFCPOLYLINE(({}));", bad.get(&i).map(|s| s.as_str()).unwrap_or("#1"))); }
        file_with(&b)
    };
    must_read(&t(&[]), "a large file with correct references")?;
    let ats = [2u64, 255, 256, 257, 4095, 4097, 32_767, 32_768, 65_535, 65_536, 65_537, 65_538, n - 1, n];
    for at in ats {
        for to in ["#2,#1".to_string(), format!("#{}", n + 1)] {
            let to = if at == 2 { to.replace("#2", "#3") } else { to };
            c.input = format!("polylines #2 to #{n} over one point, #{at} over {to}"); c.eval(1); c.non_trivial(&(at, &to));
            match read(&t(&[(at, to.clone())])) {
                Ok(_) => return Err(format!("{n} instances: #{at} refers wrongly to {to} but the file is accepted")),
                Err(m) => ensure!(!m.starts_with("panic") && names(&m, at), "{n} instances: the error does not name #{at}: {}", short(&m)),
            }
        }
    }
    // one list with many members
    for at in [0usize, 255, 256, 1000, 65_535, 65_536, 69_999] {
        let l: Vec<&str> = (0..70_000).map(|i| if i == at { "#9" } else { "#1" }).collect();
        c.input = format!("a polyline over 70000 points, the one at position {at} is missing"); c.eval(1); c.non_trivial(&at);
        match read(&file_with(&format!("IFCCARTESIANPOINT((0.,0.,0.));\n#2= IFCPOLYLINE(({}));", l.join(",")))) {
            Ok(_) => return Err(format!("a missing member at position {at} of a list of 70000 members: the file is accepted")),
            Err(m) => ensure!(!m.starts_with("panic") && names(&m, 2), "the error does not name #2: {}", short(&m)),
        }
    }
    Ok(vec![])
}
// ---- P13 ------------------------------------------------------------------------------------------------------------
const TOK: &[&str] = &["(", ")", ",", ";", "'", "''", "$", "*", "#", "=", ".", "/*", "*/", "\"", "\\X2\\", "\\X0\\", "\\X2\\00C4\\X0\\", "\\", "ENDSEC;", "DATA;", "HEADER;", "END-ISO-10303-21;", "ISO-10303-21;", "IFCWALL(", "IFCX(", "\n", "\r", "\t", "\0", "ä", "😀", "\u{feff}", "0", "1", "9", "-", "+", "E", "e", ".T.", ".NULL.", "NaN", "inf", "-0.", "1E400", "1.E-400", "18446744073709551616", "99999999999999999999999999", "IFCLABEL('", "IFCREAL(", "#1", "#0", "#18446744073709551615", "FILE_NAME", "FILE_SCHEMA", "((", "))", "();", "[", "]", "'V [", "2;1", "T24:00:00", "2020-02-30T00:00:00"];
fn cut_at(t: &str, s: &mut Src) -> usize { if t.is_empty() { return 0; } let mut k = s.u(t.len() + 1); while !t.is_char_boundary(k) { k -= 1; } k }
fn span(t: &str, s: &mut Src, max: usize) -> (usize, usize) { let a = cut_at(t, s); let mut b = (a + s.u(max + 1)).min(t.len()); while !t.is_char_boundary(b) { b += 1; } (a, b) }
fn mutate(t: &mut String, s: &mut Src, other: &str) {
    match s.u(12) {
        0 => { let (a, b) = span(t, s, 12); t.replace_range(a..b, ""); }
        1 => { let a = cut_at(t, s); t.insert_str(a, s.pick(TOK)); }
        2 => { let (a, b) = span(t, s, 3); let r = *s.pick(TOK); t.replace_range(a..b, r); }
        3 => { let (a, b) = span(t, s, 60); let x = t[a..b].to_string(); let k = cut_at(t, s); t.insert_str(k, &x); }
        4 => { let (a, b) = span(t, s, 400); t.replace_range(a..b, ""); }
        5 => { let (a, b) = span(other, s, 200); let x = other[a..b].to_string(); let k = cut_at(t, s); t.insert_str(k, &x); }
        6 => { let n = [10, 100, 1000, 3000][s.u(4)]; let x = s.pick(TOK).repeat(n); let k = cut_at(t, s); t.insert_str(k, &x); }
        7 => { // change one character
            let k = cut_at(t, s); if let Some(ch) = t[k..].chars().next() { let mut r = String::new(); r.push(char::from_u32(s.u(0x250) as u32).unwrap_or('?')); t.replace_range(k..k + ch.len_utf8(), &r); } }
        8 => { // a digit run becomes another number
            let b = t.as_bytes(); let ds: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
            if !ds.is_empty() { let k = *s.pick(&ds); let r = [format!("{}", s.bits()), "0".into(), "00".into(), "99999999999999999999".into(), "-1".into(), "1.5".into(), "4294967296".into(), "9223372036854775808".into()][s.u(8)].clone(); t.replace_range(k..k + 1, &r); } }
        9 => { // swap two pieces
            let (a, b) = span(t, s, 30); let x = t[a..b].to_string(); t.replace_range(a..b, ""); let k = cut_at(t, s); t.insert_str(k, &x); }
        10 => { let k = cut_at(t, s); if s.chance(1, 4) { t.truncate(k); } else { let r: String = (0..s.u(6)).map(|_| char::from_u32(s.u(128) as u32).unwrap()).collect(); t.insert_str(k, &r); } }
        _ => { // a punctuation character goes
            let ps: Vec<usize> = t.char_indices().filter(|(_, c)| "();,'#=.$*".contains(*c)).map(|x| x.0).collect();
            if !ps.is_empty() { let k = *s.pick(&ps); if s.bool() { t.remove(k); } else { let r = *s.pick(TOK); t.replace_range(k..k + 1, r); } } }
    }
}
fn arbitrary_text(s: &mut Src) -> (String, bool) {
    if s.chance(1, 12) { // token soup, possibly inside a valid frame
        let n = s.u(60);
        let soup: String = (0..n).map(|_| s.pick(TOK).to_string()).collect();
        if s.bool() { return (soup, true); }
        return (file_with("IFCMATERIAL($,$,$);").replacen("#1= IFCMATERIAL($,$,$);\n", &soup, 1), true);
    }
    let o = GenOpts { budget: 3 + s.u(8), n_roots: (1, 3), ..Default::default() };
    let g = graph(s, o.clone());
    let st = any_style(s); let h = if s.chance(1, 3) { header(s) } else { plain_header() };
    let mut t = render_file(s, st, &h, &g);
    let n = s.u(13);
    let other = if n > 0 { let g2 = graph(s, GenOpts { budget: 3, n_roots: (1, 1), ..o }); render_data(s, PLAIN, &g2) } else { String::new() };
    for _ in 0..n { mutate(&mut t, s, &other); }
    (t, n > 0)
}
pub fn scratch() -> std::path::PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let d = std::path::PathBuf::from(root).join("target").join("scratch").join(format!("{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d); d
}
struct Tmp(std::path::PathBuf);
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn tmp(name: &str) -> Tmp { Tmp(scratch().join(format!("{name}-{:?}", std::thread::current().id()).replace(['(', ')'], ""))) }
fn p13(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, changed) = arbitrary_text(s);
    c.input = t.clone();
    if changed { c.non_trivial(t.as_str()); }
    let r = read(&t);
    let w = match &r {
        Err(e) if e.starts_with("panic") => return Err(format!("reading ends in a {}", short(e))),
        Err(_) => { c.label("rejected"); None }
        Ok(i) => { c.label("accepted"); Some(write(i).map_err(|e| format!("the file was accepted but writing it ends in a {}", short(&e)))?) }
    };
    if s.chance(1, 20) {
        let f = tmp("f");
        std::fs::write(&f.0, &t).map_err(|e| e.to_string()).expect("harness: scratch file");
        let d = guard(|| IFC::from_file(&f.0)).map_err(|e| format!("reading from disk ends in a {}", short(&e)))?;
        match (d, &w) {
            (Ok(i), Some(w)) => ensure!(write(&i)? == *w, "the file read from disk is written differently from the same text read from memory"),
            (Err(_), None) => {}
            (Ok(_), None) => return Err("accepted from disk but rejected from memory".into()),
            (Err(e), Some(_)) => return Err(format!("rejected from disk ({}) but accepted from memory", short(&e.to_string()))),
        }
        c.label("from disk");
    }
    c.eval(1);
    c.sample(|| t.chars().take(1500).collect());
    Ok(())
}
fn p13_disk(c: &mut Ctx) -> Result<Vec<String>, String> {
    let dir = scratch();
    let is_err = |p: &std::path::Path, what: &str| -> Res {
        match guard(|| IFC::from_file(p)) { Ok(Err(_)) => Ok(()), Ok(Ok(_)) => Err(format!("{what} is read as a file")), Err(e) => Err(format!("{what}: {e}")) }
    };
    is_err(&dir.join("missing.ifc"), "a missing file")?;
    is_err(&dir, "a directory")?;
    let good = file_with("IFCMATERIAL('a',$,$);");
    let f = Tmp(dir.join("bytes.ifc"));
    let mut s = Src::random(5);
    for k in 0..300 {
        let mut b = good.clone().into_bytes();
        let at = if k % 3 == 0 { good.find("'a'").unwrap() + 1 } else { s.u(b.len()) };
        let bad: &[u8] = [&[0xffu8][..], &[0xc3], &[0xe4], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0x80]][s.u(6)];
        for (i, x) in bad.iter().enumerate() { b.insert(at + i, *x); }
        std::fs::write(&f.0, &b).expect("harness: scratch");
        c.input = format!("{:?}", String::from_utf8_lossy(&b)); c.eval(1);
        is_err(&f.0, "a file that is not text (invalid UTF-8)")?;
    }
    let long = |n: usize| (1..=n).map(|i| format!("#{i}= IFCMATERIAL('material number {i}',$,$);\n")).collect::<String>();
    let body = |x: &str| good.replace("#1= IFCMATERIAL('a',$,$);\n", x);
    let texts = vec![good.clone(), String::new(), good.replace('\n', "\r\n"), good.replace('\n', "\r"), good.replace('\n', " "), good.trim_end().to_string(), format!("\u{feff}{good}"), format!("{good}\0"), format!("{good}\u{1a}"), format!("\0{good}"), format!("{good}{good}"), format!("\n\n{good}\n\n"),
        good.replace("'a'", "'a\r\nb\r'"), good.replace("'a'", "'a\nb\n'"), good.replace("'a'", "'\u{feff}a'"), good.replace("'a'", "'a\0\u{1a}b'"), good.replace("'a'", "'a\u{308}o\u{308}\u{1f3e0}\u{212b}'"), good.replace("'a'", "'\u{e4}\u{201c}\u{a0}\u{2028}\u{85}\u{b}\u{c}'"), good.replace("'a'", "'a \t '"),
        good.to_lowercase(), good.replace("'a'", &format!("'{}'", "x".repeat(70_000))), body(&long(2_000)), body(&long(12_000)), good.replace("'a'", &format!("'{}'", "\u{20ac}".repeat(50_000)))];
    ensure!(body("") != good, "harness: no record in {good}");
    for t in texts {
        std::fs::write(&f.0, &t).expect("harness: scratch");
        c.input = t.clone(); c.eval(1); c.non_trivial(&t);
        let m = guard(|| IFC::from_str(&t))?; let d = guard(|| IFC::from_file(&f.0))?;
        ensure!(m.is_ok() == d.is_ok(), "reading from disk differs from reading from memory: {} in memory, {} from disk", if m.is_ok() { "accepted" } else { "rejected" }, if d.is_ok() { "accepted" } else { "rejected" });
        if let (Ok(m), Ok(d)) = (m, d) { ensure!(m.to_string() == d.to_string(), "reading from disk differs from reading from memory"); }
    }
    // sizes at which a buffer or a limit of the reader could end
    for k in [1usize << 16, 1 << 20, 5 << 20, 17 << 20, 66 << 20] {
        let t = good.replace("'a'", &format!("'{}'", "ab\u{20ac}d f".repeat(k / 8 + 1)));
        std::fs::write(&f.0, &t).expect("harness: scratch");
        c.input = format!("a material with a name of {} bytes", k / 8 * 8 + 8); c.eval(1); c.non_trivial(&k);
        let m = guard(|| IFC::from_str(&t))?; let d = guard(|| IFC::from_file(&f.0))?;
        match (m, d) { (Ok(m), Ok(d)) => ensure!(m.to_string() == d.to_string(), "a long file is read differently from disk"), (Err(_), Err(_)) => return Err("a well-formed long file is rejected".into()), (m, d) => return Err(format!("a long file is {} from memory and {} from disk", if m.is_ok() { "accepted" } else { "rejected" }, if d.is_ok() { "accepted" } else { "rejected" })) }
    }
    // UTF-16 is no text here, whatever the byte order mark says
    for le in [true, false] { for bom in [true, false] {
        let b: Vec<u8> = format!("{}{good}", if bom { "\u{feff}" } else { "" }).encode_utf16().flat_map(|u| if le { u.to_le_bytes() } else { u.to_be_bytes() }).collect();
        std::fs::write(&f.0, &b).expect("harness: scratch"); c.eval(1);
        is_err(&f.0, "a file in UTF-16")?;
    } }
    // the outcome depends on the content only, not on the name of the file
    for name in ["plain", "a.ifc.bak", "x.IFCZIP", "with blank \u{e4}.txt", "x.ifcxml", ".hidden"] {
        let f = Tmp(dir.join(name)); std::fs::write(&f.0, &good).expect("harness: scratch");
        c.input = format!("{name}\n{good}"); c.eval(1);
        match guard(|| IFC::from_file(&f.0))? { Ok(i) => ensure!(i.to_string() == good || i.to_string() == IFC::from_str(&good).unwrap().to_string(), "a file called {name:?} is read differently"), Err(e) => return Err(format!("a file called {name:?} is rejected: {e}")) }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(vec![])
}
/// references that run in circles, to the instance itself or all to one instance
fn p13_cycles(c: &mut Ctx) -> Result<Vec<String>, String> {
    for seed in 0..1500u64 {
        let mut s = Src::random(hash_of(&("cycles", seed)));
        let o = GenOpts { budget: 30, opaque: false, dummy_targets: false, plain_ids: true, ..Default::default() };
        let mut g = Gen::new(&mut s, o);
        // every kind in turn, alone or among others
        g.add(seed as usize % ents().len(), 4);
        for _ in 0..seed / 300 { let k = g.s.u(ents().len()); g.add(k, 4); }
        g.rewire(4, 5);
        let gr = g.finish();
        let t = render_file(&mut s, PLAIN, &plain_header(), &gr);
        c.input = t.clone(); c.eval(1); c.non_trivial(&("cycles", &t));
        let i = must_read(&t, "a file with correct references, some of them in circles,")?;
        let w = write(&i).map_err(|e| format!("the file was accepted but writing it ends in a {}", short(&e)))?;
        for x in &gr.insts { ensure!(i.data.contains(&Id(x.id as usize)), "instance #{} is missing", x.id); }
        c.eval(w.len().min(1) as u64);
    }
    Ok(vec![])
}
/// long and deeply nested texts: reading ends in reasonable time
fn p13_large(c: &mut Ctx) -> Result<Vec<String>, String> {
    let n = 20_000;
    let recs: Vec<String> = vec![
        format!("IFCX({});", "(".repeat(n)), format!("IFCX({}{});", "(".repeat(n), ")".repeat(n)), format!("IFCPOLYLINE(({}));", "(".repeat(n)),
        format!("IFCMATERIAL('{}',$,$);", "a".repeat(n)), format!("IFCMATERIAL('{}',$,$);", "\\X2\\00C4\\X0\\".repeat(n / 4)), format!("IFCMATERIAL('{},$,$);", "''".repeat(n)),
        format!("IFCREAL({});", "9".repeat(n)), format!("IFCPROPERTYSINGLEVALUE('a',$,IFCREAL({}.),$);", "9".repeat(n)), format!("IFCPROPERTYSINGLEVALUE('a',$,IFCREAL(1.E{}),$);", "9".repeat(n)),
        format!("IFCMONETARYUNIT({});", "/* c */".repeat(n / 4)), format!("IFCX({}", "/*".repeat(n)), format!("IFCX({})", "=".repeat(n)), "#1=".repeat(n), format!("IFCX({});", "'".repeat(n)),
        format!("IFCPOLYLINE(({}));", vec!["#1"; n].join(",")), format!("IFCPOLYLINE(({}", vec!["#1"; n].join(",")), format!("{}IFCMATERIAL('a',$,$);", " ".repeat(n)), format!("{}IFCMATERIAL('a',$,$);", "/**/".repeat(n / 4)),
        format!("IFCPERSON($,$,$,({}),$,$,$,$);", vec!["'x'"; n].join(",")), format!("IFCPERSON($,$,$,({}),$,$,$,$);", ",".repeat(n)),
        (0..n / 4).map(|i| format!("#{}= IFCMATERIAL('m{i}',$,$);", i + 2)).collect::<Vec<_>>().join("\n"),
    ];
    for r in recs {
        let t = file_with(&r);
        c.input = t.chars().take(300).collect(); c.eval(1); c.non_trivial(&t);
        match read(&t) { Err(e) if e.starts_with("panic") => return Err(e), Ok(i) => { write(&i)?; } _ => {} }
    }
    Ok(vec![])
}

// ---- P14 ------------------------------------------------------------------------------------------------------------
/// numbers n of `#n =` outside strings and comments; None if a string or comment is not closed
fn numbers(t: &str) -> Option<BTreeSet<u64>> {
    let b = t.as_bytes(); let mut i = 0; let mut out = BTreeSet::new();
    while i < b.len() {
        match b[i] {
            b'\'' => { i = t[i + 1..].find('\'')? + i + 2; }
            b'/' if b[i..].starts_with(b"/*") => { i = t[i + 2..].find("*/")? + i + 4; }
            b'#' => {
                let a = i + 1; i = a;
                while i < b.len() && b[i].is_ascii_digit() { i += 1; }
                let e = i; let mut j = i;
                loop {
                    while j < b.len() && b[j].is_ascii_whitespace() { j += 1; }
                    if b[j..].starts_with(b"/*") { j = t[j + 2..].find("*/")? + j + 4; } else { break; }
                }
                if j < b.len() && b[j] == b'=' { if let Ok(n) = t[a..e].parse() { out.insert(n); } }
            }
            _ => i += 1,
        }
    }
    Some(out)
}
fn stored(i: &IFC) -> BTreeSet<u64> { parse_doc_lenient(&i.to_string()).map(|d| d.recs.iter().map(|r| r.id).collect()).unwrap_or_default() }
fn must_reject(t: &str, what: &str) -> Res {
    match read(t) { Ok(i) => Err(format!("{what} is accepted, with instances {:?}", stored(&i).iter().take(20).collect::<Vec<_>>())), Err(e) if e.starts_with("panic") => Err(format!("{what}: {}", short(&e))), Err(_) => Ok(()) }
}
fn p14(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 2 + s.u(6), n_roots: (1, 3), big: false, ..Default::default() };
    let g = graph(s, o);
    match s.weighted(&[4, 4, 3, 3]) {
        0 => { // cut
            let st = any_style(s);
            let h = header(s);
            let t = render_file(s, st, &h, &g);
            must_read(&t, "a well-formed file").map_err(|e| { c.input = t.clone(); e })?;
            let end = t.rfind("END-ISO-10303-21;").unwrap() + "END-ISO-10303-21;".len() - 1;
            let end = if t[end..].contains("*/") { t.find("ENDSEC;").unwrap() } else { end }; // marker may stand in a trailing comment
            for _ in 0..12 {
                let mut k = match s.u(3) { 0 => end - s.u(end.min(40)), _ => s.u(end + 1) };
                while !t.is_char_boundary(k) { k -= 1; }
                c.input = t[..k].to_string(); c.eval(1); c.non_trivial(&c.input.clone());
                must_reject(&t[..k], "a file cut off before its closing marker")?;
            }
            c.label("cut");
        }
        1 => { // one structural part goes
            let st = Style { noise: s.u(2) as u8, forms: s.bool() };
            let hdr = render_header(s, st, &plain_header());
            let recs: Vec<String> = g.insts.iter().map(|i| { let r = render_record(s, st, i); format!("#{}= {r}", i.id) }).collect();
            let parts = |h: &str, d: &str, r: &[String], e: &str, f: &str| format!("{h}{d}{}{e}{f}", r.iter().map(|x| format!("{x}\n")).collect::<String>());
            must_read(&parts(&hdr, "DATA;\n", &recs, "ENDSEC;\n", "END-ISO-10303-21;\n"), "a well-formed file")?;
            let (what, t) = match s.u(9) {
                0 => ("a file without DATA", parts(&hdr, ["", ";\n", "DATA\n", "DAT;\n", "ATA;\n"][s.u(5)], &recs, "ENDSEC;\n", "END-ISO-10303-21;\n")),
                1 => ("a file without ENDSEC of the data section", parts(&hdr, "DATA;\n", &recs, ["", ";\n", "ENDSEC\n", "ENDSE;\n", "NDSEC;\n", "ENDSEC:\n"][s.u(6)], "END-ISO-10303-21;\n")),
                2 => ("a file without closing marker", parts(&hdr, "DATA;\n", &recs, "ENDSEC;\n", ["", ";\n", "END-ISO-10303-21\n", "END-ISO-10303-22;\n", "ISO-10303-21;\n", "END-ISO-10303;\n"][s.u(6)])),
                3 => { // a record terminator
                    let k = s.u(recs.len()); let mut r = recs.clone(); r[k] = r[k].trim_end().strip_suffix(';').unwrap().to_string();
                    ("a file with a record without terminator", parts(&hdr, "DATA;\n", &r, "ENDSEC;\n", "END-ISO-10303-21;\n")) }
                4 => { // last record
                    let k = recs.len() - 1; let mut r = recs.clone(); r[k] = r[k].trim_end().strip_suffix(';').unwrap().to_string();
                    ("a file whose last record has no terminator", parts(&hdr, "DATA;\n", &r, "ENDSEC;\n", "END-ISO-10303-21;\n")) }
                5 => { // '=' or the number goes
                    let k = s.u(recs.len()); let mut r = recs.clone();
                    r[k] = if s.bool() { r[k].replacen("= ", " ", 1) } else { r[k].split_once("= ").unwrap().1.to_string() };
                    ("a file with a record without number or equals sign", parts(&hdr, "DATA;\n", &r, "ENDSEC;\n", "END-ISO-10303-21;\n")) }
                6 => { // text between the sections or after the end
                    let junk = *s.pick(&["x", ";", "#1= IFCX();\n", "DATA;\nENDSEC;\n", "END-ISO-10303-21;", "ISO-10303-21;", "'", "0", "ENDSEC;", "é", "/* open", "*/", "(", "HEADER;", ",", "\u{0}", "\0\0", "\u{1a}", "\u{feff}", "\u{a0}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{7f}", "\\", "--", "//", "#"]);
                    let nl = *s.pick(&["\n", "", "\r\n"]);
                    ("a file with extra content", match s.u(4) {
                        0 => parts(&hdr, &format!("{junk}{nl}DATA;\n"), &recs, "ENDSEC;\n", "END-ISO-10303-21;\n"),
                        1 if junk != "END-ISO-10303-21;" => parts(&hdr, "DATA;\n", &recs, &format!("ENDSEC;\n{junk}{nl}"), "END-ISO-10303-21;\n"),
                        2 => format!("{junk}{nl}{}", parts(&hdr, "DATA;\n", &recs, "ENDSEC;\n", "END-ISO-10303-21;\n")),
                        _ => parts(&hdr, "DATA;\n", &recs, "ENDSEC;\n", &format!("END-ISO-10303-21;{}{junk}{nl}", *s.pick(&["\n", ""]))),
                    }) }
                7 => { // trailing second file
                    let x = parts(&hdr, "DATA;\n", &recs, "ENDSEC;\n", "END-ISO-10303-21;\n"); ("two files in one", format!("{x}{x}")) }
                _ => { // header
                    let h = mangle_header(s, &hdr);
                    ("a file with a mangled header", parts(&h, "DATA;\n", &recs, "ENDSEC;\n", "END-ISO-10303-21;\n")) }
            };
            c.input = t.clone(); c.eval(1); c.non_trivial(&t);
            must_reject(&t, what)?;
            c.label("part missing");
        }
        2 => { // well-formed: all numbers present
            let st = any_style(s);
            let t = render_file(s, st, &plain_header(), &g);
            c.input = t.clone(); c.eval(1);
            let i = must_read(&t, "a well-formed file")?;
            let want: BTreeSet<u64> = g.insts.iter().map(|i| i.id).collect();
            ensure!(numbers(&t) == Some(want.clone()), "harness: scanner finds {:?}", numbers(&t));
            for n in &want { ensure!(i.data.contains(&Id(*n as usize)), "#{n} is dropped"); }
            ensure!(stored(&i) == want, "instances {:?} for {want:?}", stored(&i));
        }
        _ => { // random edits
            let st = any_style(s);
            let mut t = render_file(s, st, &plain_header(), &g);
            let orig = t.clone();
            for _ in 0..1 + s.u(2) { mutate(&mut t, s, &orig); }
            c.input = t.clone(); c.eval(1); c.non_trivial(&t);
            if let Ok(i) = read(&t) {
                if let Some(want) = numbers(&t) {
                    for n in &want { ensure!(i.data.contains(&Id(*n as usize)), "the file is accepted but #{n} is dropped"); }
                    c.label("edited and accepted");
                }
            }
        }
    }
    let smp = c_input(&c.input); c.sample(|| smp);
    Ok(())
}
fn c_input(t: &str) -> String { t.chars().take(1500).collect() }
fn mangle_header(s: &mut Src, h: &str) -> String {
    let cut = |h: &str, a: &str, b: &str| { let x = h.replacen(a, b, 1); assert!(x != h, "harness: {a:?} not in header {h}"); x };
    // structure words are unique in the plain header
    let sub: &[(&str, &[&str])] = &[
        ("ISO-10303-21;", &["", "ISO-10303-22;", "ISO-10303-21", "iso-10303-21;", "ISO_10303_21;"]), ("HEADER;", &["", "HEADER", "HEADR;", "HEADER:"]),
        ("FILE_DESCRIPTION", &["", "FILE_DESCRIPTIO", "FILE_DESC", "FILE_NAME"]), ("FILE_NAME", &["", "FILE_NAM", "FILE_SCHEMA", "FILENAME"]), ("FILE_SCHEMA", &["", "FILE_SCHEM", "FILE_NAME", "SCHEMA"]),
        ("ENDSEC;", &["", "ENDSEC", "ENDSE;", "END;"]), ("'2;1'", &["", "$", "2;1", "'2;1"]), ("'IFC", &["'XFC", "'", "IFC", "'IFC9"]),
        ("ViewDefinition [", &["ViewDefinition ", "[", "ViewDefinition ]"]), ("]'", &["'", "]", "]]]"]), ("2020-09-13T", &["2020-13-13T", "2020-09-31T", "2020-09-13 at ", "", "20-09-13T"]),
    ];
    let (a, bs) = sub[s.u(sub.len())];
    if h.contains(a) { let b = *s.pick(bs); let r = cut(h, a, b);
        // "[" as a name is an empty name, which the library reads; "$"-less variants are all malformed
        if (a, b) == ("ViewDefinition [", "[") { return cut(h, "FILE_SCHEMA", "FILE"); }
        if a == "'IFC" && b == "'" { return cut(h, "FILE_SCHEMA", "FILE"); }
        return r; }
    cut(h, "FILE_NAME", "FILE")
}
fn p14_every_cut(c: &mut Ctx) -> Result<Vec<String>, String> {
    let recs = ["IFCMATERIAL('a',$,$);", "IFCX('ENDSEC; END-ISO-10303-21;',#1);", "IFCMATERIALLAYER(#1,0.5,.T.,'x','y',$,3);", "IFCCARTESIANPOINT((1.,2.,3.));", "IFCY(/* ENDSEC; END-ISO-10303-21; */ $);", "IFCPERSON($,'a','b',('c','d'),$,$,$,$);"];
    let t = file_with(&recs.join("\n"));
    must_read(&t, "a well-formed file")?;
    let end = t.rfind("END-ISO-10303-21;").unwrap() + "END-ISO-10303-21;".len();
    for k in 0..end { c.input = t[..k].to_string(); c.eval(1); c.non_trivial(&c.input.clone()); must_reject(&t[..k], "a file cut off before its closing marker")?; }
    must_read(&t[..end], "the file without trailing line break")?;
    Ok(vec![])
}
