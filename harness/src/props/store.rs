//! P15, P25: the instance store as a map, locality of edits, determinism of writing.
use super::*;
use std::collections::BTreeMap;

pub static PROPS: [Prop; 2] = [
    Prop { id: "P15", rule: "a case is a history of 1-40 store operations on an empty store, a parsed file or a store assembled from pairs, replayed on a plain map; non-trivial: the history contains a replacement or a removal followed by an automatic insertion, distinct by the operation list",
        assumptions: &["automatic numbering is not driven up to the largest machine number"], quick: 180_000, thorough: 2_000_000, case: p15, probes: &[p15_numbers] },
    Prop { id: "P25", rule: "a case is a generated file with one edit (attribute, insertion, removal, replacement, header field) or the same content assembled in two insertion orders; non-trivial: at least three instances, distinct by written text and edit",
        assumptions: &[], quick: 150_000, thorough: 1_500_000, case: p25, probes: &[] },
];

type Find = fn(&IFC) -> (Vec<(u64, String)>, Vec<u64>, bool);
macro_rules! finders { ($($t:ident),*) => { &[$((stringify!($t), |ifc: &IFC| {
    let a: Vec<(TypedId<$t>, &$t)> = ifc.data.find_all_of_type::<$t>().collect();
    let same = a.iter().all(|(i, t)| std::ptr::eq(ifc.data.get(*i), *t));
    (a.iter().map(|(i, t)| (i.id().0 as u64, t.to_string())).collect(), ifc.data.id_of::<$t>().map(|i| i.id().0 as u64).collect(), same)
})),*] } }
pub static FINDERS: &[(&str, Find)] = finders!(Dummy, ActorRole, PostalAddress, TelecomAddress, Application, Organization, OwnerHistory, Person, PersonAndOrganization, Wall, WallType, Slab, SlabType, Roof, RoofType,
    Building, Storey, Site, OpeningElement, Window, WindowType, Project, Space, SpaceType, Door, DoorType, ShadingDevice, ShadingDeviceType, ArbitraryClosedProfileDef, Axis2D, Axis3D, Direction2D, Direction3D,
    Point2D, Point3D, ExtrudedAreaSolid, IndexedPolyCurve, PointList2D, PointList3D, PolyLine, ProductDefinitionShape, RectangleProfileDef, GeometricRepresentationContext, GeometricRepresentationSubContext,
    ShapeRepresentation, LocalPlacement, CartesianTransformationOperator3D, CartesianTransformationOperator3DnonUniform, RelAggregates, RelAssociatesMaterial, RelContainedInSpatialStructure, RelDeclares,
    RelDefinesByProperties, RelDefinesByType, RelFillsElement, RelVoidsElement, MappedItem, RepresentationMap, UnitAssigment, ConversionBasedUnit, SiUnit, DimensionalExponents, MeasureWithUnit, DerivedUnit,
    DerivedUnitElement, MonetaryUnit, Material, MaterialConstituent, MaterialConstituentSet, MaterialLayer, MaterialLayerSet, MaterialLayerSetUsage, PropertySet, PropertySingleValue);

/// a simple instance that can be made several times over
#[derive(Clone, Debug)]
pub enum N { P2(f64, f64), P3(f64, f64, f64), D3(usize), Mat(String), Person(String), Op(String), Psv(String, String), Storey(String), Site(String) }
pub fn new_n(s: &mut Src, apos: bool) -> N {
    match s.u(9) {
        0 => N::P3(coord(s), coord(s), coord(s)),
        1 => N::P2(coord(s), coord(s)),
        2 => N::D3(s.u(3)),
        3 => N::Mat(text(s, apos)),
        4 => N::Person(text(s, apos)),
        5 => N::Op(op(s)),
        6 => N::Psv(text(s, apos), text(s, apos)),
        7 => N::Storey(text(s, apos)),
        _ => N::Site(text(s, apos)),
    }
}
use bevy_math::{DVec2, DVec3};
macro_rules! on { ($n:expr, |$x:ident| $b:expr) => { match $n {
    N::P2(a, b) => { let $x = Point2D::from(DVec2::new(*a, *b)); $b }
    N::P3(a, b, d) => { let $x = Point3D::from(DVec3::new(*a, *b, *d)); $b }
    N::D3(k) => { let $x = Direction3D::from([DVec3::X, DVec3::Y, DVec3::Z][*k]); $b }
    N::Mat(t) => { let $x = Material::new(t.as_str()); $b }
    N::Person(t) => { let $x = Person::empty().id(t.as_str()); $b }
    N::Op(t) => { let $x = Dummy { s: t.clone() }; $b }
    N::Psv(a, b) => { let $x = PropertySingleValue::new(a.as_str(), IfcValue::Label(LabelValue(b.as_str().into())), None); $b }
    N::Storey(t) => { let $x = Storey::new(t.as_str()); $b }
    N::Site(t) => { let $x = Site::new(t.as_str()); $b }
} } }
fn op(s: &mut Src) -> String { let t = opaque_record(s, 0, false); t.trim_end().trim_end_matches(';').to_string() }
fn n_name(n: &N) -> &'static str { match n { N::P2(..) => "Point2D", N::P3(..) => "Point3D", N::D3(_) => "Direction3D", N::Mat(_) => "Material", N::Person(_) => "Person", N::Op(_) => "Dummy", N::Psv(..) => "PropertySingleValue", N::Storey(_) => "Storey", N::Site(_) => "Site" } }

struct M { kind: &'static str, text: String }

fn same(ifc: &IFC, m: &BTreeMap<u64, M>, what: &str) -> Res {
    for (id, e) in m {
        ensure!(ifc.data.contains(&Id(*id as usize)), "{what}: #{id} is missing");
        let t = ifc.data.get_untyped(Id(*id as usize)).to_string();
        ensure!(t == e.text, "{what}: #{id} should be {:?} but is {t:?}", e.text);
    }
    let lines = write(ifc)?;
    // several-line opaque records are possible: look for the whole record in order
    let mut at = lines.find("DATA;").ok_or("no data section in the written text")? + 5;
    for (id, e) in m {
        let want = format!("\n#{id}= {}", e.text);
        match lines[at..].find(&want) { Some(k) => at += k + want.len(), None => return Err(format!("{what}: #{id} is not written in number order with its record {:?}; written text:\n{lines}", e.text)) }
    }
    let tail = lines[at..].trim_start();
    ensure!(tail.starts_with("ENDSEC;"), "{what}: more instances written than stored: {tail:?}");
    Ok(())
}
fn find_checks(ifc: &IFC, m: &BTreeMap<u64, M>, s: &mut Src, all: bool, what: &str) -> Res {
    let skip = if all { 0 } else { s.u(FINDERS.len()) };
    for (k, (name, f)) in FINDERS.iter().enumerate() {
        if !all && (k + FINDERS.len() - skip) % FINDERS.len() > 8 && !m.values().any(|x| x.kind == *name) { continue; }
        let (a, b, same) = f(ifc);
        let want: Vec<(u64, String)> = m.iter().filter(|(_, x)| x.kind == *name).map(|(i, x)| (*i, x.text.clone())).collect();
        ensure!(a == want, "{what}: find_all_of_type::<{name}> gives {a:?} instead of {want:?}");
        ensure!(b == want.iter().map(|x| x.0).collect::<Vec<_>>(), "{what}: id_of::<{name}> gives {b:?} instead of {:?}", want.iter().map(|x| x.0).collect::<Vec<_>>());
        ensure!(same, "{what}: get does not return the instance that find_all_of_type::<{name}> reports");
    }
    Ok(())
}
fn pick_id(s: &mut Src, m: &BTreeMap<u64, M>) -> u64 {
    let max = m.keys().last().copied().unwrap_or(0);
    match s.weighted(&[10, 4, 4, 2, 2, 1]) {
        5 => (round_int(s).unsigned_abs()).min(u64::MAX >> 1),
        0 if !m.is_empty() => { let k = s.u(m.len()); *m.keys().nth(k).unwrap() }
        1 => s.below(12),
        2 => max + 1 + s.below(3),
        3 => s.below(1 << 40),
        _ => max,
    }
}

/// automatic numbering after every kind of number, and a long run of it
fn p15_numbers(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut at: Vec<u64> = (0..=1100).collect();
    for k in 2..62 { for d in -2i64..=2 { at.push((1u64 << k).wrapping_add_signed(d)); } }
    for k in 1..19u32 { for m in [1u64, 2, 5] { for d in -2i64..=1 { if let Some(x) = 10u64.pow(k).checked_mul(m) { if x < 1 << 62 { at.push(x.wrapping_add_signed(d)); } } } } }
    at.extend([i32::MAX as u64, u32::MAX as u64, (1 << 53) - 1, 1 << 53]);
    for n in at {
        c.input = format!("a store holding #{n} alone, then automatic insertions"); c.eval(1); c.non_trivial(&n);
        let mut ifc = IFC::default();
        ifc.data.insert(Id(n as usize), Material::new("first"));
        let mut want = BTreeMap::from([(n, "first".to_string())]);
        for k in 1..=3u64 {
            let id = ifc.data.insert_new(Material::new(format!("m{k}"))).id().0 as u64;
            ensure!(id == n + k, "a new instance in a store whose largest number is {} gets {id}", n + k - 1);
            want.insert(id, format!("m{k}"));
        }
        if n > 1 { ensure!(ifc.data.remove(Id(n as usize + 3)).is_some(), "#{} is not removed", n + 3); want.remove(&(n + 3)); let id = ifc.data.insert_new(Material::new("again")).id().0 as u64; ensure!(id == n + 3, "a new instance in a store whose largest number is {} gets {id}", n + 2); want.insert(id, "again".into()); }
        let got: Vec<(u64, String)> = ifc.data.find_all_of_type::<Material>().map(|(i, m)| (i.id().0 as u64, m.to_string())).collect();
        let want: Vec<(u64, String)> = want.into_iter().map(|(i, m)| (i, Material::new(m).to_string())).collect();
        ensure!(got == want, "the store should hold {want:?} but holds {got:?}");
    }
    let mut ifc = IFC::default();
    for k in 1..=140_000u64 {
        let id = ifc.data.insert_new(Material::new(format!("m{k}"))).id().0 as u64;
        if id != k { c.input = format!("{k} automatic insertions"); return Err(format!("the automatic insertion number {k} into an empty store gets {id}")); }
    }
    let w = write(&ifc)?;
    for (k, l) in w.split("DATA;\n").nth(1).unwrap_or("").lines().take(140_000).enumerate() { ensure!(l == format!("#{0}= IFCMATERIAL('m{0}',$,$);", k + 1), "after 140000 automatic insertions the line of #{} is {l:?}", k + 1); }
    Ok(vec![])
}
fn p15(s: &mut Src, c: &mut Ctx) -> Res {
    let mut m: BTreeMap<u64, M> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let mut ifc = match s.weighted(&[3, 3, 2]) {
        0 => { log.push("empty".into()); IFC::default() }
        1 => {
            let g = { let b = 2 + s.u(16); graph(s, GenOpts { budget: b, n_roots: (1, 4), ..Default::default() }) };
            let st = any_style(s);
            let t = render_file(s, st, &plain_header(), &g);
            let ifc = must_read(&t, "a well-formed file")?;
            for i in &g.insts { ensure!(ifc.data.contains(&Id(i.id as usize)), "#{} is missing after reading", i.id); m.insert(i.id, M { kind: kind_name(i), text: ifc.data.get_untyped(Id(i.id as usize)).to_string() }); }
            log.push(format!("file\n{t}"));
            ifc
        }
        _ => {
            let n = s.u(6);
            let mut pairs: Vec<(Id, Box<dyn IfcType>)> = vec![];
            for _ in 0..n {
                let id = pick_id(s, &m); let x = new_n(s, true);
                log.push(format!("pair #{id} {x:?}"));
                on!(&x, |v| { m.insert(id, M { kind: n_name(&x), text: v.to_string() }); pairs.push((Id(id as usize), Box::new(v))); });
            }
            let mut ifc = IFC::default();
            ifc.data = pairs.into();
            ifc
        }
    };
    c.input = log.join("\n");
    same(&ifc, &m, "at the start")?;
    let n = s.many(1, 40, 400);
    let (mut replaced, mut removed, mut after) = (0, false, false);
    let mut spans: Vec<(usize, usize)> = vec![]; let mut from = s.mark();
    for step in 0..n {
        if step > 0 { s.fresh(); spans.push((from, s.mark())); }
        s.again(&spans, 8); from = s.mark();
        let what;
        match s.weighted(&[6, 4, 4, 3, 3, 2, 2, 1]) {
            0 => {
                if m.keys().last().is_some_and(|x| *x >= u64::MAX >> 1) { continue; }
                let x = new_n(s, true);
                what = format!("step {step}: insert_new {x:?}"); log.push(what.clone()); c.input = log.join("\n");
                let want = m.keys().last().map_or(1, |k| k + 1);
                let got = on!(&x, |v| { let t = v.to_string(); let id = ifc.data.insert_new(v).id().0 as u64; m.insert(id, M { kind: n_name(&x), text: t }); id });
                ensure!(got == want, "{what}: got number {got} instead of {want}");
                if removed || replaced > 0 { after = true; }
            }
            1 => {
                let id = pick_id(s, &m); let x = new_n(s, true);
                what = format!("step {step}: insert #{id} {x:?}"); log.push(what.clone()); c.input = log.join("\n");
                let old = on!(&x, |v| { let t = v.to_string(); let old = ifc.data.insert(Id(id as usize), v); (old.map(|o| o.to_string()), m.insert(id, M { kind: n_name(&x), text: t }).map(|o| o.text)) });
                ensure!(old.0 == old.1, "{what}: returned {:?} instead of the replaced {:?}", old.0, old.1);
                if old.1.is_some() { replaced += 1; }
            }
            2 => {
                let id = pick_id(s, &m);
                what = format!("step {step}: remove #{id}"); log.push(what.clone()); c.input = log.join("\n");
                let got = ifc.data.remove(Id(id as usize)).map(|o| o.to_string());
                let want = m.remove(&id).map(|o| o.text);
                ensure!(got == want, "{what}: returned {got:?} instead of {want:?}");
                ensure!(!ifc.data.contains(&Id(id as usize)), "{what}: #{id} is still there");
                removed |= want.is_some();
            }
            3 => { // in-place edit
                let ids: Vec<u64> = m.iter().filter(|(_, x)| matches!(x.kind, "Point3D" | "Storey" | "Dummy" | "Material")).map(|x| *x.0).collect();
                if ids.is_empty() { continue; }
                let id = *s.pick(&ids); let u = Id(id as usize);
                what = format!("step {step}: edit #{id}"); log.push(what.clone()); c.input = log.join("\n");
                let e = m.get_mut(&id).unwrap();
                match e.kind {
                    "Point3D" => { let p = DVec3::new(coord(s), coord(s), coord(s)); *ifc.data.get_mut(TypedId::<Point3D>::new(u)) = Point3D::from(p); e.text = Point3D::from(p).to_string(); }
                    "Storey" => { let x = new_text(s); let st = ifc.data.get_mut(TypedId::<Storey>::new(u)); st.tag_it(&x); e.text = ifc.data.get_untyped(u).to_string(); ensure!(e.text.contains(&enc_str(&x, || true)), "{what}: the new name {x:?} is not in {:?}", e.text); }
                    "Dummy" => { let t = op(s); *ifc.data.get_mut(TypedId::<Dummy>::new(u)) = Dummy { s: t.clone() }; e.text = Dummy { s: t }.to_string(); }
                    _ => { let t = text(s, true); *ifc.data.get_mut(TypedId::<Material>::new(u)) = Material::new(t.as_str()); e.text = Material::new(t.as_str()).to_string(); }
                }
            }
            4 => { // lookup
                let id = pick_id(s, &m); let u = Id(id as usize);
                what = format!("step {step}: look up #{id}"); log.push(what.clone()); c.input = log.join("\n");
                ensure!(ifc.data.contains(&u) == m.contains_key(&id), "{what}: contains says {}", ifc.data.contains(&u));
                if let Some(e) = m.get(&id) {
                    for (name, f) in [("Point3D", guard(|| ifc.data.get(TypedId::<Point3D>::new(u)).to_string())), ("Dummy", guard(|| ifc.data.get(TypedId::<Dummy>::new(u)).to_string())), ("Material", guard(|| ifc.data.get(TypedId::<Material>::new(u)).to_string()))] {
                        if name == e.kind { ensure!(f.as_ref() == Ok(&e.text), "{what}: get::<{name}> gives {f:?} instead of {:?}", e.text); }
                        else { ensure!(f.is_err(), "{what}: get::<{name}> of a {} gives {f:?}", e.kind); }
                    }
                } else { ensure!(guard(|| ifc.data.get_untyped(u).to_string()).is_err(), "{what}: an instance is returned for a number that is not in use"); }
                let it = TypedId::<Point3D>::new(u);
                ensure!(it.id() == u && it.id_or().id().map(|x| x.id()) == Some(u) && Id::from(it) == u && TypedId::<Point3D>::from(u) == it && it.to_string() == format!("#{id}") && u.to_string() == format!("#{id}"), "{what}: typed and plain numbers disagree");
            }
            5 => { // insert_if_not_exists with a default type
                let id = pick_id(s, &m);
                what = format!("step {step}: insert_if_not_exists #{id}"); log.push(what.clone()); c.input = log.join("\n");
                ifc.data.insert_if_not_exists::<MaterialLayerSet>(Id(id as usize));
                m.entry(id).or_insert_with(|| M { kind: "MaterialLayerSet", text: MaterialLayerSet::default().to_string() });
            }
            6 => { what = format!("step {step}: find"); log.push(what.clone()); c.input = log.join("\n"); find_checks(&ifc, &m, s, false, &what)?; }
            _ => { what = format!("step {step}: rebuild"); log.push(what.clone()); c.input = log.join("\n");
                // move everything through remove and From pairs in random order
                let mut ids: Vec<u64> = m.keys().copied().collect(); s.shuffle(&mut ids);
                let mut pairs = vec![];
                for id in ids { let b = ifc.data.remove(Id(id as usize)).ok_or(format!("{what}: #{id} cannot be removed"))?; pairs.push((Id(id as usize), b)); }
                ensure!(ifc.data.find_all_of_type::<Dummy>().next().is_none(), "{what}: the emptied store still has instances");
                ifc.data = pairs.into();
            }
        }
        c.eval(1);
        if n <= 12 || step % 5 == 0 { same(&ifc, &m, &what)?; }
    }
    s.fresh();
    same(&ifc, &m, "at the end")?;
    find_checks(&ifc, &m, s, true, "at the end")?;
    if after || (replaced > 0 && removed) { c.non_trivial(&log.join("|")); }
    c.sample(|| log.join("; "));
    Ok(())
}
fn new_text(s: &mut Src) -> String { text(s, true) }
trait TagIt { fn tag_it(&mut self, t: &str); }
impl TagIt for Storey { fn tag_it(&mut self, t: &str) { self.root_mut().name = Some(ifc_str(t)).into(); } }
fn ifc_str<T: From<String>>(t: &str) -> T { T::from(t.to_string()) }

fn records(w: &str) -> Result<(String, BTreeMap<u64, String>), String> {
    let d = parse_doc_lenient(w)?;
    let at = super::read_write::split_lines(w).into_iter().find(|l| *l == "DATA;").map(|l| l.as_ptr() as usize - w.as_ptr() as usize).unwrap_or(0);
    let mut m = BTreeMap::new();
    for r in d.recs { ensure!(m.insert(r.id, r.raw.clone()).is_none(), "#{} written twice", r.id); }
    // with everything else on their lines: blanks around the number and the equals sign
    let mut cur = 0u64;
    for l in super::read_write::split_lines(&w[(at + 6).min(w.len())..]) {
        if let Some((n, _)) = l.strip_prefix('#').and_then(|x| x.split_once('=')) { if let Ok(n) = n.trim().parse::<u64>() { if m.contains_key(&n) { cur = n; m.get_mut(&n).unwrap().push_str("  <- "); } } }
        if l.starts_with("ENDSEC") { cur = u64::MAX; }
        if let Some(r) = m.get_mut(&cur) { r.push_str(l); }
    }
    Ok((w[..at].to_string(), m))
}

fn p25(s: &mut Src, c: &mut Ctx) -> Res {
    let g = { let b = 4 + s.u(24); graph(s, GenOpts { budget: b, n_roots: (1, 5), ..Default::default() }) };
    let st = any_style(s);
    let t = render_file(s, st, &plain_header(), &g);
    c.input = t.clone();
    let mut ifc = must_read(&t, "a well-formed file")?;
    let w0 = write(&ifc)?;
    ensure!(w0 == write(&ifc)?, "writing twice gives different texts");
    let (h0, r0) = records(&w0)?;
    c.eval(1);
    if s.chance(1, 3) { // same content, assembled in another way
        let mut other = IFC::default();
        other.header = must_read(&t, "the file")?.header;
        let mut ids: Vec<u64> = g.insts.iter().map(|i| i.id).collect(); s.shuffle(&mut ids);
        let mut pairs: Vec<(Id, Box<dyn IfcType>)> = vec![];
        for id in &ids { pairs.push((Id(*id as usize), ifc.data.remove(Id(*id as usize)).ok_or(format!("#{id} cannot be removed"))?)); }
        if s.bool() { other.data = pairs.into(); }
        else { // in between a few temporary instances
            let n = s.u(4);
            for k in 0..n { other.data.insert(Id(900_000_000 + k), Point3D::from(DVec3::ZERO)); }
            // boxed instances can only be handed over as pairs: rebuild the store in two halves
            let rest = pairs.split_off(pairs.len() / 2);
            let mut first = IFC::default();
            first.data = pairs.into();
            let mut all: Vec<(Id, Box<dyn IfcType>)> = rest;
            for id in &ids { if let Some(b) = first.data.remove(Id(*id as usize)) { all.push((Id(*id as usize), b)); } }
            for k in 0..n { other.data.remove(Id(900_000_000 + k)); }
            ensure!(write(&other)?.contains("DATA;"), "no data section");
            other.data = all.into();
        }
        let w = write(&other)?;
        ensure!(w == w0, "the same content in another insertion order {ids:?} is written differently:\n{w}");
        if g.insts.len() >= 3 { c.non_trivial(&(w0.as_str(), "order")); }
        c.label("order");
        return Ok(());
    }
    let mut g2 = g.clone();
    let mut touched: Vec<u64> = vec![];
    let what;
    match s.weighted(&[6, 2, 2, 2, 2]) {
        0 => {
            let idx: Vec<usize> = (0..g2.insts.len()).filter(|k| g2.insts[*k].ent.is_some()).collect();
            if idx.is_empty() { return Ok(()); }
            let k = *s.pick(&idx);
            let i = &mut g2.insts[k];
            match crate::edits::edit(s, &mut ifc, i, true) { Some(d) => { what = format!("#{} {d}", i.id); touched.push(i.id); } None => { what = "nothing".into(); } }
        }
        1 => { let x = new_n(s, true); let id = on!(&x, |v| ifc.data.insert_new(v).id().0 as u64); what = format!("insert_new {x:?}"); touched.push(id); ensure!(!r0.contains_key(&id), "{what}: number {id} was in use"); }
        2 => { let x = new_n(s, true); let id = match s.u(5) { 0 | 1 => s.below(g.max_id() + 3), 2 | 3 => s.pick(&g.insts).id, _ => match s.u(3) { 0 => s.bits() >> (1 + s.u(60)), 1 => [9u64, 10, 99, 100, 999, 1000, 9_999, 10_000, 99_999, 100_000, 999_999, 1_000_000, 9_999_999, 10_000_000, u32::MAX as u64, 1 << 32, 1 << 53][s.u(17)], _ => 1u64 << s.u(63) } }; on!(&x, |v| { ifc.data.insert(Id(id as usize), v); }); what = format!("insert #{id} {x:?}"); touched.push(id); }
        3 => { let id = s.pick(&g.insts).id; ifc.data.remove(Id(id as usize)); what = format!("remove #{id}"); touched.push(id); }
        _ => { // header edit: no record changes
            let h = header(s);
            set_hdr(&mut ifc, &h);
            what = "header replaced".to_string();
        }
    }
    c.input = format!("{t}\n--- edit: {what}");
    let w1 = write(&ifc)?;
    let (h1, r1) = records(&w1)?;
    if what != "header replaced" { ensure!(h0 == h1, "{what}: the header text changed:\n{h0}\n{h1}"); }
    for (id, r) in &r0 { if !touched.contains(id) { ensure!(r1.get(id) == Some(r), "{what}: record #{id} changed from {r:?} to {:?}", r1.get(id)); } }
    for id in r1.keys() { ensure!(r0.contains_key(id) || touched.contains(id), "{what}: record #{id} appeared"); }
    if what.starts_with("remove") { ensure!(r1.len() == r0.len() - 1, "{what}: the record is still written"); }
    if what.starts_with("insert") { ensure!(r1.contains_key(&touched[0]), "{what}: the record is not written"); }
    let ids: Vec<u64> = parse_doc_lenient(&w1)?.recs.iter().map(|r| r.id).collect();
    ensure!(ids.windows(2).all(|p| p[0] < p[1]), "{what}: records are not in increasing number order: {ids:?}");
    if g.insts.len() >= 3 { c.non_trivial(&(w0.as_str(), what.as_str())); }
    c.sample(|| what.clone());
    Ok(())
}
