//! P23 extractor queries, P24 geometry and structure readers.
use super::*;
use super::read_write::SIZES;
use std::collections::{HashMap, HashSet};

pub static PROPS: [Prop; 2] = [
    Prop { id: "P23", rule: "a case is a file with a pool of spatial elements, building elements, types and materials and 1-20 relations between random members (also repeated and overlapping), queried through every extractor function for every element; non-trivial: at least one query with two or more results, distinct by the queries and their result sizes",
        assumptions: &["an element has at most one type relation, of the kind of type that belongs to it (the extractor's answer is a single type)"], quick: 120_000, thorough: 1_500_000, case: p23, probes: &[p23_lengths] },
    Prop { id: "P24", rule: "a case is a random shape graph read from a file (products, representations, solids, profiles, curves, mapped items, transform operators, placements); every reader is compared with the referenced instances; non-trivial: at least four instances with readers, distinct by kinds and attribute shapes",
        assumptions: &["referenced instances are of supported kinds, poly lines have at least one point and do not mix two- and three-dimensional points (as the schema demands)"], quick: 250_000, thorough: 1_500_000, case: p24, probes: &[p24_profile, p24_lengths] },
];

pub type Q = (Vec<u64>, Vec<u64>, Vec<u64>, Vec<u64>);
fn addr<T>(x: &T) -> usize { x as *const T as usize }
fn index<T: IfcType>(ifc: &IFC) -> HashMap<usize, u64> { ifc.data.find_all_of_type::<T>().map(|(i, t)| (addr(t), i.id().0 as u64)).collect() }
fn q<S: Structure>(ex: &IfcExtractor, id: u64) -> Q {
    let t = || TypedId::<S>::new(Id(id as usize));
    let back = |m: HashMap<usize, u64>, l: Vec<usize>| l.into_iter().map(|a| m.get(&a).copied().unwrap_or(u64::MAX)).collect::<Vec<_>>();
    (
        ex.contained_structures(t()).map(|i| i.0 as u64).collect(),
        back(index::<OpeningElement>(ex), ex.related_voids(t()).map(addr).collect()),
        back(index::<MaterialLayer>(ex), ex.related_materials(t()).map(addr).collect()),
        back(index::<MaterialConstituent>(ex), ex.related_constiuents(t()).map(addr).collect()),
    )
}
pub static STRUCTS: &[(&str, fn(&IfcExtractor, u64) -> Q)] = &[("Wall", q::<Wall>), ("Slab", q::<Slab>), ("Roof", q::<Roof>), ("Window", q::<Window>), ("Door", q::<Door>), ("ShadingDevice", q::<ShadingDevice>),
    ("OpeningElement", q::<OpeningElement>), ("Space", q::<Space>), ("Storey", q::<Storey>), ("Building", q::<Building>), ("Site", q::<Site>)];
fn rel<A: IfcType, B: IfcType>(ex: &IfcExtractor, id: u64) -> Vec<(u64, bool)> {
    ex.relations_of::<A, B>(TypedId::new(Id(id as usize))).map(|(i, b)| (i.id().0 as u64, get::<B>(ex, i.id().0).is_some_and(|x| std::ptr::eq(x, b)))).collect()
}
macro_rules! rels { ($($a:ident: $($b:ident)*;)*) => { &[$($((stringify!($a), stringify!($b), rel::<$a, $b> as fn(&IfcExtractor, u64) -> Vec<(u64, bool)>)),*),*] } }
static RELS: &[(&str, &str, fn(&IfcExtractor, u64) -> Vec<(u64, bool)>)] = rels!(Project: Site Building Storey Space; Site: Site Building Storey Space; Building: Site Building Storey Space; Storey: Space Storey Wall; Space: Space Storey Dummy;);
fn ty<S: Structure, T: IfcType>(ex: &IfcExtractor, id: u64) -> u64 where IfcExtractor: TypeRelation<S, T> {
    let t: &T = TypeRelation::<S, T>::related_type(ex, TypedId::<S>::new(Id(id as usize)));
    index::<T>(ex).get(&addr(t)).copied().unwrap_or(u64::MAX)
}
pub static TYPES: &[(&str, &str, fn(&IfcExtractor, u64) -> u64)] = &[("Wall", "WallType", ty::<Wall, WallType>), ("Slab", "SlabType", ty::<Slab, SlabType>), ("Roof", "RoofType", ty::<Roof, RoofType>), ("Window", "WindowType", ty::<Window, WindowType>), ("Door", "DoorType", ty::<Door, DoorType>)];

const POOL: &[&str] = &["Wall", "Wall", "Slab", "Slab", "Roof", "Window", "Door", "ShadingDevice", "OpeningElement", "OpeningElement", "Space", "Storey", "Storey", "Building", "Site", "Project", "MaterialLayerSetUsage", "MaterialConstituentSet", "MaterialLayerSet", "Material", "WallType", "SlabType", "RoofType", "WindowType", "DoorType"];
const ELEMENTS: &[&str] = &["Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice", "WallType", "SlabType"];

pub fn fidx(kind: &str, f: &str) -> usize { ent(kind).fields.iter().position(|x| x.name == f).unwrap_or_else(|| panic!("harness: {kind}.{f}")) }
fn p23(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 40, n_roots: (1, 1), ..Default::default() };
    let mut g = Gen::new(s, o);
    let n = if g.s.chance(1, 150) { 20 + g.s.u(300) } else { 3 + g.s.u(18) };
    let mut spans: Vec<(usize, usize)> = vec![];
    for _ in 0..n { g.s.again(&spans, 8); let from = g.s.mark(); let k = ent_ix(g.s.pick(POOL)); g.add(k, 1); g.s.fresh(); spans.push((from, g.s.mark())); }
    if g.s.chance(1, 3) { g.add_opaque(); }
    // relations
    let m = 1 + g.s.many(0, 20, 200);
    let (mut rels, mut rel): (Vec<(usize, usize)>, Option<usize>) = (vec![], None);
    let mut typed: HashSet<u64> = HashSet::new();
    let pool_of = |g: &Gen, ks: &[&str]| -> Vec<u64> { let mut l: Vec<u64> = ks.iter().flat_map(|k| g.by_kind.get(&ent_ix(k)).cloned().unwrap_or_default()).map(|x| x as u64).collect(); l.sort(); l.dedup(); l };
    for _ in 0..m {
        if let Some(f) = rel.take() { g.s.fresh(); rels.push((f, g.s.mark())); }
        g.s.again(&rels, 8); rel = Some(g.s.mark());
        let depth = g.s.u(2);
        let which = g.s.weighted(&[4, 4, 3, 4, 3]);
        let kind = ["RelAggregates", "RelContainedInSpatialStructure", "RelVoidsElement", "RelAssociatesMaterial", "RelDefinesByType"][which];
        let (one, one_k, many, many_k): (&str, Vec<&'static str>, &str, Vec<&'static str>) = match which {
            0 => ("relating_object", vec!["Project", "Site", "Building", "Storey"], "related_objects", vec!["Site", "Building", "Storey", "Space"]),
            1 => ("relating_structure", vec!["Storey", "Building", "Site"], "related_elements", vec!["Wall", "Site", "Building", "Storey", "OpeningElement", "Slab", "Roof", "Window", "Door", "ShadingDevice"]),
            2 => ("relating_building_element", vec!["Wall", "Slab", "OpeningElement", "Window", "Building"], "", vec![]),
            3 => ("relating_material", vec!["MaterialLayerSetUsage", "MaterialConstituentSet", "MaterialLayerSetUsage", "MaterialConstituentSet", "MaterialLayerSet", "Material"], "related_objects", ELEMENTS.to_vec()),
            _ => { let t = *g.s.pick(TYPES); ("relating_type", vec![t.1], "related_objects", vec![t.0]) }
        };
        let ones = pool_of(&g, &one_k);
        let manys = if many.is_empty() { vec![] } else { pool_of(&g, &many_k) };
        if ones.is_empty() || (!many.is_empty() && manys.is_empty() && g.s.chance(3, 4)) { continue; }
        let r = g.add(ent_ix(kind), depth);
        // usually a real target, sometimes whatever was generated (opaque records included)
        let a = *g.s.pick(&ones);
        if which == 4 || g.s.chance(7, 8) { g.g[r].vals[fidx(kind, one)] = Val::Ref(a); }
        if which == 2 { let op = pool_of(&g, &["OpeningElement"]); if !op.is_empty() && g.s.chance(9, 10) { let x = *g.s.pick(&op); g.g[r].vals[fidx(kind, "related_opening_element")] = Val::Ref(x); } continue; }
        let k = g.s.many(0, 5, 200);
        let mut l: Vec<u64> = vec![];
        for _ in 0..k { if manys.is_empty() { break; } let x = *g.s.pick(&manys); if which == 4 && !typed.insert(x) { continue; } l.push(x); }
        if which != 4 && !g.opaques.is_empty() && g.s.chance(1, 8) { let k = g.s.u(g.opaques.len()); let x = g.opaques[k] as u64; l.push(x); }
        if g.s.chance(1, 3) { let at = g.s.u(l.len() + 1); l.rotate_left(at); }
        g.g[r].vals[fidx(kind, many)] = Val::List(l.into_iter().map(Val::Ref).collect());
    }
    g.s.fresh();
    let g = g.finish();
    let st = if s.chance(1, 4) { any_style(s) } else { PLAIN };
    let t = render_file(s, st, &plain_header(), &g);
    c.input = t.clone();
    let ifc = must_read(&t, "a file of correctly referenced instances")?;
    let ex = IfcExtractor::from(ifc);
    c.eval(1);
    // the model
    let mut insts: Vec<&Inst> = g.insts.iter().collect();
    insts.sort_by_key(|i| i.id);
    let by: HashMap<u64, &Inst> = g.insts.iter().map(|i| (i.id, i)).collect();
    let name = |id: u64| by.get(&id).filter(|i| i.ent.is_some()).map(|i| kind_name(i)).unwrap_or("Dummy");
    let of = |k: &str| insts.iter().filter(|i| i.ent.is_some() && kind_name(i) == k).copied().collect::<Vec<_>>();
    let fref = |i: &Inst, f: &str| if let Val::Ref(r) = &i.vals[fidx(kind_name(i), f)] { *r } else { 0 };
    let flist = |i: &Inst, f: &str| if let Val::List(l) = &i.vals[fidx(kind_name(i), f)] { l.iter().map(|x| if let Val::Ref(r) = x { *r } else { 0 }).collect() } else { vec![] };
    let mut key: Vec<u64> = vec![]; let mut rich = false;
    let mut note = |what: u64, n: usize| { if n > 0 { key.push(what * 100 + n as u64); } if n >= 2 { rich = true; } };
    // projects
    let got: Vec<u64> = guard(|| ex.projects().map(|(i, p)| { let id = i.id().0 as u64; if get::<Project>(&ex, id as usize).is_some_and(|x| std::ptr::eq(x, p)) { id } else { u64::MAX } }).collect())?;
    let want: Vec<u64> = of("Project").iter().map(|i| i.id).collect();
    ensure!(got == want, "projects(): {got:?} instead of {want:?}");
    for i in &insts {
        let k = kind_name(i);
        if i.ent.is_none() { continue; }
        for (a, b, f) in RELS {
            if *a != k { continue; }
            let want: Vec<u64> = of("RelAggregates").iter().filter(|r| fref(r, "relating_object") == i.id).flat_map(|r| flist(r, "related_objects")).filter(|x: &u64| name(*x) == *b).collect();
            let got = guard(|| f(&ex, i.id)).map_err(|p| format!("relations_of::<{a},{b}>(#{}): {p}", i.id))?;
            ensure!(got.iter().all(|x| x.1), "relations_of::<{a},{b}>(#{}) pairs a number with another instance", i.id);
            let got: Vec<u64> = got.into_iter().map(|x| x.0).collect();
            ensure!(got == want, "relations_of::<{a},{b}>(#{}): {got:?} instead of {want:?}", i.id);
            note(1, want.len());
        }
        if let Some((_, f)) = STRUCTS.iter().find(|x| x.0 == k) {
            let (con, voids, lay, cons) = guard(|| f(&ex, i.id)).map_err(|p| format!("query on #{} ({k}): {p}", i.id))?;
            let want: Vec<u64> = of("RelContainedInSpatialStructure").iter().filter(|r| fref(r, "relating_structure") == i.id).flat_map(|r| flist(r, "related_elements")).collect();
            ensure!(con == want, "contained_structures(#{}): {con:?} instead of {want:?}", i.id);
            note(2, want.len());
            let want: Vec<u64> = of("RelVoidsElement").iter().filter(|r| fref(r, "relating_building_element") == i.id).map(|r| fref(r, "related_opening_element")).filter(|x| name(*x) == "OpeningElement").collect();
            ensure!(voids == want, "related_voids(#{}): {voids:?} instead of {want:?}", i.id);
            note(3, want.len());
            let mats: Vec<u64> = of("RelAssociatesMaterial").iter().filter(|r| flist(r, "related_objects").contains(&i.id)).map(|r| fref(r, "relating_material")).collect();
            let want: Vec<u64> = mats.iter().filter(|m| name(**m) == "MaterialLayerSetUsage").map(|m| fref(by[m], "for_layer_set")).filter(|x| name(*x) == "MaterialLayerSet").flat_map(|x| flist(by[&x], "material_layers")).filter(|x: &u64| name(*x) == "MaterialLayer").collect();
            ensure!(lay == want, "related_materials(#{}): {lay:?} instead of {want:?}", i.id);
            note(4, want.len());
            let want: Vec<u64> = mats.iter().filter(|m| name(**m) == "MaterialConstituentSet").flat_map(|x| flist(by[x], "material_constituents")).filter(|x: &u64| name(*x) == "MaterialConstituent").collect();
            ensure!(cons == want, "related_constiuents(#{}): {cons:?} instead of {want:?}", i.id);
            note(5, want.len());
        }
        if let Some((_, t, f)) = TYPES.iter().find(|x| x.0 == k) {
            let want: Vec<u64> = of("RelDefinesByType").iter().filter(|r| flist(r, "related_objects").contains(&i.id)).map(|r| fref(r, "relating_type")).collect();
            if want.len() == 1 && name(want[0]) == *t {
                let got = guard(|| f(&ex, i.id)).map_err(|p| format!("related_type(#{}): {p}", i.id))?;
                ensure!(got == want[0], "related_type(#{}): #{got} instead of #{}", i.id, want[0]);
                note(6, 1);
            }
        }
        for r in of("RelAssociatesMaterial") {
            let want = flist(r, "related_objects").contains(&i.id);
            let got = get::<RelAssociatesMaterial>(&ex, r.id as usize).ok_or("relation not stored")?.is_related_to(Id(i.id as usize));
            ensure!(got == want, "#{}.is_related_to(#{}) is {got}", r.id, i.id);
        }
    }
    // a number of no element
    let free = g.max_id() + 1;
    for (k, f) in STRUCTS { let x = guard(|| f(&ex, free)).map_err(|p| format!("query on an unknown {k}: {p}"))?; ensure!(x == (vec![], vec![], vec![], vec![]), "queries on unknown #{free} return {x:?}"); }
    key.sort();
    if rich { c.non_trivial(&key); }
    c.sample(|| format!("{} instances, query results {:?}", insts.len(), key.iter().take(8).collect::<Vec<_>>()));
    Ok(())
}

/// Every list an extractor function goes through, in many lengths.
fn p23_lengths(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut sizes: Vec<usize> = SIZES[1..].to_vec(); sizes.extend([300, 2000]);
    for n in sizes {
        let mut s = Src::replay(&[]);
        let mut g = Gen::new(&mut s, GenOpts { budget: 0, plain_ids: true, opaque: false, dummy_targets: false, alt: false, big: false, ..Default::default() });
        let m = n as u64;
        let mut put = |k: &str, vals: Vec<(&str, Val)>| { let at = g.add(ent_ix(k), 0); for (f, v) in vals { g.g[at].vals[fidx(k, f)] = v; } at as u64 };
        let refs = |l: &[u64]| Val::List(l.iter().map(|x| Val::Ref(*x)).collect());
        let zero = put("Project", vec![]);
        let sites: Vec<u64> = (0..m).map(|_| put("Site", vec![])).collect();
        let storey = put("Storey", vec![]);
        let walls: Vec<u64> = (0..m).map(|_| put("Wall", vec![])).collect();
        let slab = put("Slab", vec![]);
        let ops: Vec<u64> = (0..m).map(|_| put("OpeningElement", vec![])).collect();
        let layers: Vec<u64> = (0..m).map(|_| put("MaterialLayer", vec![])).collect();
        let set = put("MaterialLayerSet", vec![("material_layers", refs(&layers))]);
        let us = put("MaterialLayerSetUsage", vec![("for_layer_set", Val::Ref(set))]);
        let cons: Vec<u64> = (0..m).map(|_| put("MaterialConstituent", vec![])).collect();
        let cset = put("MaterialConstituentSet", vec![("material_constituents", refs(&cons))]);
        let ty = put("WallType", vec![]);
        put("RelAggregates", vec![("relating_object", Val::Ref(zero)), ("related_objects", refs(&sites))]);
        put("RelContainedInSpatialStructure", vec![("relating_structure", Val::Ref(storey)), ("related_elements", refs(&walls))]);
        for o in &ops { put("RelVoidsElement", vec![("relating_building_element", Val::Ref(slab)), ("related_opening_element", Val::Ref(*o))]); }
        put("RelAssociatesMaterial", vec![("relating_material", Val::Ref(us)), ("related_objects", refs(&walls))]);
        put("RelAssociatesMaterial", vec![("relating_material", Val::Ref(cset)), ("related_objects", refs(&walls))]);
        for i in 0..m { put("RelAssociatesMaterial", vec![("relating_material", Val::Ref(if i % 2 == 0 { us } else { cset })), ("related_objects", refs(&[slab]))]); }
        put("RelDefinesByType", vec![("relating_type", Val::Ref(ty)), ("related_objects", refs(&walls))]);
        let (mut g, ids) = g.finish_map();
        g.insts.sort_by_key(|i| i.id);
        let t = render_file(&mut s, PLAIN, &plain_header(), &g);
        let w = |e: String| format!("lists of {n} members: {e}");
        let ex = IfcExtractor::from(must_read(&t, "a file of correctly referenced instances").map_err(w)?);
        c.eval(1); c.non_trivial(&n);
        let new = |x: u64| ids[x as usize]; let all = |l: &[u64]| l.iter().map(|x| new(*x)).collect::<Vec<_>>();
        let chk = |what: &str, got: Vec<u64>, want: Vec<u64>| { ensure!(got == want, "lists of {n} members: {what}: {} of them instead of {} ({:?}…)", got.len(), want.len(), got.first()); Ok(()) };
        let rel = |a: &str, b: &str, id: u64| RELS.iter().find(|x| x.0 == a && x.1 == b).map(|x| guard(|| x.2(&ex, id)).map(|l| l.into_iter().map(|x| x.0).collect::<Vec<_>>())).unwrap();
        let st = |k: &str, id: u64| guard(|| STRUCTS.iter().find(|x| x.0 == k).unwrap().1(&ex, id));
        chk("relations_of", rel("Project", "Site", new(zero)).map_err(w)?, all(&sites))?;
        chk("contained_structures", st("Storey", new(storey)).map_err(w)?.0, all(&walls))?;
        let x = st("Slab", new(slab)).map_err(w)?;
        chk("related_voids", x.1, all(&ops))?;
        if n <= 300 {
            chk("related_materials", x.2, (0..n.div_ceil(2)).flat_map(|_| all(&layers)).collect())?;
            chk("related_constiuents", x.3, (0..n / 2).flat_map(|_| all(&cons)).collect())?;
        }
        for i in [0, n / 2, n - 1] {
            let x = st("Wall", new(walls[i])).map_err(w)?;
            chk("related_materials of a wall", x.2, all(&layers))?;
            chk("related_constiuents of a wall", x.3, all(&cons))?;
            let got = guard(|| TYPES[0].2(&ex, new(walls[i]))).map_err(w)?;
            ensure!(got == new(ty), "lists of {n} members: related_type of wall {i} is #{got}");
        }
    }
    Ok(vec![])
}

// ---- P24 ----------------------------------------------------------------------------------------------------------
const SHAPES: &[&str] = &["Wall", "Slab", "Roof", "Window", "Door", "OpeningElement", "Site", "Building", "Storey", "Space", "ShadingDevice", "ProductDefinitionShape", "ShapeRepresentation", "ExtrudedAreaSolid", "RectangleProfileDef",
    "ArbitraryClosedProfileDef", "MappedItem", "CartesianTransformationOperator3D", "CartesianTransformationOperator3DnonUniform", "Axis2D", "Axis3D", "PolyLine", "LocalPlacement"];

/// the geometry attribute values of the model, following references
struct M<'a> { by: HashMap<u64, &'a Inst>, ifc: &'a IFC }
impl<'a> M<'a> {
    fn f(&self, id: u64, f: &str) -> &'a Val { let i = self.by[&id]; &i.vals[fidx(kind_name(i), f)] }
    fn r(&self, id: u64, f: &str) -> Option<u64> { match self.f(id, f) { Val::Ref(r) => Some(*r), _ => None } }
    fn l(&self, id: u64, f: &str) -> Vec<u64> { match self.f(id, f) { Val::List(l) => l.iter().filter_map(|x| if let Val::Ref(r) = x { Some(*r) } else { None }).collect(), _ => vec![] } }
    fn x(&self, id: u64, f: &str) -> Option<f64> { match self.f(id, f) { Val::Real(d) => Some(*d), _ => None } }
    fn kind(&self, id: u64) -> &'static str { self.by.get(&id).filter(|i| i.ent.is_some()).map(|i| kind_name(i)).unwrap_or("Dummy") }
    fn same<T: IfcType>(&self, what: &str, got: Option<&T>, want: Option<u64>) -> Res {
        let w = want.map(|i| get::<T>(self.ifc, i as usize).ok_or_else(|| format!("#{i} is not stored as expected"))).transpose()?;
        match (got, w) { (None, None) => Ok(()), (Some(a), Some(b)) if std::ptr::eq(a, b) => Ok(()),
            (g, w) => Err(format!("{what} is {} but should be {}", g.map(|x| x.to_string()).unwrap_or("absent".into()), w.map(|x| x.to_string()).unwrap_or("absent".into()))) }
    }
    fn num(&self, what: &str, got: Option<f64>, want: Option<f64>) -> Res { ensure!(got.map(f64::to_bits) == want.map(f64::to_bits), "{what} is {got:?} but should be {want:?}"); Ok(()) }
    fn a2(&self, w: &str, m: &MappedAxis2D, id: u64) -> Res { self.same(&format!("{w} location"), Some(m.location), self.r(id, "location"))?; self.same(&format!("{w} local_x"), m.local_x, self.r(id, "local_x")) }
    fn a3(&self, w: &str, m: &MappedAxis3D, id: u64) -> Res {
        self.same(&format!("{w} location"), Some(m.location), self.r(id, "location"))?;
        self.same(&format!("{w} local_z"), m.local_z, self.r(id, "local_z"))?; self.same(&format!("{w} local_x"), m.local_x, self.r(id, "local_x"))
    }
    fn pts(&self, w: &str, p: &Points, curve: u64) -> Res {
        let coords = |v: &Val| -> Vec<u64> { match v { Val::List(l) => l.iter().map(|x| if let Val::Real(d) = x { d.to_bits() } else { 0 }).collect(), _ => vec![] } };
        let (dim, want): (usize, Vec<Vec<u64>>) = match self.kind(curve) {
            "PolyLine" => { let l = self.l(curve, "points"); (if self.kind(l[0]) == "Point2D" { 2 } else { 3 }, l.iter().map(|i| coords(self.f(*i, "coords"))).collect()) }
            _ => { let p = self.r(curve, "points").unwrap(); let Val::List(l) = self.f(p, "coord_list") else { return Err("harness: coord_list".into()) }; (if self.kind(p) == "PointList2D" { 2 } else { 3 }, l.iter().map(coords).collect()) }
        };
        let (gd, got): (usize, Vec<Vec<u64>>) = match p { Points::D2(l) => (2, l.iter().map(|p| vec![p.x.to_bits(), p.y.to_bits()]).collect()), Points::D3(l) => (3, l.iter().map(|p| vec![p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]).collect()) };
        ensure!(gd == dim && got == want, "{w}: {p:?} instead of the points of #{curve}");
        Ok(())
    }
    fn rect(&self, w: &str, m: &MappedRectangleProfileDef, id: u64) -> Res {
        self.num(&format!("{w} x_dim"), Some(m.x_dim), self.x(id, "x_dim"))?; self.num(&format!("{w} y_dim"), Some(m.y_dim), self.x(id, "y_dim"))?;
        match (&m.axis, self.r(id, "position")) {
            (None, None) => Ok(()),
            (Some(AxisMappings::D2(a)), Some(p)) if self.kind(p) == "Axis2D" => self.a2(w, a, p),
            (Some(AxisMappings::D3(a)), Some(p)) if self.kind(p) == "Axis3D" => self.a3(w, a, p),
            (g, p) => Err(format!("{w}: axis is {} for position {p:?}", match g { None => "absent", Some(AxisMappings::D2(_)) => "2D", Some(AxisMappings::D3(_)) => "3D" })),
        }
    }
    fn arb(&self, w: &str, m: &MappedArbitraryClosedProfileDef, id: u64) -> Res {
        let Val::Enum(l) = self.f(id, "profile_type") else { return Err("harness: profile_type".into()) };
        ensure!(crate::enums::tok_profile_type(&m.profile_type) == *l, "{w}: profile type differs from .{l}.");
        self.pts(w, &m.points, self.r(id, "outer_curve").unwrap())
    }
    fn solid(&self, w: &str, m: &MappedExtrudedAreaSolid, id: u64) -> Res {
        let a = self.r(id, "swept_area").unwrap();
        match (&m.profile_def, self.kind(a)) {
            (MappedProfileDef::Rectangle(r), "RectangleProfileDef") => self.rect(&format!("{w} profile"), r, a)?,
            (MappedProfileDef::Arbitrary(r), "ArbitraryClosedProfileDef") => self.arb(&format!("{w} profile"), r, a)?,
            (_, k) => return Err(format!("{w}: profile of another kind than #{a} ({k})")),
        }
        match (&m.position, self.r(id, "position")) { (None, None) => {} (Some(a), Some(p)) => self.a3(&format!("{w} position"), a, p)?, (g, p) => return Err(format!("{w}: position present: {} but attribute {p:?}", g.is_some())) }
        self.same(&format!("{w} direction"), Some(m.extruded_direction), self.r(id, "extruded_direction"))?;
        self.num(&format!("{w} depth"), Some(m.depth), self.x(id, "depth"))
    }
    fn op(&self, w: &str, t: Option<&Point3D>, axes: [Option<&Direction3D>; 3], scale: Option<f64>, id: u64) -> Res {
        self.same(&format!("{w} translation"), t, self.r(id, "local_origin"))?;
        for (n, g) in ["axis_x", "axis_y", "axis_z"].into_iter().zip(axes) { self.same(&format!("{w} {n}"), g, self.r(id, n))?; }
        self.num(&format!("{w} scale"), scale, self.x(id, "scale"))
    }
    fn non_uniform(&self, w: &str, m: &NonUniformTransformMapping, id: u64) -> Res {
        self.op(w, m.translation, [m.axis_x, m.axis_y, m.axis_z], m.scale, id)?; self.num(&format!("{w} scale_y"), m.scale_y, self.x(id, "scale_y"))?; self.num(&format!("{w} scale_z"), m.scale_z, self.x(id, "scale_z"))
    }
}
macro_rules! with_product { ($m:expr, $ids:expr, $($k:ident)*) => { match $m.kind($ids) { $(stringify!($k) => { let x = get::<$k>($m.ifc, $ids as usize).ok_or_else(|| format!("#{} is not stored as {}", $ids, stringify!($k)))?; Some(guard(|| x.shapes($m.ifc)).map_err(|p| format!("shapes of #{}: {p}", $ids))?) })* _ => None } } }
macro_rules! with_shape { ($m:expr, $id:expr, $($k:ident)*) => { match $m.kind($id) { $(stringify!($k) => Some(TransformableType::shape(get::<$k>($m.ifc, $id as usize).ok_or("kind")?)),)* _ => None } } }
macro_rules! with_place { ($m:expr, $id:expr, $($k:ident)*) => { match $m.kind($id) { $(stringify!($k) => Some((RelativePlacement::placement_id(get::<$k>($m.ifc, $id as usize).ok_or("kind")?), $m.ifc.get_placement_id(TypedId::<$k>::new(Id($id as usize))))),)* _ => None } } }

fn p24(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 30, n_roots: (1, 5), dummy_targets: false, cycles: false, roots: SHAPES, ..Default::default() };
    let mut g = Gen::new(s, o.clone());
    let n = 1 + g.s.u(5);
    let mut spans: Vec<(usize, usize)> = vec![];
    for _ in 0..n { g.s.again(&spans, 8); let from = g.s.mark(); if g.s.chance(1, 8) { g.add_opaque(); } let k = ent_ix(g.s.pick(SHAPES)); g.add(k, 5); g.s.fresh(); spans.push((from, g.s.mark())); }
    // poly lines of one dimension with at least one point; opaque items in representations
    for i in 0..g.g.len() {
        let Some(e) = g.g[i].ent else { continue };
        if ents()[e].name == "PolyLine" {
            let k = if g.s.bool() { "Point2D" } else { "Point3D" };
            let n = g.s.many(1, 6, 250); let n = LEN.get().unwrap_or(n);
            let mut l = vec![];
            for _ in 0..n { let c = g.by_kind.get(&ent_ix(k)).cloned().unwrap_or_default(); let p = if c.is_empty() || g.s.chance(1, 3) { g.add(ent_ix(k), 0) } else { *g.s.pick(&c) }; l.push(Val::Ref(p as u64)); }
            if l.len() > 1 && g.s.chance(1, 4) { let f = l[0].clone(); let at = l.len() - 1; l[at] = f; }
            g.g[i].vals[0] = Val::List(l);
        }
        if let ("ShapeRepresentation", Some(n)) = (ents()[e].name, LEN.get()) {
            let c: Vec<usize> = ["MappedItem", "ExtrudedAreaSolid", "PolyLine"].iter().flat_map(|k| g.by_kind.get(&ent_ix(k)).cloned().unwrap_or_default()).collect();
            if !c.is_empty() { let l = (0..n).map(|_| Val::Ref(*g.s.pick(&c) as u64)).collect(); g.g[i].vals[fidx("ShapeRepresentation", "items")] = Val::List(l); }
        }
        if let ("ProductDefinitionShape", Some(n)) = (ents()[e].name, LEN.get()) {
            let c = g.by_kind.get(&ent_ix("ShapeRepresentation")).cloned().unwrap_or_default();
            if !c.is_empty() { let l = (0..n).map(|_| Val::Ref(*g.s.pick(&c) as u64)).collect(); g.g[i].vals[fidx("ProductDefinitionShape", "representations")] = Val::List(l); }
        }
        if ents()[e].name == "ShapeRepresentation" && g.s.chance(1, 6) {
            let d = g.add_opaque();
            let f = fidx("ShapeRepresentation", "items");
            if let Val::List(l) = &mut g.g[i].vals[f] { let at = d % (l.len() + 1); l.insert(at, Val::Ref(d as u64)); }
        }
    }
    let g = g.finish();
    let t = render_file(s, PLAIN, &plain_header(), &g);
    c.input = t.clone();
    let ifc = must_read(&t, "a file of correctly referenced instances")?;
    c.eval(1);
    let m = M { by: g.insts.iter().map(|i| (i.id, i)).collect(), ifc: &ifc };
    let mut seen = vec![];
    for i in &g.insts {
        if i.ent.is_none() { continue; }
        let id = i.id; let k = kind_name(i);
        macro_rules! of { ($t:ident) => { get::<$t>(&ifc, id as usize).ok_or_else(|| format!("#{id} is not stored as {k}"))? } }
        let w = format!("#{id} {k}");
        let gd = |p: String| format!("{w}: {p}");
        let mut hit = true;
        match k {
            "Axis2D" => m.a2(&w, &guard(|| of_map(get::<Axis2D>(&ifc, id as usize).unwrap(), &ifc)).map_err(gd)?, id)?,
            "Axis3D" => m.a3(&w, &guard(|| of_map(get::<Axis3D>(&ifc, id as usize).unwrap(), &ifc)).map_err(gd)?, id)?,
            "PolyLine" => { let x = of!(PolyLine); m.pts(&w, &guard(|| x.points(&ifc)).map_err(gd)?, id)? }
            "RectangleProfileDef" => { let x = of!(RectangleProfileDef); m.rect(&w, &guard(|| x.mappings(&ifc)).map_err(gd)?, id)? }
            "ArbitraryClosedProfileDef" => { let x = of!(ArbitraryClosedProfileDef); m.arb(&w, &guard(|| x.mappings(&ifc)).map_err(gd)?, id)? }
            "ExtrudedAreaSolid" => { let x = of!(ExtrudedAreaSolid); m.solid(&w, &guard(|| x.mappings(&ifc)).map_err(gd)?, id)? }
            "CartesianTransformationOperator3D" => { let x = of!(CartesianTransformationOperator3D); { let y = guard(|| x.mappings(&ifc)).map_err(gd)?; m.op(&w, y.translation, [y.axis_x, y.axis_y, y.axis_z], y.scale, id)? } }
            "CartesianTransformationOperator3DnonUniform" => { let x = of!(CartesianTransformationOperator3DnonUniform); m.non_uniform(&w, &guard(|| x.mappings(&ifc)).map_err(gd)?, id)? }
            "MappedItem" => {
                let x = of!(MappedItem);
                let ((a, r), t) = guard(|| x.mappings(&ifc)).map_err(gd)?;
                let map = m.r(id, "source").unwrap();
                m.a3(&format!("{w} origin"), &a, m.r(map, "origin").unwrap())?;
                m.same(&format!("{w} representation"), Some(r), m.r(map, "representation"))?;
                let op = m.r(id, "target").unwrap();
                match (&t, m.kind(op)) {
                    (MappedTransform::Uniform(t), "CartesianTransformationOperator3D") => m.op(&format!("{w} target"), t.translation, [t.axis_x, t.axis_y, t.axis_z], t.scale, op)?,
                    (MappedTransform::NonUniform(t), "CartesianTransformationOperator3DnonUniform") => m.non_uniform(&format!("{w} target"), t, op)?,
                    (_, k) => return Err(format!("{w}: transform of another kind than #{op} ({k})")),
                }
            }
            "ShapeRepresentation" => {
                let x = of!(ShapeRepresentation);
                let want = m.l(id, "items");
                let got: Vec<ShapeItemEnum> = guard(|| x.items(&ifc).collect()).map_err(gd)?;
                ensure!(got.len() == want.len(), "{w}: {} items instead of {}", got.len(), want.len());
                for (n, (g, i)) in got.iter().zip(&want).enumerate() {
                    let ok = match (g, m.kind(*i)) {
                        (ShapeItemEnum::MappedItem(x), "MappedItem") => get(&ifc, *i as usize).is_some_and(|y| std::ptr::eq(*x, y)),
                        (ShapeItemEnum::ExtrudedAreaSolid(x), "ExtrudedAreaSolid") => get(&ifc, *i as usize).is_some_and(|y| std::ptr::eq(*x, y)),
                        (ShapeItemEnum::Dummy(x), "Dummy") => get(&ifc, *i as usize).is_some_and(|y| std::ptr::eq(*x, y)),
                        (ShapeItemEnum::Other(x), "PolyLine") => x.downcast_ref::<PolyLine>().is_some_and(|x| get(&ifc, *i as usize).is_some_and(|y| std::ptr::eq(x, y))),
                        _ => false,
                    };
                    ensure!(ok, "{w}: item {n} is not #{i} ({}) but {}", m.kind(*i), g);
                }
                macro_rules! items_of { ($($t:ident)*) => { $( {
                    let want: Vec<u64> = want.iter().copied().filter(|i| m.kind(*i) == stringify!($t)).collect();
                    let got: Vec<&$t> = guard(|| x.items_of::<$t>(&ifc).collect()).map_err(|p| format!("{w}: items_of: {p}"))?;
                    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, i)| get::<$t>(&ifc, *i as usize).is_some_and(|b| std::ptr::eq(*a, b))), "{w}: items_of::<{}> returns {} items instead of {want:?}", stringify!($t), got.len());
                } )* } }
                items_of!(MappedItem ExtrudedAreaSolid PolyLine);
                let cx = m.r(id, "context_of_items").unwrap();
                let parent = if m.kind(cx) == "GeometricRepresentationSubContext" { m.r(cx, "parent_context").unwrap() } else { cx };
                m.same(&format!("{w} parent context"), Some(guard(|| x.parent_context(&ifc)).map_err(|p| format!("{w}: {p}"))?), Some(parent))?;
            }
            _ => hit = false,
        }
        if let Some(got) = with_product!(m, id, Wall Slab Roof Window Door OpeningElement Site Building Storey Space ShadingDevice) {
            let want = m.r(id, "representation").map(|p| m.l(p, "representations")).unwrap_or_default();
            ensure!(got.len() == want.len(), "{w}: {} shapes instead of {}", got.len(), want.len());
            for (a, b) in got.iter().zip(&want) { m.same(&format!("{w} shape"), Some(*a), Some(*b))?; }
            hit = true;
        }
        if let Some(got) = with_shape!(m, id, Wall Slab Roof Window Door OpeningElement ShadingDevice) {
            let want = m.r(id, "representation");
            ensure!(got.map(|x| x.id().0 as u64) == want, "{w}: shape() does not name {want:?}");
        }
        if let Some((a, b)) = with_place!(m, id, Site Building Storey OpeningElement Wall Slab) {
            let want = m.r(id, "object_placement");
            ensure!(a.map(|x| x.0 as u64) == want && b.map(|x| x.0 as u64) == want, "{w}: placement {a:?}/{b:?} instead of {want:?}");
        }
        // structures
        let any = ifc.data.get_untyped(Id(id as usize));
        let is_structure = matches!(k, "Wall" | "Slab" | "Roof" | "Window" | "Door" | "ShadingDevice" | "Site" | "Building" | "Storey" | "Space");
        if k != "OpeningElement" {
            let st = any.to_structure();
            ensure!(st.is_some() == is_structure, "{w}: to_structure() is {}", if st.is_some() { "present" } else { "absent" });
            let (name, at) = match st.and_then(|x| x.structure_type()) {
                None => ("", 0), Some(StructureType::Wall(x)) => ("Wall", addr(x)), Some(StructureType::Slab(x)) => ("Slab", addr(x)), Some(StructureType::Roof(x)) => ("Roof", addr(x)),
                Some(StructureType::Window(x)) => ("Window", addr(x)), Some(StructureType::Door(x)) => ("Door", addr(x)), Some(StructureType::ShadingDevice(x)) => ("ShadingDevice", addr(x)),
            };
            macro_rules! own { ($($t:ident)*) => { match k { $(stringify!($t) => get::<$t>(&ifc, id as usize).map(addr).unwrap_or(1),)* _ => 0 } } }
            let want = own!(Wall Slab Roof Window Door ShadingDevice);
            ensure!(at == want && (want == 0 || name == k), "{w}: structure_type() is {name:?}, not the instance itself");
        }
        if hit { seen.push(inst_key(i)); }
    }
    if seen.len() >= 4 { seen.sort(); c.non_trivial(&seen); }
    c.sample(|| { let mut l: Vec<&str> = g.insts.iter().filter(|i| i.ent.is_some()).map(kind_name).collect(); l.sort(); l.dedup(); l.join(" ") });
    Ok(())
}
thread_local! { static LEN: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) }; }
/// outlines, representations and shapes of many lengths
fn p24_lengths(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut sizes: Vec<usize> = super::read_write::SIZES[1..].to_vec(); sizes.extend([300, 2000]);
    for n in sizes {
        for seed in 0..(if n > 150 { 6 } else { 24u64 }) {
            LEN.set(Some(n));
            let r = p24(&mut Src::random(hash_of(&("p24 lengths", n, seed))), c);
            LEN.set(None);
            r.map_err(|e| format!("lists of {n} members: {e}"))?;
        }
    }
    Ok(vec![])
}
fn of_map<'a, T: IfcMappedType<'a>>(x: &'a T, ifc: &'a IFC) -> T::Target { x.mappings(ifc) }

/// a solid over a profile of an unsupported kind
fn p24_profile(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut out = vec![];
    let t = file_with("#1= IFCCIRCLEPROFILEDEF(.AREA.,$,$,2.);\n#2= IFCDIRECTION((0.,0.,1.));\n#3= IFCEXTRUDEDAREASOLID(#1,$,#2,3.);");
    c.input = t.clone();
    c.eval(1);
    let ifc = must_read(&t, "a file with a circular profile")?;
    let x = get::<ExtrudedAreaSolid>(&ifc, 3).ok_or("not a solid")?;
    if let Err(p) = guard(|| { let _ = x.mappings(&ifc); }) {
        if known("P24", "opaque-profile") { out.push("reading the geometry of an extruded solid panics when its profile is of a kind without typed support (e.g. IFCCIRCLEPROFILEDEF), although the reader accepts such files".to_string()); }
        else { return Err(format!("mappings() of a solid over a circular profile: {p}")); }
    }
    Ok(out)
}
