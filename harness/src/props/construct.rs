//! P16, P17: constructors and setters, sub-objects by value or by reference.
use super::*;
use crate::enums::*;
use bevy_math::{DVec2, DVec3};
use std::collections::{BTreeMap, HashMap, HashSet};

pub static PROPS: [Prop; 2] = [
    Prop { id: "P16", rule: "a case constructs one instance of a random kind with a random sequence of setter calls (0-12, any order, repeated) and compares every attribute; non-trivial: at least two setter calls, distinct by kind and call sequence",
        assumptions: &["owning_user/owning_application of an owner history also set the last modifying user/application (as the library does)"], quick: 750_000, thorough: 4_000_000, case: p16, probes: &[p16_vectors] },
    Prop { id: "P17", rule: "a case constructs one instance in a pre-filled store, every reference-or-value argument given randomly by reference, by plain number or by value (nested); non-trivial: at least one argument by value, distinct by kind and added instances",
        assumptions: &[], quick: 240_000, thorough: 2_000_000, case: p17, probes: &[] },
];

const PH: u64 = 1 << 62;
#[derive(Clone)]
struct Exp { v: V, id: Option<u64> }
#[derive(Clone)]
pub struct V { kind: &'static str, vals: Vec<Val> }
impl V {
    fn new(kind: &'static str) -> V {
        let e = ent(kind);
        V { kind, vals: e.fields.iter().map(|f| if matches!(f.k, K::Guid) { Val::Str("?guid".into()) } else if !f.opt && matches!(f.k, K::L(_)) { Val::List(vec![]) } else { Val::Omit }).collect() }
    }
    fn ix(&self, f: &str) -> usize { ent(self.kind).fields.iter().position(|x| x.name == f).unwrap_or_else(|| panic!("harness: no field {f} in {}", self.kind)) }
    fn set(&mut self, f: &str, v: Val) { let i = self.ix(f); self.vals[i] = v; }
    fn push(&mut self, f: &str, v: Val) { let i = self.ix(f); match &mut self.vals[i] { Val::List(l) => l.push(v), x => *x = Val::List(vec![v]) } }
}
pub struct E<'a> { s: &'a mut Src, ifc: IFC, known: HashMap<&'static str, Vec<u64>>, exp: Vec<Exp>, byval: bool, depth: usize, log: Vec<String>, by_value_used: usize, spans: HashMap<&'static str, Vec<(usize, usize)>> }
impl<'a> E<'a> {
    fn text(&mut self) -> String { text(self.s, true) }
    fn real(&mut self) -> f64 { real(self.s) }
    fn call(&mut self, f: &str, v: &Val) { let d = "  ".repeat(self.depth); self.log.push(format!("{d}.{f}({})", v.show())); }
    /// existing instance of the kind (made if there is none)
    fn existing<T: Mk>(&mut self) -> u64 {
        if let Some(l) = self.known.get(T::KIND) { if !l.is_empty() { let k = self.s.u(l.len()); return self.known[T::KIND][k]; } }
        let (b, d) = (self.byval, self.depth);
        self.byval = false; self.depth = 1;
        let (t, v) = T::mk(self);
        self.byval = b; self.depth = d;
        let id = self.ifc.data.insert_new(t).id().0 as u64;
        self.log.push(format!("{}#{id} = {}", "  ".repeat(d), T::KIND));
        self.known.entry(T::KIND).or_default().push(id);
        self.exp.push(Exp { v, id: Some(id) });
        id
    }
    fn id<T: Mk>(&mut self) -> (TypedId<T>, Val) { let i = self.existing::<T>(); (TypedId::new(Id(i as usize)), Val::Ref(i)) }
    fn value<T: Mk>(&mut self) -> (T, Val) {
        self.depth += 1;
        // every now and then an equal or nearly equal value once more
        let l = self.spans.get(T::KIND).cloned().unwrap_or_default();
        let again = self.s.again(&l, 5); let from = self.s.mark();
        let (t, v) = T::mk(self);
        if again { self.s.fresh(); }
        let to = self.s.mark(); self.spans.entry(T::KIND).or_default().push((from, to));
        self.depth -= 1;
        self.exp.push(Exp { v, id: None });
        (t, Val::Ref(PH + self.exp.len() as u64 - 1))
    }
    fn arg<T: Mk>(&mut self) -> (IdOr<T>, Val) {
        if self.byval && self.depth < 4 && self.s.chance(1, 2) {
            self.by_value_used += 1;
            let (t, v) = self.value::<T>();
            let text = t.to_string();
            let x: IdOr<T> = t.into();
            assert!(x.id().is_none(), "a {} given by value claims to be a reference", T::KIND);
            assert!(x.custom().map(|t| t.to_string()).as_deref() == Some(text.as_str()), "a {} given by value is not the one given", T::KIND);
            return (x, v);
        }
        let (i, v) = self.id::<T>();
        let x: IdOr<T> = match self.s.u(4) { 0 => IdOr::Id(i), 1 => i.into(), 2 => i.id().into(), _ => i.id_or() };
        assert!(x.id().map(|j| j.id()) == Some(i.id()) && x.custom().is_none(), "a reference to the {} #{} is not kept as that reference", T::KIND, i.id().0);
        (x, v)
    }
}
pub trait Mk: IfcType + Sized + 'static { const KIND: &'static str; fn mk(e: &mut E) -> (Self, V); }

/// setter calls in random number and order; each block is one call
macro_rules! calls { ($e:ident, $($b:block)*) => {{
    let n_arms = [$(stringify!($b)),*].len();
    let n = if $e.depth > 1 { $e.s.u(3) } else { $e.s.len(0, 2 * n_arms.min(6)) };
    for _ in 0..n { let k = $e.s.u(n_arms); let mut j = 0usize; $( if k == j { $b; } j += 1; )* let _ = j; }
}} }
macro_rules! st { ($e:ident, $t:ident, $v:ident, $m:ident, $f:literal) => {{ let x = $e.text(); let w = Val::Str(x.clone()); $e.call(stringify!($m), &w); $v.set($f, w); $t = $t.$m(x); }};
    ($e:ident, $t:ident, $v:ident, $m:ident) => { st!($e, $t, $v, $m, #stringify!($m)) };
    ($e:ident, $t:ident, $v:ident, $m:ident, #$f:expr) => {{ let x = $e.text(); let w = Val::Str(x.clone()); $e.call(stringify!($m), &w); $v.set($f, w); $t = $t.$m(x); }} }
macro_rules! rl { ($e:ident, $t:ident, $v:ident, $m:ident) => {{ let x = $e.real(); let w = Val::Real(x); $e.call(stringify!($m), &w); $v.set(stringify!($m), w); $t = $t.$m(x); }} }
macro_rules! enm { ($e:ident, $t:ident, $v:ident, $m:ident, $all:ident) => {{ let (x, l) = $e.variant($all()); let w = Val::Enum(l); $e.call(stringify!($m), &w); $v.set(stringify!($m), w); $t = $t.$m(x); }} }
macro_rules! rf { ($e:ident, $t:ident, $v:ident, $m:ident, $k:ident) => { rf!($e, $t, $v, $m, $k, stringify!($m)) };
    ($e:ident, $t:ident, $v:ident, $m:ident, $k:ident, $f:expr) => {{ let (x, w) = $e.arg::<$k>(); $e.call(stringify!($m), &w); $v.set($f, w); $t = $t.$m(x, &mut $e.ifc); }} }
macro_rules! rp { ($e:ident, $t:ident, $v:ident, $m:ident, $k:ident, $f:expr) => {{ let (x, w) = $e.arg::<$k>(); $e.call(stringify!($m), &w); $v.push($f, w); $t = $t.$m(x, &mut $e.ifc); }} }
/// one of several kinds by reference or value
macro_rules! any { ($e:ident, [$($k:ident),*], |$x:ident, $w:ident| $b:expr) => {{
    let n = [$(stringify!($k)),*].len(); let k = $e.s.u(n); let mut j = 0;
    'pick: { $( if k == j { let ($x, $w) = $e.arg::<$k>(); break 'pick $b; } j += 1; )* let _ = j; unreachable!() } }} }
/// an instance of one of several kinds, always by value
macro_rules! anyval { ($e:ident, [$($k:ident),*], |$x:ident, $w:ident| $b:expr) => {{
    let n = [$(stringify!($k)),*].len(); let k = $e.s.u(n); let mut j = 0;
    'pick: { $( if k == j { let ($x, $w) = $e.value::<$k>(); break 'pick $b; } j += 1; )* let _ = j; unreachable!() } }} }
impl<'a> E<'a> {
    fn variant<T>(&mut self, all: Vec<(T, &'static str)>) -> (T, String) { let k = self.s.u(all.len()); let x = all.into_iter().nth(k).unwrap(); (x.0, x.1.to_string()) }
    /// any existing instance number
    fn any_id(&mut self) -> u64 {
        let mut ids: Vec<u64> = self.known.values().flatten().copied().collect(); ids.sort();
        if ids.is_empty() || self.s.chance(1, 4) { return match self.s.u(3) { 0 => self.existing::<Wall>(), 1 => self.existing::<Site>(), _ => self.existing::<SiUnit>() }; }
        *self.s.pick(&ids)
    }
}
fn root_step<T: RootBuilder>(e: &mut E, mut t: T, v: &mut V) -> T { match e.s.u(3) { 0 => st!(e, t, v, name), 1 => st!(e, t, v, description), _ => rf!(e, t, v, owner_history, OwnerHistory) } t }
fn object_step<T: RootBuilder + ObjectBuilder>(e: &mut E, mut t: T, v: &mut V) -> T { if e.s.chance(1, 4) { st!(e, t, v, object_type); t } else { root_step(e, t, v) } }
fn product_step<T: RootBuilder + ObjectBuilder + ProductBuilder>(e: &mut E, mut t: T, v: &mut V) -> T {
    match e.s.u(4) { 0 => { rf!(e, t, v, object_placement, LocalPlacement); t } 1 => { rf!(e, t, v, representation, ProductDefinitionShape); t } _ => object_step(e, t, v) }
}
fn element_step<T: RootBuilder + ObjectBuilder + ProductBuilder + ElementBuilder>(e: &mut E, mut t: T, v: &mut V) -> T { if e.s.chance(1, 5) { st!(e, t, v, tag); t } else { product_step(e, t, v) } }
fn sse_step<T: RootBuilder + ObjectBuilder + ProductBuilder + SpatialElementBuilder + SpatialStructureElementBuilder>(e: &mut E, mut t: T, v: &mut V) -> T {
    match e.s.u(5) { 0 => { st!(e, t, v, long_name); t } 1 => { enm!(e, t, v, composition_type, all_composition_type_enum); t } _ => product_step(e, t, v) }
}
fn etype_step<T: RootBuilder + TypeProductBuilder + ElementTypeBuilder>(e: &mut E, mut t: T, v: &mut V) -> T {
    match e.s.u(5) { 0 => { st!(e, t, v, tag); t } 1 => { st!(e, t, v, element_type); t } _ => root_step(e, t, v) }
}
macro_rules! mk { ($t:ident, |$e:ident, $v:ident| $b:block) => { impl Mk for $t { const KIND: &'static str = stringify!($t); fn mk($e: &mut E) -> (Self, V) {
    #[allow(unused_mut)] let mut $v = V::new(stringify!($t)); let d = "  ".repeat($e.depth); $e.log.push(format!("{d}{}::new", stringify!($t))); let t: $t = $b; (t, $v) } } } }
macro_rules! named { ($e:ident, $v:ident, $t:ident) => {{ let x = $e.text(); $v.set("name", Val::Str(x.clone())); $t::new(x) }} }
/// kinds without constructors: made from their record
macro_rules! parsed { ($($t:ident),*) => { $( mk!($t, |e, v| {
    let o = GenOpts { budget: 0, opaque: false, alt: false, dummy_targets: false, plain_ids: true, ..Default::default() };
    let ent = ent(stringify!($t));
    let mut g = Gen::new(e.s, o);
    let vals: Vec<Val> = ent.fields.iter().map(|f| if matches!(f.k, K::Ref(_) | K::Weak(_)) { Val::Omit } else { g.field(f, 0) }).collect();
    v.vals = vals;
    let inst = Inst { id: 1, ent: Some(ent_ix(stringify!($t))), vals: v.vals.clone(), raw: String::new(), alt: false };
    let t = render_record(&mut Src::replay(&[]), PLAIN, &inst);
    let mut w = v.vals.clone(); normalize(&ent.fields, &mut w); v.vals = w;
    let mut ifc = must_read(&file_with(&t), "record").expect("harness: record of own making");
    take::<$t>(&mut ifc)
}); )* } }
fn take<T: IfcType>(ifc: &mut IFC) -> T { let b = ifc.data.remove(Id(1)).expect("harness: #1"); *b.downcast::<T>().ok().expect("harness: kind") }
parsed!(ActorRole, PostalAddress, TelecomAddress);

mk!(Application, |e, v| {
    let (o, w) = e.id::<Organization>(); let (a, b, c) = (e.text(), e.text(), e.text());
    v.set("application_developer", w); v.set("version", Val::Str(a.clone())); v.set("application_full_name", Val::Str(b.clone())); v.set("application_identifier", Val::Str(c.clone()));
    Application::new(o, a, b, c)
});
mk!(Organization, |e, v| {
    let id = e.s.bool().then(|| e.text()); let n = e.text(); let d = e.s.bool().then(|| e.text());
    if let Some(x) = &id { v.set("id", Val::Str(x.clone())); } v.set("name", Val::Str(n.clone())); if let Some(x) = &d { v.set("description", Val::Str(x.clone())); }
    let mut t = Organization::new(id.as_deref(), n, d.as_deref());
    calls!(e, { rp!(e, t, v, add_role, ActorRole, "roles") } { rp!(e, t, v, add_address, TelecomAddress, "addresses") } { rp!(e, t, v, add_address, PostalAddress, "addresses") });
    t
});
mk!(Person, |e, v| {
    let mut t = Person::empty();
    calls!(e, { st!(e, t, v, id) } { st!(e, t, v, family_name) } { st!(e, t, v, given_name) }
        { let x = e.text(); e.call("add_middle_name", &Val::Str(x.clone())); v.push("middle_names", Val::Str(x.clone())); t = t.add_middle_name(x) }
        { let x = e.text(); e.call("add_prefix_title", &Val::Str(x.clone())); v.push("prefix_titles", Val::Str(x.clone())); t = t.add_prefix_title(x) }
        { let x = e.text(); e.call("add_suffix_title", &Val::Str(x.clone())); v.push("suffix_titles", Val::Str(x.clone())); t = t.add_suffix_title(x) }
        { rp!(e, t, v, add_role, ActorRole, "roles") } { rp!(e, t, v, add_address, TelecomAddress, "addresses") } { rp!(e, t, v, add_address, PostalAddress, "addresses") });
    t
});
mk!(PersonAndOrganization, |e, v| {
    let (p, w) = e.id::<Person>(); let (o, x) = e.id::<Organization>();
    v.set("the_person", w); v.set("the_organization", x);
    let mut t = PersonAndOrganization::new(p, o);
    calls!(e, { rp!(e, t, v, add_role, ActorRole, "roles") });
    t
});
fn stamp(e: &mut E) -> (IfcTimestamp, Val) { let t = timestamp(e.s); (IfcTimestamp(crate::gen::moment(t)), Val::Int(t as i128)) }
mk!(OwnerHistory, |e, v| {
    let (a, l) = e.variant(all_change_action()); let (ts, w) = stamp(e);
    v.set("change_action", Val::Enum(l)); v.set("creation_date", w);
    let mut t = OwnerHistory::new(a, ts);
    calls!(e, { let (x, w) = e.arg::<PersonAndOrganization>(); e.call("owning_user", &w); v.set("owning_user", w.clone()); v.set("last_modifying_user", w); t = t.owning_user(x, &mut e.ifc) }
        { let (x, w) = e.arg::<Application>(); e.call("owning_application", &w); v.set("owning_application", w.clone()); v.set("last_modifying_application", w); t = t.owning_application(x, &mut e.ifc) }
        { enm!(e, t, v, state, all_access_state) }
        { let (ts, w) = stamp(e); e.call("last_modified_date", &w); v.set("last_modified_date", w); t = t.last_modified_date(ts) }
        { rf!(e, t, v, last_modifying_user, PersonAndOrganization) } { rf!(e, t, v, last_modifying_application, Application) });
    t
});
mk!(Wall, |e, v| { let mut t = named!(e, v, Wall); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { rf!(e, t, v, predefined_type, WallType) }); t });
mk!(Slab, |e, v| { let mut t = named!(e, v, Slab); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { enm!(e, t, v, predefined_type, all_slab_type_enum) }); t });
mk!(Roof, |e, v| { let mut t = named!(e, v, Roof); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { enm!(e, t, v, predefined_type, all_roof_type_enum) }); t });
mk!(OpeningElement, |e, v| { let mut t = named!(e, v, OpeningElement); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { enm!(e, t, v, predefined_type, all_opening_element_type_enum) }); t });
mk!(ShadingDevice, |e, v| { let mut t = named!(e, v, ShadingDevice); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { enm!(e, t, v, predefined_type, all_shading_device_type_enum) }); t });
mk!(Window, |e, v| { let mut t = named!(e, v, Window); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { rl!(e, t, v, overall_height) } { rl!(e, t, v, overall_width) } { enm!(e, t, v, predefined_type, all_window_type_enum) } { enm!(e, t, v, partitioning_type, all_window_partitioning_type_enum) }); t });
mk!(Door, |e, v| { let mut t = named!(e, v, Door); calls!(e, { t = element_step(e, t, &mut v) } { t = element_step(e, t, &mut v) } { rl!(e, t, v, overall_height) } { rl!(e, t, v, overall_width) } { enm!(e, t, v, predefined_type, all_door_type_enum) } { enm!(e, t, v, operation_type, all_door_operation_type_enum) }); t });
mk!(Building, |e, v| { let mut t = named!(e, v, Building); calls!(e, { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) } { rl!(e, t, v, elevation_of_ref_height) } { rl!(e, t, v, elevation_of_terrain) } { rf!(e, t, v, building_address, PostalAddress) }); t });
mk!(Storey, |e, v| { let mut t = named!(e, v, Storey); calls!(e, { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) }); t });
mk!(Space, |e, v| { let mut t = named!(e, v, Space); calls!(e, { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) } { enm!(e, t, v, predefined_type, all_space_type_enum) } { rl!(e, t, v, elevation_with_flooring) }); t });
fn ints(e: &mut E) -> (Vec<i64>, Val) { let n = e.s.many(0, 4, 200); let l: Vec<i64> = (0..n).map(|_| int(e.s)).collect(); let w = Val::List(l.iter().map(|x| Val::Int(*x as i128)).collect()); (l, w) }
mk!(Site, |e, v| {
    let mut t = named!(e, v, Site);
    calls!(e, { t = sse_step(e, t, &mut v) } { t = sse_step(e, t, &mut v) } { let (l, w) = ints(e); e.call("ref_latitude", &w); v.set("ref_latitude", w); t = t.ref_latitude(l) } { let (l, w) = ints(e); e.call("ref_longitude", &w); v.set("ref_longitude", w); t = t.ref_longitude(l) }
        { rl!(e, t, v, ref_elevation) } { st!(e, t, v, land_title_number) } { rf!(e, t, v, site_address, PostalAddress) });
    t
});
macro_rules! etypes { ($($t:ident, $all:ident);*) => { $( mk!($t, |e, v| { let x = e.text(); let (p, l) = e.variant($all()); v.set("name", Val::Str(x.clone())); v.set("predefined_type", Val::Enum(l)); let mut t = $t::new(x, p);
    calls!(e, { t = etype_step(e, t, &mut v) } { t = etype_step(e, t, &mut v) }); t }); )* } }
etypes!(WallType, all_wall_type_enum; SlabType, all_slab_type_enum; RoofType, all_roof_type_enum; SpaceType, all_space_type_enum; ShadingDeviceType, all_shading_device_type_enum);
mk!(WindowType, |e, v| { let x = e.text(); let (p, l) = e.variant(all_window_type_enum()); let (q, m) = e.variant(all_window_partitioning_type_enum());
    v.set("name", Val::Str(x.clone())); v.set("predefined_type", Val::Enum(l)); v.set("partitioning_type", Val::Enum(m)); let mut t = WindowType::new(x, p, q); calls!(e, { t = etype_step(e, t, &mut v) }); t });
mk!(DoorType, |e, v| { let x = e.text(); let (p, l) = e.variant(all_door_type_enum()); let (q, m) = e.variant(all_door_operation_type_enum());
    v.set("name", Val::Str(x.clone())); v.set("predefined_type", Val::Enum(l)); v.set("operation_type", Val::Enum(m)); let mut t = DoorType::new(x, p, q); calls!(e, { t = etype_step(e, t, &mut v) }); t });
mk!(Project, |e, v| {
    let mut t = named!(e, v, Project);
    calls!(e, { t = root_step(e, t, &mut v) } { st!(e, t, v, object_type) } { st!(e, t, v, long_name) } { st!(e, t, v, phase) } { rp!(e, t, v, add_context, GeometricRepresentationContext, "representation_context") } { rf!(e, t, v, unit_assignment, UnitAssigment, "units_in_context") });
    t
});
// ---- geometry
fn v2(e: &mut E) -> DVec2 { DVec2::new(e.real(), e.real()) }
fn v3(e: &mut E) -> DVec3 { DVec3::new(e.real(), e.real(), e.real()) }
fn l2(p: DVec2) -> Val { Val::List(vec![Val::Real(p.x), Val::Real(p.y)]) }
fn l3(p: DVec3) -> Val { Val::List(vec![Val::Real(p.x), Val::Real(p.y), Val::Real(p.z)]) }
mk!(Point2D, |e, v| { let p = v2(e); v.set("coords", l2(p)); Point2D::from(p) });
mk!(Point3D, |e, v| { let p = v3(e); v.set("coords", l3(p)); Point3D::from(p) });
/// unit vectors with rational components: normalising them is exact up to one rounding step; powers of two scale exactly
fn dir3(e: &mut E) -> (DVec3, DVec3) { let u = *e.s.pick(&[DVec3::X, DVec3::Y, DVec3::Z, DVec3::NEG_X, DVec3::NEG_Y, DVec3::NEG_Z]); let k = [1.0, 2.0, 0.5, 8.0][e.s.u(4)]; (u * k, u) }
mk!(Direction3D, |e, v| { let (p, u) = dir3(e); v.set("ratios", l3(u)); Direction3D::from(p) });
mk!(Direction2D, |e, v| { let u = *e.s.pick(&[DVec2::X, DVec2::Y, DVec2::NEG_X, DVec2::NEG_Y]); v.set("ratios", l2(u)); Direction2D::from(u * [1.0, 4.0][e.s.u(2)]) });
impl<'a> E<'a> { fn ph(&mut self, kind: &'static str, f: &str, w: Val) -> Val { let mut v = V::new(kind); v.set(f, w); self.exp.push(Exp { v, id: None }); Val::Ref(PH + self.exp.len() as u64 - 1) } }
mk!(Axis2D, |e, v| { let p = v2(e); let w = e.ph("Point2D", "coords", l2(p)); v.set("location", w); Axis2D::new(Point2D::from(p), &mut e.ifc) });
mk!(Axis3D, |e, v| {
    let p = v3(e); let w = e.ph("Point3D", "coords", l3(p)); v.set("location", w);
    Axis3D::new(Point3D::from(p), &mut e.ifc)
});
mk!(PolyLine, |e, v| {
    let n = e.s.len(1, 6);
    if e.s.bool() { let ps: Vec<DVec2> = (0..n).map(|_| v2(e)).collect(); for p in &ps { let w = e.ph("Point2D", "coords", l2(*p)); v.push("points", w); } PolyLine::from(ps.into_iter().map(Point2D::from), &mut e.ifc) }
    else { let ps: Vec<DVec3> = (0..n).map(|_| v3(e)).collect(); for p in &ps { let w = e.ph("Point3D", "coords", l3(*p)); v.push("points", w); } PolyLine::from(ps.into_iter().map(Point3D::from), &mut e.ifc) }
});
mk!(PointList2D, |e, v| { let n = e.s.many(0, 6, 300); let ps: Vec<DVec2> = (0..n).map(|_| v2(e)).collect(); v.set("coord_list", Val::List(ps.iter().map(|p| l2(*p)).collect())); PointList2D::new(ps.into_iter()) });
mk!(PointList3D, |e, v| { let n = e.s.many(0, 6, 300); let ps: Vec<DVec3> = (0..n).map(|_| v3(e)).collect(); v.set("coord_list", Val::List(ps.iter().map(|p| l3(*p)).collect())); PointList3D::new(ps.into_iter()) });
mk!(IndexedPolyCurve, |e, v| { anyval!(e, [PointList2D, PointList3D], |x, w| { v.set("points", w); IndexedPolyCurve::new(x, &mut e.ifc) }) });
mk!(ArbitraryClosedProfileDef, |e, v| {
    let (p, l) = e.variant(all_profile_type()); v.set("profile_type", Val::Enum(l));
    let mut t = any!(e, [IndexedPolyCurve, PolyLine], |x, w| { v.set("outer_curve", w); ArbitraryClosedProfileDef::new(p, x, &mut e.ifc) });
    calls!(e, { st!(e, t, v, profile_name) });
    t
});
mk!(RectangleProfileDef, |e, v| {
    let (p, l) = e.variant(all_profile_type()); let (x, y) = (e.real(), e.real());
    v.set("profile_type", Val::Enum(l)); v.set("x_dim", Val::Real(x)); v.set("y_dim", Val::Real(y));
    let mut t = RectangleProfileDef::new(p, x, y);
    calls!(e, { st!(e, t, v, profile_name) } { rf!(e, t, v, position, Axis2D) } { rf!(e, t, v, position, Axis3D) });
    t
});
mk!(ExtrudedAreaSolid, |e, v| {
    let d = e.real(); v.set("depth", Val::Real(d));
    let mut t = any!(e, [RectangleProfileDef, ArbitraryClosedProfileDef], |x, w| { let (y, z) = e.arg::<Direction3D>(); v.set("swept_area", w); v.set("extruded_direction", z); ExtrudedAreaSolid::new(x, y, d, &mut e.ifc) });
    calls!(e, { rf!(e, t, v, position, Axis3D) });
    t
});
mk!(ProductDefinitionShape, |e, v| { let mut t = ProductDefinitionShape::new(); calls!(e, { st!(e, t, v, name) } { st!(e, t, v, description) } { rp!(e, t, v, add_representation, ShapeRepresentation, "representations") }); t });
mk!(ShapeRepresentation, |e, v| {
    let (c, w) = e.arg::<GeometricRepresentationSubContext>(); let (i, a) = e.variant(all_representation_identifier()); let (r, b) = e.variant(all_representation_type());
    v.set("context_of_items", w); v.set("representation_identifier", Val::Str(a)); v.set("representation_type", Val::Str(b));
    let mut t = ShapeRepresentation::new(c, i, r, &mut e.ifc);
    let n = if e.depth > 2 { 0 } else { e.s.len(0, 3) };
    for _ in 0..n { t = if e.depth > 1 || e.s.bool() { anyval!(e, [PolyLine, ExtrudedAreaSolid], |x, w| { v.push("items", w); t.add_item(x, &mut e.ifc) }) } else { anyval!(e, [PolyLine, ExtrudedAreaSolid, MappedItem], |x, w| { v.push("items", w); t.add_item(x, &mut e.ifc) }) }; }
    t
});
mk!(GeometricRepresentationContext, |e, v| {
    let (d, l) = e.variant(all_dimension_count()); v.set("context_identifier", Val::Str("Body".into())); v.set("context_type", Val::Str("Model".into())); v.set("coord_space_dimension", Val::Int(l.parse().unwrap()));
    let mut t = any!(e, [Axis2D, Axis3D], |x, w| { v.set("world_coord_system", w); GeometricRepresentationContext::new(d, x, &mut e.ifc) });
    calls!(e, { rl!(e, t, v, precision) } { rf!(e, t, v, true_north, Axis2D) } { rf!(e, t, v, true_north, Axis3D) });
    t
});
mk!(GeometricRepresentationSubContext, |e, v| {
    let (c, w) = e.arg::<GeometricRepresentationContext>(); let (g, l) = e.variant(all_geometric_projection());
    v.set("context_identifier", Val::Str("Body".into())); v.set("context_type", Val::Str("Model".into())); v.set("parent_context", w); v.set("target_view", Val::Enum(l));
    for f in ["coord_space_dimension", "precision", "world_coord_system", "true_north"] { v.set(f, Val::Derived); }
    let mut t = GeometricRepresentationSubContext::derive(c, g, &mut e.ifc);
    calls!(e, { rl!(e, t, v, target_scale) } { st!(e, t, v, user_defined_target_view) });
    t
});
mk!(LocalPlacement, |e, v| {
    let mut t = any!(e, [Axis2D, Axis3D], |x, w| { v.set("relative_placement", w); LocalPlacement::new(x, &mut e.ifc) });
    if e.depth < 3 { calls!(e, { rf!(e, t, v, relative_to, LocalPlacement, "placement_rel_to") }); }
    t
});
mk!(CartesianTransformationOperator3D, |e, v| {
    let (o, w) = e.arg::<Point3D>(); let (x, a) = e.arg::<Direction3D>(); let (y, b) = e.arg::<Direction3D>(); let (z, c) = e.arg::<Direction3D>(); let s = e.real();
    v.set("local_origin", w); v.set("axis_x", a); v.set("axis_y", b); v.set("axis_z", c); v.set("scale", Val::Real(s));
    CartesianTransformationOperator3D::new(o, (x, y, z), s, &mut e.ifc)
});
mk!(CartesianTransformationOperator3DnonUniform, |e, v| {
    let (o, w) = e.arg::<Point3D>(); let (x, a) = e.arg::<Direction3D>(); let (y, b) = e.arg::<Direction3D>(); let (z, c) = e.arg::<Direction3D>(); let (s, p, q) = (e.real(), e.real(), e.real());
    v.set("local_origin", w); v.set("axis_x", a); v.set("axis_y", b); v.set("axis_z", c); v.set("scale", Val::Real(s)); v.set("scale_y", Val::Real(p)); v.set("scale_z", Val::Real(q));
    CartesianTransformationOperator3DnonUniform::new(o, (x, y, z), (s, p, q), &mut e.ifc)
});
mk!(RepresentationMap, |e, v| { let (a, w) = e.arg::<Axis3D>(); let (r, x) = e.arg::<ShapeRepresentation>(); v.set("origin", w); v.set("representation", x); RepresentationMap::new(a, r, &mut e.ifc) });
mk!(MappedItem, |e, v| { let (a, w) = e.arg::<RepresentationMap>(); v.set("source", w); any!(e, [CartesianTransformationOperator3DnonUniform, CartesianTransformationOperator3D], |x, w| { v.set("target", w); MappedItem::new(a, x, &mut e.ifc) }) });
// ---- relations
mk!(RelAggregates, |e, v| {
    let x = e.text(); let p = e.any_id(); let n = e.s.many(0, 5, 200); let l: Vec<u64> = (0..n).map(|_| e.any_id()).collect();
    v.set("name", Val::Str(x.clone())); v.set("relating_object", Val::Ref(p)); v.set("related_objects", Val::List(l.iter().map(|i| Val::Ref(*i)).collect()));
    let mut t = RelAggregates::new(x, Id(p as usize), l.into_iter().map(|i| Id(i as usize)));
    calls!(e, { t = root_step(e, t, &mut v) });
    t
});
mk!(RelAssociatesMaterial, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone()));
    let mut t = any!(e, [Material, MaterialLayerSet, MaterialLayerSetUsage, MaterialConstituentSet], |y, w| { v.set("relating_material", w); RelAssociatesMaterial::new(x.clone(), y, &mut e.ifc) });
    calls!(e, { t = root_step(e, t, &mut v) }
        { t = any!(e, [Wall, Slab, Roof, Window, Door, ShadingDevice, WallType, SlabType, RoofType, WindowType, DoorType, ShadingDeviceType], |y, w| { e.call("relate_obj", &w); v.push("related_objects", w); t.relate_obj(y, &mut e.ifc) }) }
        { any!(e, [Wall, Slab, Window, WallType], |y, w| { e.call("relate_push", &w); v.push("related_objects", w); t.relate_push(y, &mut e.ifc) }) });
    t
});
mk!(RelContainedInSpatialStructure, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone()));
    let mut t = any!(e, [Storey, Building, Site], |y, w| { v.set("relating_structure", w); RelContainedInSpatialStructure::new(x.clone(), y, &mut e.ifc) });
    calls!(e, { t = root_step(e, t, &mut v) } { t = any!(e, [Wall, Slab, Roof, Window, Door, OpeningElement, ShadingDevice, Space], |y, w| { e.call("relate_structure", &w); v.push("related_elements", w); t.relate_structure(y, &mut e.ifc) }) });
    t
});
mk!(RelDeclares, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone())); let (p, w) = e.arg::<Project>(); v.set("relating_context", w);
    let mut t = RelDeclares::new(x, p, &mut e.ifc);
    calls!(e, { t = root_step(e, t, &mut v) } { t = any!(e, [WallType, Wall, Site, SlabType], |y, w| { e.call("relate_definition", &w); v.push("related_definitions", w); t.relate_definition(y, &mut e.ifc) }) });
    t
});
mk!(RelDefinesByProperties, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone())); let (p, w) = e.arg::<PropertySet>(); v.set("relating_property_definition", w);
    let mut t = RelDefinesByProperties::new(x, p, &mut e.ifc);
    calls!(e, { t = root_step(e, t, &mut v) } { t = any!(e, [Wall, Storey, Slab, Window], |y, w| { e.call("relate_obj", &w); v.push("related_objects", w); t.relate_obj(y, &mut e.ifc) }) });
    t
});
mk!(RelDefinesByType, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone()));
    let mut t = any!(e, [WallType, SlabType, WindowType, SpaceType], |y, w| { v.set("relating_type", w); RelDefinesByType::new(x.clone(), y, &mut e.ifc) });
    calls!(e, { t = root_step(e, t, &mut v) } { t = any!(e, [Wall, Space, Slab, Window], |y, w| { e.call("relate_obj", &w); v.push("related_objects", w); t.relate_obj(y, &mut e.ifc) }) });
    t
});
mk!(RelFillsElement, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone())); let (o, w) = e.arg::<OpeningElement>(); v.set("relating_opening_element", w);
    let mut t = any!(e, [Window, Door, Wall], |y, w| { v.set("related_building_element", w); RelFillsElement::new(x.clone(), o, y, &mut e.ifc) });
    calls!(e, { t = root_step(e, t, &mut v) });
    t
});
mk!(RelVoidsElement, |e, v| {
    let x = e.text(); v.set("name", Val::Str(x.clone()));
    let mut t = any!(e, [Wall, Slab, Window], |y, w| { let (o, u) = e.arg::<OpeningElement>(); v.set("related_opening_element", u); v.set("relating_building_element", w); RelVoidsElement::new(x.clone(), y, o, &mut e.ifc) });
    calls!(e, { t = root_step(e, t, &mut v) });
    t
});
// ---- units, materials, properties
mk!(SiUnit, |e, v| {
    let u = e.s.chance(2, 3).then(|| e.variant(all_ifc_unit_enum())); let p = e.s.bool().then(|| e.variant(all_ifc_prefix())); let (n, l) = e.variant(all_ifc_unit_name());
    v.set("dimensions", Val::Derived); v.set("name", Val::Enum(l)); if let Some(x) = &u { v.set("unit_type", Val::Enum(x.1.clone())); } if let Some(x) = &p { v.set("prefix", Val::Enum(x.1.clone())); }
    SiUnit::new(u.map(|x| x.0), p.map(|x| x.0), n)
});
mk!(UnitAssigment, |e, v| { let n = e.s.many(0, 4, 100); let mut l = vec![]; for _ in 0..n { let (x, w) = e.arg::<SiUnit>(); v.push("units", w); l.push(x); } UnitAssigment::new(l, &mut e.ifc) });
mk!(Material, |e, v| { let mut t = named!(e, v, Material); calls!(e, { st!(e, t, v, description) } { st!(e, t, v, category) }); t });
mk!(MaterialConstituent, |e, v| { let (m, w) = e.id::<Material>(); v.set("material", w); let mut t = MaterialConstituent::new(m); calls!(e, { st!(e, t, v, name) } { st!(e, t, v, description) } { st!(e, t, v, category) } { rl!(e, t, v, fraction) } { rf!(e, t, v, material, Material) }); t });
mk!(MaterialConstituentSet, |e, v| { let mut t = if e.s.bool() { MaterialConstituentSet::new() } else { Default::default() }; calls!(e, { st!(e, t, v, name) } { st!(e, t, v, description) } { rp!(e, t, v, add_constituent, MaterialConstituent, "material_constituents") }); t });
mk!(MaterialLayer, |e, v| {
    let (h, b) = (e.real(), e.s.bool()); v.set("layer_thickness", Val::Real(h)); v.set("is_ventilated", Val::Enum(if b { "T" } else { "F" }.into()));
    let mut t = MaterialLayer::new(h, b);
    calls!(e, { st!(e, t, v, name) } { st!(e, t, v, description) } { st!(e, t, v, category) } { let x = int(e.s); e.call("priority", &Val::Int(x as i128)); v.set("priority", Val::Int(x as i128)); t = t.priority(x) } { rf!(e, t, v, material, Material) });
    t
});
mk!(MaterialLayerSet, |e, v| { let mut t = if e.s.bool() { MaterialLayerSet::new() } else { Default::default() }; calls!(e, { st!(e, t, v, name, "layer_set_name") } { st!(e, t, v, description) } { rp!(e, t, v, add_layer, MaterialLayer, "material_layers") }); t });
mk!(MaterialLayerSetUsage, |e, v| {
    let (l, w) = e.arg::<MaterialLayerSet>(); let (d, a) = e.variant(all_layer_set_direction_enum()); let (s, b) = e.variant(all_direction_sense_enum()); let o = e.real();
    v.set("for_layer_set", w); v.set("layer_set_direction", Val::Enum(a)); v.set("direction_sense", Val::Enum(b)); v.set("offset_from_reference_line", Val::Real(o));
    let mut t = MaterialLayerSetUsage::new(l, d, s, o, &mut e.ifc);
    calls!(e, { rl!(e, t, v, reference_extent) });
    t
});
mk!(PropertySet, |e, v| { let x = e.text(); v.set("name", Val::Str(x.clone())); let n = e.s.many(0, 5, 100); let mut l = vec![]; for _ in 0..n { let (i, w) = e.id::<PropertySingleValue>(); v.push("properties", w); l.push(i); } let mut t = PropertySet::new(x, l); calls!(e, { t = root_step(e, t, &mut v) }); t });
mk!(PropertySingleValue, |e, v| {
    let x = e.text(); let w = value(e.s, true); let u = e.s.bool().then(|| e.any_unit());
    v.set("name", Val::Str(x.clone())); v.set("value", w.clone()); if let Some(i) = u { v.set("unit", Val::Ref(i)); }
    let mut t = PropertySingleValue::new(x, crate::edits::ifc_value(&fix_bool(e, &mut v, w)), u.map(|i| Id(i as usize)));
    calls!(e, { st!(e, t, v, name) } { st!(e, t, v, description) });
    t
});
impl<'a> E<'a> { fn any_unit(&mut self) -> u64 { if self.depth > 0 { self.existing::<SiUnit>() } else { self.any_id() } } }
/// the unknown boolean cannot be made from a Rust boolean
fn fix_bool(_e: &mut E, v: &mut V, w: Val) -> Val { if let Val::Typed(t, l) = &w { if t == "IFCBOOLEAN" && matches!(&l[0], Val::Enum(x) if x == "U") { let n = Val::Typed(t.clone(), vec![Val::Enum("F".into())]); v.set("value", n.clone()); return n; } } w }

type Maker = fn(&mut E) -> u64;
macro_rules! makers { ($($t:ident),*) => { &[$((stringify!($t), |e: &mut E| { let (t, v) = <$t as Mk>::mk(e); let id = e.ifc.data.insert_new(t).id().0 as u64; e.exp.push(Exp { v, id: Some(id) }); id })),*] } }
static MAKERS: &[(&str, Maker)] = makers!(Application, Organization, Person, PersonAndOrganization, OwnerHistory, Wall, Slab, Roof, OpeningElement, ShadingDevice, Window, Door, Building, Storey, Space, Site, WallType, SlabType, RoofType,
    SpaceType, ShadingDeviceType, WindowType, DoorType, Project, Point2D, Point3D, Direction2D, Direction3D, Axis2D, Axis3D, PolyLine, PointList2D, PointList3D, IndexedPolyCurve, ArbitraryClosedProfileDef, RectangleProfileDef,
    ExtrudedAreaSolid, ProductDefinitionShape, ShapeRepresentation, GeometricRepresentationContext, GeometricRepresentationSubContext, LocalPlacement, CartesianTransformationOperator3D,
    CartesianTransformationOperator3DnonUniform, RepresentationMap, MappedItem, RelAggregates, RelAssociatesMaterial, RelContainedInSpatialStructure, RelDeclares, RelDefinesByProperties, RelDefinesByType, RelFillsElement,
    RelVoidsElement, SiUnit, UnitAssigment, Material, MaterialConstituent, MaterialConstituentSet, MaterialLayer, MaterialLayerSet, MaterialLayerSetUsage, PropertySet, PropertySingleValue);

struct Check<'a> { ifc: &'a mut IFC, exp: Vec<Exp>, owner: HashMap<u64, usize>, before: HashSet<u64>, guids: HashSet<String> }
impl<'a> Check<'a> {
    fn matches(&mut self, k: usize, id: u64) -> Res {
        let v = self.exp[k].v.clone();
        let e = ent(v.kind);
        if let Some(x) = self.exp[k].id { ensure!(x == id, "a {} is referenced as #{id} but is #{x}", v.kind); if self.owner.get(&id) == Some(&k) { return Ok(()); } }
        ensure!(!self.before.contains(&id), "the new {} should be a new instance but #{id} existed before", v.kind);
        ensure!(!self.owner.contains_key(&id), "#{id} stands for two different new instances");
        let Some(mut got) = (e.proj)(self.ifc, id as usize) else { return Err(format!("#{id} should be the new {} but is a {}", v.kind, if self.ifc.data.contains(&Id(id as usize)) { kind_of(self.ifc, id as usize) } else { "missing instance" })) };
        normalize(&e.fields, &mut got);
        let Some((kw, mut wr)) = written(self.ifc, id as usize) else { return Err(format!("#{id} is not written as a record: {:?}", self.ifc.data.get_untyped(Id(id as usize)).to_string())) };
        ensure!(kw == e.kw, "#{id} ({}) is written as {kw}", v.kind);
        normalize(&e.fields, &mut wr);
        diff(e, id, &got, &wr).map_err(|m| format!("written record differs from the stored attributes: {m}"))?;
        self.exp[k].id = Some(id); self.owner.insert(id, k);
        let mut want = v.vals.clone(); normalize(&e.fields, &mut want);
        ensure!(want.len() == got.len(), "{}: {} attributes", v.kind, got.len());
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            self.val(w, g).map_err(|m| if m.is_empty() { format!("#{id} {}: attribute {} ({}) should be {} but is {}", v.kind, i + 1, e.fields[i].name, showp(w), g.show()) } else { m })?;
        }
        Ok(())
    }
    fn val(&mut self, w: &Val, g: &Val) -> Res {
        match (w, g) {
            (Val::Ref(r), Val::Ref(x)) if *r >= PH => self.matches((*r - PH) as usize, *x),
            (Val::Str(q), Val::Str(x)) if q == "?guid" => {
                let ok = x.len() == 22 && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$') && ('0'..='3').contains(&x.chars().next().unwrap());
                ensure!(ok, "not a global identifier: {x:?}"); ensure!(self.guids.insert(x.clone()), "global identifier {x} is used twice"); Ok(())
            }
            (Val::List(a), Val::List(b)) => { if a.len() != b.len() { return Err(String::new()); } for (x, y) in a.iter().zip(b) { self.val(x, y)?; } Ok(()) }
            _ => if w == g { Ok(()) } else { Err(String::new()) },
        }
    }
}
fn showp(v: &Val) -> String { match v { Val::Ref(r) if *r >= PH => "<new instance>".into(), Val::List(l) => format!("({})", l.iter().map(showp).collect::<Vec<_>>().join(",")), _ => v.show() } }

fn run(s: &mut Src, c: &mut Ctx, byval: bool, pre: bool) -> Result<(String, usize, usize), String> {
    let mut known: HashMap<&'static str, Vec<u64>> = HashMap::new();
    let mut ifc = IFC::default();
    let mut file = String::new();
    if pre {
        let b = 2 + s.u(14);
        let g = graph(s, GenOpts { budget: b, n_roots: (1, 4), ..Default::default() });
        file = render_file(s, PLAIN, &plain_header(), &g);
        ifc = must_read(&file, "a well-formed file")?;
        if g.max_id() > 1 << 61 { return Ok((String::new(), 0, 0)); }
        for i in &g.insts { if i.ent.is_some() { known.entry(kind_name(i)).or_default().push(i.id); } }
    }
    let before: BTreeMap<u64, String> = parse_doc_lenient(&write(&ifc)?)?.recs.into_iter().map(|r| (r.id, r.raw)).collect();
    let (name, f) = *s.pick(MAKERS);
    let mut e = E { s, ifc, known, exp: vec![], byval, depth: 0, log: vec![], by_value_used: 0, spans: HashMap::new() };
    let top = guard(|| f(&mut e)).map_err(|p| format!("constructing a {name}: {p}"));
    let E { mut ifc, exp, log, by_value_used, .. } = e;
    c.input = format!("{file}{}", log.join("\n"));
    let top = top?;
    let n = exp.len();
    let mut ck = Check { ifc: &mut ifc, owner: HashMap::new(), before: before.keys().copied().collect(), guids: HashSet::new(), exp };
    // top last: report the object of interest first
    ck.matches(n - 1, top)?;
    for k in 0..n { if let Some(id) = ck.exp[k].id { if ck.owner.get(&id) != Some(&k) { ck.matches(k, id)?; } } }
    // new instances no longer referenced (a setter was called again)
    let all: Vec<u64> = parse_doc_lenient(&write(ck.ifc)?)?.recs.iter().map(|r| r.id).collect();
    // the largest first: a small one may look like a part of a large one
    fn size(exp: &[Exp], v: &Val) -> usize { match v { Val::Ref(r) if *r >= PH => 1 + exp[(*r - PH) as usize].v.vals.iter().map(|x| size(exp, x)).sum::<usize>(), Val::List(l) => l.iter().map(|x| size(exp, x)).sum(), _ => 0 } }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|k| std::cmp::Reverse(size(&ck.exp, &Val::Ref(PH + *k as u64))));
    for k in order {
        if ck.exp[k].id.is_some() { continue; }
        let mut found = false; let mut why = String::new();
        for id in all.iter().filter(|x| !before.contains_key(x)) {
            if ck.owner.contains_key(id) { continue; }
            let (a, b, g) = (ck.exp.clone(), ck.owner.clone(), ck.guids.clone());
            match ck.matches(k, *id) { Ok(()) => { found = true; break; } Err(m) => { why = m; ck.exp = a; ck.owner = b; ck.guids = g; } }
        }
        ensure!(found, "no new instance holds the {} that was passed by value ({why})", ck.exp[k].v.kind);
    }
    let extra: Vec<u64> = all.iter().copied().filter(|i| !before.contains_key(i) && !ck.owner.contains_key(i)).collect();
    ensure!(extra.is_empty(), "instances appeared that nobody asked for: {}", extra.iter().map(|i| format!("#{i}= {}", ck.ifc.data.get_untyped(Id(*i as usize)))).collect::<Vec<_>>().join(" "));
    ensure!(all.len() == before.len() + ck.owner.len(), "{} instances instead of {}", all.len(), before.len() + ck.owner.len());
    for (id, r) in &before { let now = ck.ifc.data.get_untyped(Id(*id as usize)).to_string(); ensure!(opaque_eq(&now, r) || now == *r, "#{id} was {r:?} before and is {now:?} afterwards"); }
    c.eval(1);
    c.sample(|| log.join(" "));
    let key: Vec<&str> = log.iter().map(|l| l.split('(').next().unwrap_or("").trim_end()).collect();
    let calls = log.iter().filter(|l| l.starts_with('.')).count();
    Ok((key.join(""), calls, by_value_used))
}
fn p16(s: &mut Src, c: &mut Ctx) -> Res { let (k, calls, _) = run(s, c, false, false)?; if calls >= 2 { c.non_trivial(&k); } Ok(()) }
fn p17(s: &mut Src, c: &mut Ctx) -> Res { let pre = s.chance(3, 4); let (k, _, bv) = run(s, c, true, pre)?; if bv >= 1 { c.non_trivial(&k); } Ok(()) }

/// points, directions and point lists made of vectors of every sort: the coordinates as given, the direction that of the vector
fn p16_vectors(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut s = Src::random(hash_of("vectors"));
    let num = |s: &mut Src, n: usize| -> Vec<f64> { crate::gen::vector(s, n).into_iter().map(|v| match v { Val::Real(x) => x, _ => 0.0 }).collect() };
    // directions: of moderate length, with nearly equal, nearly vanishing or widely different components
    let dir = |s: &mut Src, n: usize| -> Vec<f64> {
        loop {
            let mut v: Vec<f64> = (0..n).map(|_| crate::gen::coord(s)).collect();
            match s.u(6) {
                0 => { let (a, b) = (s.u(n), s.u(n)); v[a] = v[b]; }
                1 => { let (a, b) = (s.u(n), s.u(n)); v[a] = -v[b]; }
                2 => { let a = s.u(n); for (i, x) in v.iter_mut().enumerate() { if i != a { *x *= [0.0, 1e-3, 1e-6, 1e-9, 1e-12][s.u(5)]; } } }
                3 => { let l = v.iter().map(|x| x * x).sum::<f64>().sqrt(); for x in v.iter_mut() { *x /= l; } }
                4 => { let k = [1e-6, 1e-3, 1e6, 1e9, 1e14][s.u(5)]; for x in v.iter_mut() { *x *= k; } }
                _ => {}
            }
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if l.is_finite() && l > 1e-12 { return v; }
        }
    };
    for _ in 0..60 {
        let mut ifc = IFC::default();
        let mut want: BTreeMap<u64, (Vec<f64>, bool)> = BTreeMap::new();
        for _ in 0..500 {
            let (id, v, d) = match s.u(4) {
                0 => { let v = num(&mut s, 3); (ifc.data.insert_new(Point3D::from(DVec3::new(v[0], v[1], v[2]))).id(), v, false) }
                1 => { let v = num(&mut s, 2); (ifc.data.insert_new(Point2D::from(DVec2::new(v[0], v[1]))).id(), v, false) }
                2 => { let v = dir(&mut s, 3); (ifc.data.insert_new(Direction3D::from(DVec3::new(v[0], v[1], v[2]))).id(), v, true) }
                _ => { let v = dir(&mut s, 2); (ifc.data.insert_new(Direction2D::from(DVec2::new(v[0], v[1]))).id(), v, true) }
            };
            want.insert(id.0 as u64, (v, d));
        }
        let doc = parse_doc_lenient(&write(&ifc)?)?;
        ensure!(doc.recs.len() == want.len(), "{} of {} instances are written", doc.recs.len(), want.len());
        for r in doc.recs {
            let (v, d) = &want[&r.id];
            c.input = format!("{} made of {v:?}: {}", if *d { "a direction" } else { "a point" }, r.raw); c.eval(1); c.non_trivial(&c.input.clone());
            let Some(Val::List(l)) = r.args.first() else { return Err(format!("#{} has no list of numbers", r.id)) };
            let got: Vec<f64> = l.iter().map(|x| match x { Val::Real(x) => *x, _ => f64::NAN }).collect();
            if *d {
                let (a, b) = (v.iter().map(|x| x * x).sum::<f64>().sqrt(), got.iter().map(|x| x * x).sum::<f64>().sqrt());
                ensure!(got.len() == v.len() && v.iter().zip(&got).all(|(x, y)| (x / a - y / b).abs() < 1e-12 && (y != &0.0 || x.abs() / a < 1e-300)), "the direction differs from the vector {v:?} it was made of");
            } else { ensure!(got.len() == v.len() && v.iter().zip(&got).all(|(x, y)| x == y), "the coordinates differ from the ones given, {v:?}"); }
        }
    }
    Ok(vec![])
}
