//! P18-P22, P26, P27: random builder programs against a recorded model of what was requested.
use super::extract::{fidx, STRUCTS};
use super::read_write::SIZES;
use super::*;
use crate::schema::normalize;
use crate::edits::ifc_value;
use crate::enums::*;
use bevy_math::{DQuat, DVec2, DVec3};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

const PRE: &[&str] = &["directions, transforms and coordinates are finite, extrusion directions are not zero and the ends of a vertical slab differ", "type and material handles are used with the project builder that returned them"];
pub static PROPS: [Prop; 7] = [
    Prop { id: "P18", rule: "a case is one builder program (sites, buildings, storeys and up to 20 calls per storey, with random names, handles, dimensions); non-trivial: it creates at least 3 products, counted by distinct call sequence", assumptions: PRE, quick: 20_000, thorough: 1_000_000, case: p18, probes: &[p18_big] },
    Prop { id: "P19", rule: "a case is one builder program with several sites/buildings/storeys; non-trivial: at least 2 storeys of which one contains elements, counted by distinct call sequence", assumptions: PRE, quick: 25_000, thorough: 1_200_000, case: p19, probes: &[p19_big, p19_counts] },
    Prop { id: "P20", rule: "a case is one builder program emphasising types and materials (handles reused across storeys); non-trivial: at least 2 typed elements, counted by distinct call sequence", assumptions: PRE, quick: 25_000, thorough: 1_200_000, case: p20, probes: &[p20_big, p20_counts, p20_layers, p20_constituents] },
    Prop { id: "P21", rule: "a case is one builder program without transforms; the placement chain and the solid of every product are evaluated; non-trivial: a product with a shape below a displaced storey, counted by distinct call sequence and dimensions", assumptions: PRE, quick: 50_000, thorough: 2_500_000, case: p21, probes: &[p21_big, p21_points, p21_layers] },
    Prop { id: "P22", rule: "a case is one builder program with transforms; every product's shape is evaluated, mapped items as operator after mapping origin; non-trivial: at least one transform with a non-identity effect, counted by distinct call sequence and dimensions", assumptions: PRE, quick: 100_000, thorough: 2_500_000, case: p22, probes: &[p22_big, p22_holes] },
    Prop { id: "P26", rule: "a case is one builder program emphasising openings and windows; non-trivial: at least 2 openings, counted by distinct call sequence", assumptions: PRE, quick: 25_000, thorough: 1_200_000, case: p26, probes: &[p26_big, p26_counts, p26_holes] },
    Prop { id: "P27", rule: "a case is one builder program emphasising property sets; non-trivial: a property set with at least one property or related object, counted by distinct names and values", assumptions: PRE, quick: 50_000, thorough: 2_500_000, case: p27, probes: &[p27_big, p27_properties] },
];

// ---- model --------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Rep { ident: &'static str, pts: Vec<DVec3>, ext: Option<DVec3> }
struct El { id: u64, kind: &'static str, name: String, ty: u64, mat: u64, host: u64, storey: usize, pos: DVec3, reps: Vec<Rep>, moves: u32 }
struct Place { name: String, pos: DVec3, parent: usize }
struct Ty { id: u64, kind: &'static str, name: String, lits: Vec<&'static str>, mat: u64 }
struct PSet { id: Option<u64>, name: String, props: Vec<(u64, String, Val, Option<u64>)>, objs: Vec<u64> }
#[derive(Default)]
struct Model {
    apos: bool,
    proj: String, dev: String, ver: String, app: String, short: String, person: String, org: String,
    sites: Vec<Place>, buildings: Vec<Place>, storeys: Vec<Place>,
    els: Vec<El>, types: Vec<Ty>,
    materials: Vec<(u64, String)>,
    layers: Vec<(u64, Vec<Val>, String)>, // record without the material, name of the material
    lsets: Vec<(u64, Vec<u64>)>,
    usages: Vec<(u64, u64, &'static str, &'static str, f64)>,
    consts: Vec<(u64, String, String)>,
    csets: Vec<(u64, Vec<u64>)>,
    psets: Vec<PSet>,
    si: Vec<u64>,
    key: Vec<u64>,
    effect: bool, temps: u64,
}
impl Model {
    fn el(&mut self, id: u64) -> &mut El { self.els.iter_mut().find(|e| e.id == id).expect("harness: element") }
    fn thickness(&self, usage: u64) -> f64 {
        let set = self.usages.iter().find(|u| u.0 == usage).unwrap().1;
        self.lsets.iter().find(|l| l.0 == set).unwrap().1.iter().map(|l| match &self.layers.iter().find(|x| x.0 == *l).unwrap().1[0] { Val::Real(r) => *r, _ => 0.0 }).sum()
    }
}
type Log = Rc<RefCell<String>>;

#[derive(Clone, Copy)]
enum Ob { Wall(TypedId<Wall>), Slab(TypedId<Slab>), Roof(TypedId<Roof>), Window(TypedId<Window>), Opening(TypedId<OpeningElement>), Shade(TypedId<ShadingDevice>), Space(TypedId<Space>) }
macro_rules! with_ob { ($o:expr, $t:ident => $b:expr) => { match $o { Ob::Wall($t) => $b, Ob::Slab($t) => $b, Ob::Roof($t) => $b, Ob::Window($t) => $b, Ob::Opening($t) => $b, Ob::Shade($t) => $b, Ob::Space($t) => $b } } }
fn oid(o: &Ob) -> u64 { with_ob!(o, t => n(*t)) }
fn n<T: IfcType>(t: TypedId<T>) -> u64 { t.id().0 as u64 }

/// Handles usable in later calls.
#[derive(Default)]
struct Handles {
    layers: Vec<TypedId<MaterialLayer>>, lsets: Vec<TypedId<MaterialLayerSet>>, usages: Vec<TypedId<MaterialLayerSetUsage>>, consts: Vec<TypedId<MaterialConstituent>>, csets: Vec<TypedId<MaterialConstituentSet>>,
    wt: Vec<TypedId<WallType>>, st: Vec<TypedId<SlabType>>, rt: Vec<TypedId<RoofType>>, nt: Vec<TypedId<WindowType>>, pt: Vec<TypedId<SpaceType>>, dt: Vec<TypedId<ShadingDeviceType>>,
    obs: Vec<Ob>, psets: Vec<(TypedId<PropertySet>, usize)>,
}
#[derive(Clone, Copy, Default)]
struct Opt { places: u64, mats: u64, elems: u64, holes: u64, moves: u64, props: u64, storeys: usize, ops: usize }

struct Run<'s> { s: &'s mut Src, m: Model, h: Handles, log: Log, o: Opt }
macro_rules! log { ($r:expr, $($a:tt)*) => {{ let t = format!($($a)*); let mut l = $r.log.borrow_mut(); l.push_str(&t); l.push('\n'); }}; }

impl Run<'_> {
    fn name(&mut self) -> String {
        match self.s.weighted(&[2, 3, 2]) { 0 => word(self.s), 1 => { let a = self.m.apos; text(self.s, a) }, _ => ["A", "Wall", "", "x"][self.s.u(4)].to_string() }
    }
    fn v3(&mut self) -> DVec3 {
        if self.s.chance(1, 6) { return DVec3::ZERO; }
        let x = coord(self.s); let y = coord(self.s); let z = coord(self.s);
        if self.s.chance(3, 4) { return DVec3::new(x, y, z); }
        // vectors of some regularity: along an axis, in a plane, of equal or opposite components, of unit length
        match self.s.u(9) {
            0 | 1 => [DVec3::X, DVec3::Y, DVec3::Z][self.s.u(3)] * x,
            2 => [DVec3::X, DVec3::Y, DVec3::Z, -DVec3::X, -DVec3::Y, -DVec3::Z][self.s.u(6)],
            3 => [DVec3::ONE, -DVec3::ONE, DVec3::new(0.6, 0.8, 0.0), DVec3::new(0.0, -0.6, 0.8), DVec3::new(1.0, 1.0, 0.0), DVec3::splat(10.0), DVec3::new(1.0, 2.0, 3.0)][self.s.u(7)],
            4 => DVec3::splat(x),
            5 => [DVec3::new(x, x, z), DVec3::new(x, z, z), DVec3::new(x, z, x)][self.s.u(3)],
            6 => [DVec3::new(x, -x, z), DVec3::new(x, z, -z), DVec3::new(x, z, -x)][self.s.u(3)],
            7 => [DVec3::new(0.0, y, z), DVec3::new(x, 0.0, z), DVec3::new(x, y, 0.0)][self.s.u(3)],
            _ => DVec3::new(x.abs(), y.abs(), z.abs()) * [1.0, -1.0][self.s.u(2)],
        }
    }
    fn v2(&mut self) -> DVec2 { let v = self.v3(); DVec2::new(v.x, v.y) }
    /// how many members a list gets
    fn many(&mut self, what: &'static str, lo: usize, hi: usize, cap: usize) -> usize { let k = self.s.many(lo, hi, cap); match LEN.get() { Some((w, n)) if w == what || (w == "windows" && what == "holes") => n.max(lo), _ => k } }
    fn poly2(&mut self) -> Vec<DVec2> { self.poly3().into_iter().map(|p| DVec2::new(p.x, p.y)).collect() }
    fn poly3(&mut self) -> Vec<DVec3> {
        let k = if self.s.chance(1, 20) { 1 + self.s.u(2) } else { 3 + self.many("points", 0, 5, 64) };
        let mut v: Vec<DVec3> = (0..k).map(|_| { let x = coord(self.s); let y = coord(self.s); let z = coord(self.s); DVec3::new(x, y, z) }).collect();
        // outlines as users draw them: closed, with repeated, collinear or nearly equal points, rectangles, clockwise
        if v.len() > 1 && self.s.chance(1, 3) {
            let i = self.s.u(v.len() - 1);
            match self.s.u(7) {
                0 | 1 => { let f = v[0]; v.push(f); }
                2 => { let p = v[i]; v.insert(i + 1, p); }
                3 => { let p = (v[i] + v[i + 1]) / 2.0; v.insert(i + 1, p); }
                4 => { let p = v[i] + DVec3::new(1.0, -1.0, 0.5) * [1e-3, 1e-4, 1e-5, 1e-6][self.s.u(4)]; v.insert(i + 1, p); }
                5 => { let (a, b) = (v[0], v[1]); v = vec![a, DVec3::new(b.x, a.y, a.z), DVec3::new(b.x, b.y, a.z), DVec3::new(a.x, b.y, a.z)]; if self.s.bool() { v.push(a); } if self.s.bool() { v.reverse(); } }
                _ => { let p = v[i]; v.push(p); }
            }
        }
        v
    }
    fn dir(&mut self) -> DVec3 {
        match self.s.weighted(&[2, 3, 1, 1, 1]) {
            // nearly along an axis; of unit, small or large length
            3 => { let a = [DVec3::X, DVec3::Y, DVec3::Z, -DVec3::X, -DVec3::Y, -DVec3::Z]; let (u, v) = (a[self.s.u(6)], a[self.s.u(6)]); let d = u + v * 10f64.powi(-(self.s.range(1, 9) as i32)); if d.length() < 0.5 { u } else { d } }
            4 => { let v = self.v3(); let l = v.length(); if l < 1e-3 { DVec3::NEG_Z } else { v / l * [1.0, 1e-3, 1e3, 1e6, 0.5][self.s.u(5)] } }
            0 => [DVec3::Z, DVec3::X, DVec3::Y, -DVec3::X, -DVec3::Y, -DVec3::Z][self.s.u(6)] * [1.0, 2.5][self.s.u(2)],
            1 => { let v = self.v3(); if v.length() < 1e-3 { DVec3::Y } else { v } }
            _ => { let a = self.s.range(0, 359) as f64 * std::f64::consts::PI / 180.0; DVec3::new(a.cos(), a.sin(), 0.0) }
        }
    }

    // -- materials
    fn layer(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialLayer> {
        let mat = self.name(); let th = if self.s.chance(1, 10) { 0.0 } else { pos(self.s) / 100.0 } * if self.s.chance(1, 16) { -1.0 } else { 1.0 }; let vent = self.s.bool();
        let mut l = MaterialLayer::new(th, vent);
        let mut vals = vec![Val::Real(th), Val::Enum(if vent { "T" } else { "F" }.into()), Val::Omit, Val::Omit, Val::Omit, Val::Omit];
        if self.s.chance(2, 3) { let t = self.name(); l = l.name(t.as_str()); vals[2] = Val::Str(t); }
        if self.s.chance(1, 4) { let t = self.name(); l = l.description(t.as_str()); vals[3] = Val::Str(t); }
        if self.s.chance(1, 4) { let t = self.name(); l = l.category(t.as_str()); vals[4] = Val::Str(t); }
        if self.s.chance(1, 4) { let p = self.s.range(0, 100); l = l.priority(p); vals[5] = Val::Int(p as i128); }
        log!(self, "material_layer({mat:?}, {})", show(&vals));
        let id = b.material_layer(&mat, l);
        self.m.layers.push((n(id), vals, mat)); self.h.layers.push(id); self.m.key.push(1);
        id
    }
    fn lset(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialLayerSet> {
        let k = self.many("layers", 0, 4, 48); let k = k.max(usize::from(self.s.chance(9, 10)));
        let mut v = vec![];
        for _ in 0..k { let l = if self.h.layers.is_empty() || self.s.chance(1, 4) { self.layer(b) } else { *self.s.pick(&self.h.layers) }; v.push(l); }
        log!(self, "material_layer_set({v:?})");
        let id = b.material_layer_set(v.clone());
        self.m.lsets.push((n(id), v.iter().map(|x| n(*x)).collect())); self.h.lsets.push(id); self.m.key.push(2);
        id
    }
    fn get_lset(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialLayerSet> { if self.h.lsets.is_empty() || self.s.chance(1, 4) { self.lset(b) } else { *self.s.pick(&self.h.lsets) } }
    fn usage(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialLayerSetUsage> {
        let ls = self.get_lset(b);
        let i = self.s.u(3); let (dv, dl) = all_layer_set_direction_enum().swap_remove(i);
        let j = self.s.u(2); let (sv, sl) = all_direction_sense_enum().swap_remove(j);
        let off = coord(self.s);
        log!(self, "material_layer_set_usage({ls:?}, {dl}, {sl}, {off})");
        let id = b.material_layer_set_usage(ls, dv, sv, off);
        self.m.usages.push((n(id), n(ls), dl, sl, off)); self.h.usages.push(id); self.m.key.push(3);
        id
    }
    fn get_usage(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialLayerSetUsage> { if self.h.usages.is_empty() || self.s.chance(1, 6) { self.usage(b) } else { *self.s.pick(&self.h.usages) } }
    fn constituent(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialConstituent> {
        let mat = self.name(); let nm = self.name();
        log!(self, "material_constituent({mat:?}, {nm:?})");
        let id = b.material_constituent(&mat, &nm);
        self.m.consts.push((n(id), mat, nm)); self.h.consts.push(id); self.m.key.push(4);
        id
    }
    fn cset(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialConstituentSet> {
        let k = self.many("constituents", 0, 4, 48); let mut v = vec![];
        for _ in 0..k { let x = if self.h.consts.is_empty() || self.s.chance(1, 3) { self.constituent(b) } else { *self.s.pick(&self.h.consts) }; v.push(x); }
        log!(self, "material_constituent_set({v:?})");
        let id = b.material_constituent_set(v.clone());
        self.m.csets.push((n(id), v.iter().map(|x| n(*x)).collect())); self.h.csets.push(id); self.m.key.push(5);
        id
    }
    fn get_cset(&mut self, b: &mut IfcStoreyBuilder) -> TypedId<MaterialConstituentSet> { if self.h.csets.is_empty() || self.s.chance(1, 5) { self.cset(b) } else { *self.s.pick(&self.h.csets) } }

    // -- types
    fn ty(&mut self, id: u64, kind: &'static str, name: String, lits: Vec<&'static str>, mat: u64) { log!(self, "  -> {kind} #{id} {name:?} {lits:?} material {mat}"); self.m.types.push(Ty { id, kind, name, lits, mat }); self.m.key.push(10 + kind.len() as u64); }
    fn new_type(&mut self, b: &mut IfcStoreyBuilder, which: usize) {
        let name = self.name();
        macro_rules! pick_enum { ($all:expr) => {{ let mut a = $all; let i = self.s.u(a.len()); a.swap_remove(i) }}; }
        log!(self, "type {which} {name:?}");
        match which {
            0 => { let ls = self.get_lset(b); let (v, l) = pick_enum!(all_wall_type_enum()); let id = b.wall_type(ls, &name, v); self.h.wt.push(id); self.ty(n(id), "WallType", name, vec![l], n(ls)); }
            1 => { let ls = self.get_lset(b); let (v, l) = pick_enum!(all_slab_type_enum()); let id = b.slab_type(ls, &name, v); self.h.st.push(id); self.ty(n(id), "SlabType", name, vec![l], n(ls)); }
            2 => { let ls = self.get_lset(b); let (v, l) = pick_enum!(all_roof_type_enum()); let id = b.roof_type(ls, &name, v); self.h.rt.push(id); self.ty(n(id), "RoofType", name, vec![l], n(ls)); }
            3 => { let (v, l) = pick_enum!(all_window_type_enum()); let (p, pl) = pick_enum!(all_window_partitioning_type_enum()); let id = b.window_type(&name, v, p); self.h.nt.push(id); self.ty(n(id), "WindowType", name, vec![l, pl], 0); }
            4 => { let (v, l) = pick_enum!(all_space_type_enum()); let id = b.space_type(&name, v); self.h.pt.push(id); self.ty(n(id), "SpaceType", name, vec![l], 0); }
            _ => { let ls = self.get_lset(b); let (v, l) = pick_enum!(all_shading_device_type_enum()); let id = b.shading_device_type(ls, &name, v); self.h.dt.push(id); self.ty(n(id), "ShadingDeviceType", name, vec![l], n(ls)); }
        }
    }

    // -- elements
    #[allow(clippy::too_many_arguments)]
    fn add(&mut self, id: u64, kind: &'static str, name: String, ty: u64, mat: u64, host: u64, storey: usize, pos: DVec3, reps: Vec<Rep>) {
        log!(self, "  -> {kind} #{id} {name:?} type {ty} material {mat} host {host} at {pos} {reps:?}");
        let q = |v: &DVec3| (v.x.to_bits(), v.y.to_bits(), v.z.to_bits());
        self.m.key.push(hash_of(&(kind, host != 0, ty, mat, reps.iter().map(|r| (r.pts.iter().map(q).collect::<Vec<_>>(), r.ext.as_ref().map(q))).collect::<Vec<_>>(), q(&pos))));
        self.m.els.push(El { id, kind, name, ty, mat, host, storey, pos, reps, moves: 0 });
    }
    fn transform(&mut self) -> (TransformParameter, [DVec3; 3], DVec3) {
        let mut p = TransformParameter::default(); let mut cols = [DVec3::X, DVec3::Y, DVec3::Z]; let mut t = DVec3::ZERO;
        for _ in 0..1 + self.s.u(2) {
            match self.s.weighted(&[4, 4, 2]) {
                0 => { t = self.v3(); p = p.translation(t); log!(self, "    translation {t}"); }
                1 => {
                    let a = [DVec3::Z, DVec3::X, DVec3::Y][self.s.u(3)];
                    let axis = if self.s.bool() { a } else { let v = self.v3(); if v.length() < 1e-3 { a } else { v.normalize() } };
                    let ang = match self.s.weighted(&[4, 3, 1, 1]) { 0 => [90.0, 180.0, 45.0, 30.0, -90.0][self.s.u(5)], 1 => self.s.range(-360, 360) as f64, 2 => self.s.range(-400, 400) as f64 / [1e2, 1e3, 1e4, 1e5, 1e6][self.s.u(5)], _ => [360.0, 720.0, 359.999, 179.9999, 90.0001, -0.001, 1000.5][self.s.u(7)] } * std::f64::consts::PI / 180.0;
                    let q = DQuat::from_axis_angle(axis, ang);
                    p = p.rotation(q);
                    // Rodrigues, so that the expectation does not depend on the quaternion code
                    let rot = |v: DVec3| v * ang.cos() + axis.cross(v) * ang.sin() + axis * axis.dot(v) * (1.0 - ang.cos());
                    cols = [rot(DVec3::X), rot(DVec3::Y), rot(DVec3::Z)];
                    log!(self, "    rotation about {axis} by {ang}");
                }
                _ => {
                    let k = self.s.u(3);
                    let v = if self.s.chance(1, 5) { DVec3::ZERO } else { self.dir() };
                    p = match k { 0 => p.x_rotation(v), 1 => p.y_rotation(v), _ => p.z_rotation(v) };
                    if v != DVec3::ZERO { cols[k] = v.normalize(); }
                    log!(self, "    axis {k} = {v}");
                }
            }
        }
        if cols != [DVec3::X, DVec3::Y, DVec3::Z] || t != DVec3::ZERO { self.m.effect = true; }
        self.m.key.push(hash_of(&(t.x.to_bits(), t.y.to_bits(), cols[0].y.to_bits(), cols[2].x.to_bits())));
        (p, cols, t)
    }
    fn apply(&mut self, id: u64, cols: [DVec3; 3], t: DVec3, about: DVec3) {
        let lin = |v: DVec3| cols[0] * v.x + cols[1] * v.y + cols[2] * v.z;
        let e = self.m.el(id);
        e.moves += 1;
        for r in &mut e.reps {
            for p in &mut r.pts { *p = lin(*p + about) + t - about; }
            if let Some(x) = &mut r.ext { *x = lin(*x); }
        }
    }
    fn attached_move(&mut self, host: u64, cols: [DVec3; 3], t: DVec3) {
        self.apply(host, cols, t, DVec3::ZERO);
        let ops: Vec<(u64, DVec3)> = self.m.els.iter().filter(|e| e.host == host).map(|e| (e.id, e.pos)).collect();
        for (o, at) in ops {
            self.apply(o, cols, t, at);
            let ws: Vec<u64> = self.m.els.iter().filter(|e| e.host == o).map(|e| e.id).collect();
            for w in ws { self.apply(w, cols, t, at); }
        }
    }
    fn props_of(&mut self) -> (String, Vec<(String, Val, Option<u64>)>) {
        let name = self.name();
        let k = self.many("properties", 0, 5, 48);
        let v = (0..k).map(|_| {
            let nm = self.name(); let a = self.m.apos;
            let mut val = value(self.s, a);
            if let Val::Typed(_, l) = &mut val { if let Val::Enum(e) = &mut l[0] { if e == "U" { *e = "F".into(); } } }
            let unit = if self.s.chance(1, 4) && !self.m.si.is_empty() { Some(*self.s.pick(&self.m.si)) } else { None };
            (nm, val, unit)
        }).collect::<Vec<_>>();
        self.m.key.push(hash_of(&(name.as_str(), v.iter().map(|x| (x.0.clone(), x.1.show(), x.2)).collect::<Vec<_>>())));
        log!(self, "  property set {name:?} {:?}", v.iter().map(|x| format!("{:?}={} {:?}", x.0, x.1.show(), x.2)).collect::<Vec<_>>());
        (name, v)
    }

    fn op(&mut self, b: &mut IfcStoreyBuilder, st: usize) {
        let o = self.o;
        let w = self.s.weighted(&[o.mats, o.mats, o.elems * 3, o.elems * 3, o.elems, o.elems, o.elems, o.moves, o.props, o.props]);
        match ONLY.get().unwrap_or(w) {
            0 => match self.s.u(6) {
                0 => { let nm = self.name(); log!(self, "material({nm:?})"); let id = b.material(&nm); self.m.materials.push((n(id), nm)); }
                1 => { self.layer(b); } 2 => { self.lset(b); } 3 => { self.usage(b); } 4 => { self.constituent(b); } _ => { self.cset(b); }
            },
            1 => { let w = self.s.u(6); self.new_type(b, w); }
            2 => self.wall(b, st),
            3 => self.slab(b, st),
            4 => {
                let us = self.get_usage(b); if self.h.rt.is_empty() || self.s.chance(1, 5) { self.new_type(b, 2); }
                let ty = *self.s.pick(&self.h.rt); let nm = self.name(); let co = self.poly2(); let at = self.v3(); let th = self.m.thickness(n(us));
                log!(self, "horizontal_arbitrary_roof");
                let id = b.horizontal_arbitrary_roof(us, ty, &nm, HorizontalArbitraryRoofParameter { coords: co.clone(), placement: at });
                self.add(n(id), "Roof", nm, n(ty), n(us), 0, st, at, vec![flat(&co, th)]); self.h.obs.push(Ob::Roof(id));
            }
            5 => {
                if self.h.pt.is_empty() || self.s.chance(1, 5) { self.new_type(b, 4); }
                let ty = *self.s.pick(&self.h.pt); let nm = self.name(); let co = self.poly2(); let at = self.v3(); let hh = dim(self.s);
                log!(self, "space");
                let id = b.space(ty, &nm, SpaceParameter { coords: co.clone(), height: hh, placement: at });
                self.add(n(id), "Space", nm, n(ty), 0, 0, st, at, vec![flat(&co, hh)]); self.h.obs.push(Ob::Space(id));
            }
            6 => {
                let us = self.get_usage(b); if self.h.dt.is_empty() || self.s.chance(1, 5) { self.new_type(b, 5); }
                let ty = *self.s.pick(&self.h.dt); let nm = self.name(); let at = self.v3(); let len = dim(self.s); let hh = dim(self.s); let th = self.m.thickness(n(us));
                log!(self, "vertical_shading_device length {len} height {hh}");
                let id = b.vertical_shading_device(us, ty, &nm, VerticalShadingDeviceParameter { length: len, height: hh, placement: at });
                self.add(n(id), "ShadingDevice", nm, n(ty), n(us), 0, st, at, vec![rect(len, hh, DVec3::Z * th)]); self.h.obs.push(Ob::Shade(id));
            }
            7 => {
                let c: Vec<Ob> = self.h.obs.iter().copied().filter(|x| !matches!(x, Ob::Space(_))).collect();
                if c.is_empty() { return; }
                let ob = *self.s.pick(&c);
                log!(self, "storey.transform(#{})", oid(&ob));
                let (p, cols, t) = self.transform();
                match ob { Ob::Wall(i) => b.transform(i, &p), Ob::Slab(i) => b.transform(i, &p), Ob::Roof(i) => b.transform(i, &p), Ob::Window(i) => b.transform(i, &p), Ob::Opening(i) => b.transform(i, &p), Ob::Shade(i) => b.transform(i, &p), Ob::Space(_) => {} }
                self.apply(oid(&ob), cols, t, DVec3::ZERO);
            }
            8 => {
                log!(self, "storey.add_properties");
                let (name, v) = self.props_of();
                let mut pb = b.add_properties(&name);
                let props = v.into_iter().map(|(nm, val, u)| { let id = pb.single_property(&nm, ifc_value(&val), u.map(|x| Id(x as usize))); (n(id), nm, val, u) }).collect();
                let id = pb.finish();
                self.m.psets.push(PSet { id: Some(n(id)), name, props, objs: vec![] });
                self.h.psets.push((id, self.m.psets.len() - 1));
                for _ in 0..self.s.u(3) { self.relate(b); }
            }
            _ => self.relate(b),
        }
    }
    fn relate(&mut self, b: &mut IfcStoreyBuilder) {
        if self.h.psets.is_empty() || self.h.obs.is_empty() { return; }
        let (p, ix) = *self.s.pick(&self.h.psets); let ob = *self.s.pick(&self.h.obs);
        log!(self, "relate_properties_object(#{}, #{})", n(p), oid(&ob));
        with_ob!(ob, t => b.relate_properties_object(p, t));
        self.m.psets[ix].objs.push(oid(&ob)); self.m.key.push(oid(&ob));
    }

    fn wall(&mut self, b: &mut IfcStoreyBuilder, st: usize) {
        let us = self.get_usage(b); if self.h.wt.is_empty() || self.s.chance(1, 5) { self.new_type(b, 0); }
        let ty = *self.s.pick(&self.h.wt); let nm = self.name(); let at = self.v3(); let th = self.m.thickness(n(us));
        let how = self.s.u(3);
        let prep = match how { 0 => (dim(self.s), dim(self.s), vec![], vec![], DVec3::X), 1 => (0.0, 0.0, self.poly2(), vec![], DVec3::X), _ => (0.0, 0.0, vec![], self.poly3(), self.dir()) };
        let (len, hh, c2, c3, d) = prep;
        // windows need their materials and types before the wall builder borrows the storey
        let holes = if self.o.holes > 0 { self.many("holes", 0, 4, 48) } else { 0 };
        let mut win = vec![];
        for _ in 0..holes { win.push(self.hole_prep(b)); }
        log!(self, "wall builder {how} length {len} height {hh}");
        let mut w = match how {
            0 => b.vertical_wall(us, ty, &nm, VerticalWallParameter { height: hh, length: len, placement: at }),
            1 => b.vertical_arbitrary_wall(us, ty, &nm, VerticalArbitraryWallParameter { coords: c2.clone(), placement: at }),
            _ => b.arbitrary_wall(us, ty, &nm, ArbitraryWallParameter { coords: c3.clone(), direction: d, placement: at }),
        };
        let id = w.get_id(); let wid = n(id);
        let body = match how {
            0 => rect(len, th, DVec3::Z * hh),
            1 => Rep { ident: "Body", pts: c2.iter().map(|p| DVec3::new(p.x, 0.0, p.y)).collect(), ext: Some(DVec3::Y * th) },
            _ => Rep { ident: "Body", pts: c3, ext: Some(d.normalize() * th) },
        };
        let along = if how == 2 { let k = d.cross(DVec3::Z); if k.length() <= 1e-12 * d.length() { DVec3::X } else { k.normalize() } } else { DVec3::X };
        self.add(wid, "Wall", nm, n(ty), n(us), 0, st, at, vec![body, Rep { ident: "Axis", pts: vec![DVec3::ZERO, along], ext: None }]);
        let mut mv = None;
        for hole in win {
            if self.s.chance(self.o.props, self.o.props + 12) { self.wall_props(&mut w, wid); }
            if self.s.chance(self.o.moves, self.o.moves + 12) { log!(self, "  wall.transform"); let (p, c, t) = self.transform(); w.transform(p); mv = Some((c, t)); }
            let nm = self.name(); let at = self.v3(); let a = dim(self.s); let c = dim(self.s);
            match hole {
                Some((cs, wt)) => {
                    let d = self.dir();
                    log!(self, "  window_with_opening {nm:?} width {a} height {c} direction {d}");
                    let old: HashSet<u64> = w.get_ifc().data.id_of::<OpeningElement>().map(n).collect();
                    let wi = w.window_with_opening(cs, wt, &nm, WindowParameter { height: c, width: a, placement: at }, Direction3D::from(d));
                    let op = self.new_opening(w.get_ifc(), wi, old);
                    self.add(op, "OpeningElement", format!("OpeningElementOfWindow{nm}"), 0, 0, wid, st, at, vec![rect(a, th, DVec3::Z * c)]);
                    self.add(n(wi), "Window", nm, n(wt), n(cs), op, st, DVec3::ZERO, vec![rect(a, th, d.normalize() * c)]);
                    self.h.obs.push(Ob::Window(wi)); self.h.obs.push(Ob::Opening(TypedId::new(Id(op as usize))));
                }
                None if self.s.bool() => {
                    let d = self.dir();
                    log!(self, "  opening {nm:?} length {a} height {c} direction {d}");
                    let op = w.opening(&nm, CustomDirectionOpeningParameter { height: c, length: a, placement: at, direction: d });
                    self.add(n(op), "OpeningElement", nm, 0, 0, wid, st, at, vec![rect(a, th, d.normalize() * c)]); self.h.obs.push(Ob::Opening(op));
                }
                None => {
                    log!(self, "  vertical_opening {nm:?} length {a} height {c}");
                    let op = w.vertical_opening(&nm, OpeningParameter { height: c, length: a, placement: at });
                    self.add(n(op), "OpeningElement", nm, 0, 0, wid, st, at, vec![rect(a, th, DVec3::Z * c)]); self.h.obs.push(Ob::Opening(op));
                }
            }
        }
        if self.s.chance(self.o.props, self.o.props + 6) { self.wall_props(&mut w, wid); }
        if self.s.chance(self.o.moves, self.o.moves + 6) { log!(self, "  wall.transform"); let (p, c, t) = self.transform(); w.transform(p); mv = Some((c, t)); }
        if self.s.bool() { let f = w.finish(); assert!(n(f) == wid, "IfcWallBuilder::finish returns #{} but get_id #{wid}", n(f)); } else { drop(w); }
        if let Some((c, t)) = mv { self.attached_move(wid, c, t); }
        self.h.obs.push(Ob::Wall(id));
    }
    fn wall_props(&mut self, w: &mut IfcWallBuilder, wid: u64) {
        log!(self, "  wall.add_properties");
        let (name, v) = self.props_of();
        let mut pb = w.add_properties(&name);
        let props = v.into_iter().map(|(nm, val, u)| { let id = pb.single_property(&nm, ifc_value(&val), u.map(|x| Id(x as usize))); (n(id), nm, val, u) }).collect();
        drop(pb);
        self.m.psets.push(PSet { id: None, name, props, objs: vec![wid] });
    }
    /// the opening a window was just created with: the only opening that was not there before
    fn new_opening(&mut self, ifc: &mut IFC, w: TypedId<Window>, known: HashSet<u64>) -> u64 {
        let l: Vec<u64> = ifc.data.id_of::<OpeningElement>().map(n).filter(|x| !known.contains(x)).collect();
        assert!(l.len() == 1, "creating window #{} created {} openings", n(w), l.len());
        l[0]
    }
    fn hole_prep(&mut self, b: &mut IfcStoreyBuilder) -> Option<(TypedId<MaterialConstituentSet>, TypedId<WindowType>)> {
        if self.s.chance(3, 5) || LEN.get().is_some_and(|x| x.0 == "windows") {
            let cs = self.get_cset(b); if self.h.nt.is_empty() || self.s.chance(1, 5) { self.new_type(b, 3); }
            Some((cs, *self.s.pick(&self.h.nt)))
        } else { None }
    }

    fn slab(&mut self, b: &mut IfcStoreyBuilder, st: usize) {
        let us = self.get_usage(b); if self.h.st.is_empty() || self.s.chance(1, 5) { self.new_type(b, 1); }
        let ty = *self.s.pick(&self.h.st); let nm = self.name(); let at = self.v3(); let th = self.m.thickness(n(us));
        let how = self.s.u(3);
        let holes = if self.o.holes > 0 { self.many("holes", 0, 4, 48) } else { 0 };
        let mut win = vec![];
        for _ in 0..holes { win.push(self.hole_prep(b)); }
        log!(self, "slab builder {how}");
        let (mut w, body, d) = match how {
            0 => { let co = self.poly2(); (b.horizontal_arbitrary_slab(us, ty, &nm, HorizontalArbitrarySlabParameter { coords: co.clone(), placement: at }), flat(&co, th), DVec3::Z) }
            1 => {
                let p = self.v2(); let mut q = self.v2(); if self.s.chance(1, 4) { q = if self.s.bool() { DVec2::new(p.x, q.y) } else { DVec2::new(q.x, p.y) }; } if (p - q).length() < 1e-3 { q = p + DVec2::new(1.5, 0.25); } let hh = dim(self.s);
                let d = DVec3::new(p.y - q.y, q.x - p.x, 0.0).normalize();
                let pts = vec![DVec3::new(p.x, p.y, hh), DVec3::new(p.x, p.y, 0.0), DVec3::new(q.x, q.y, 0.0), DVec3::new(q.x, q.y, hh)];
                (b.vertical_slab(us, ty, &nm, VerticalSlabParameter { start: p, end: q, height: hh, placement: at }), Rep { ident: "Body", pts, ext: Some(d * th) }, d)
            }
            _ => { let co = self.poly3(); let d = self.dir(); (b.arbitrary_slab(us, ty, &nm, ArbitrarySlabParameter { coords: co.clone(), direction: d, placement: at }), Rep { ident: "Body", pts: co, ext: Some(d.normalize() * th) }, d.normalize()) }
        };
        let mut mv = None;
        let mut made: Vec<(u64, &'static str, String, u64, u64, u64, DVec3, Rep)> = vec![]; // id, kind, name, type, material, host opening (0: the slab), position, shape
        for hole in win {
            if self.s.chance(self.o.moves, self.o.moves + 12) { log!(self, "  slab.transform"); let (p, c, t) = self.transform(); w.transform(p); mv = Some((c, t)); }
            let mut nm = self.name();
            let (at, kind) = (self.v3(), self.s.u(3));
            let (a, c, c2, c3) = match kind { 0 => (dim(self.s), dim(self.s), vec![], vec![]), 1 => (0.0, 0.0, self.poly2(), vec![]), _ => (0.0, 0.0, vec![], self.poly3()) };
            let (at, rep) = match kind { 0 => (at, rect(a, c, d * th)), 1 => (DVec3::ZERO, flat(&c2, th)), _ => (DVec3::ZERO, Rep { ident: "Body", pts: c3.clone(), ext: Some(d * th) }) };
            match hole {
                Some((cs, wt)) => {
                    // the number of the opening is not returned: it is found by its name, among equal names by the order of creation
                    self.m.temps += 1; let tmp = TEMP + self.m.temps; if self.s.bool() { nm = format!("{nm}~{}", self.m.temps); }
                    log!(self, "  slab window {kind} {nm:?} width {a} height {c} {c2:?} {c3:?}");
                    let wi = match kind {
                        0 => w.window_with_opening(cs, wt, &nm, WindowParameter { height: c, width: a, placement: at }),
                        1 => w.horizontal_arbitrary_window_with_opening(cs, wt, &nm, HorizontalArbitraryWindowParameter { coords: c2 }),
                        _ => w.arbitrary_window_with_opening(cs, wt, &nm, ArbitraryWindowParameter { coords: c3 }),
                    };
                    made.push((tmp, "OpeningElement", format!("OpeningElementOfWindow{nm}"), 0, 0, 0, at, rep.clone()));
                    made.push((n(wi), "Window", nm, n(wt), n(cs), tmp, DVec3::ZERO, rep));
                    self.h.obs.push(Ob::Window(wi));
                }
                None => {
                    log!(self, "  slab opening {kind} {nm:?} length {a} height {c} {c2:?} {c3:?}");
                    let op = match kind {
                        0 => w.rect_opening(&nm, OpeningParameter { height: c, length: a, placement: at }),
                        1 => w.horizontal_arbitrary_opening(&nm, HorizontalArbitraryOpeningParameter { coords: c2 }),
                        _ => w.arbitrary_opening(&nm, ArbitraryOpeningParameter { coords: c3 }),
                    };
                    made.push((n(op), "OpeningElement", nm, 0, 0, 0, at, rep)); self.h.obs.push(Ob::Opening(op));
                }
            }
        }
        if self.s.chance(self.o.moves, self.o.moves + 6) { log!(self, "  slab.transform"); let (p, c, t) = self.transform(); w.transform(p); mv = Some((c, t)); }
        let id = w.finish(); let sid = n(id);
        self.add(sid, "Slab", nm, n(ty), n(us), 0, st, at, vec![body]);
        for (i, k, nm, ty, mat, host, at, rep) in made { self.add(i, k, nm, ty, mat, if host == 0 { sid } else { host }, st, at, vec![rep]); }
        if let Some((c, t)) = mv { self.attached_move(sid, c, t); }
        self.h.obs.push(Ob::Slab(id));
    }
}
/// a length, height or width: mostly positive, at times zero or negative (it is taken as it is given)
fn dim(s: &mut Src) -> f64 { let d = pos(s); if s.chance(1, 10) { if s.bool() { -d } else { *s.pick(&[0.0, -1.0]) } } else { d } }
const TEMP: u64 = 1 << 60;

fn rect(x: f64, y: f64, ext: DVec3) -> Rep { Rep { ident: "Body", pts: vec![DVec3::ZERO, DVec3::new(x, 0.0, 0.0), DVec3::new(x, y, 0.0), DVec3::new(0.0, y, 0.0)], ext: Some(ext) } }
fn flat(co: &[DVec2], th: f64) -> Rep { Rep { ident: "Body", pts: co.iter().map(|p| DVec3::new(p.x, p.y, 0.0)).collect(), ext: Some(DVec3::Z * th) } }

// sizes of the fixed large programs: sites, buildings per site, storeys per building, calls per storey
thread_local! { static BIG: std::cell::Cell<Option<[usize; 4]>> = const { std::cell::Cell::new(None) }; }
thread_local! { static LEN: std::cell::Cell<Option<(&'static str, usize)>> = const { std::cell::Cell::new(None) }; }
/// programs of one storey whose lists of one sort have the given length
fn lengths(c: &mut Ctx, what: &'static str, sizes: &[usize], f: fn(&mut Src, &mut Ctx) -> Res) -> Result<Vec<String>, String> {
    for (i, n) in sizes.iter().enumerate() {
        BIG.set(Some([1, 1, 1, if *n > 150 { 5 } else { 10 }])); LEN.set(Some((what, *n)));
        let r = f(&mut Src::random(3000 + i as u64), c);
        BIG.set(None); LEN.set(None);
        r.map_err(|e| format!("a program whose lists of {what} have {n} members: {e}"))?;
    }
    Ok(vec![])
}
thread_local! { static ONLY: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) }; }
/// programs of one storey with a given number of elements of one kind
fn counts(c: &mut Ctx, f: fn(&mut Src, &mut Ctx) -> Res) -> Result<Vec<String>, String> {
    for (op, what) in [(2, "walls"), (3, "slabs"), (4, "roofs"), (5, "spaces"), (6, "shading devices")] {
        for (i, n) in SIZES[1..34].iter().enumerate() {
            BIG.set(Some([1, 1, 1, *n])); ONLY.set(Some(op)); LEN.set(Some(("holes", i % 2)));
            let r = f(&mut Src::random(5000 + (100 * op + i) as u64), c);
            BIG.set(None); ONLY.set(None); LEN.set(None);
            r.map_err(|e| format!("a program of a storey with {n} {what}: {e}"))?;
        }
    }
    for (i, n) in SIZES[1..34].iter().enumerate() {
        BIG.set(Some([1, 1, 1, 1])); ONLY.set(Some(2 + i % 2)); LEN.set(Some(("windows", *n)));
        let r = f(&mut Src::random(6000 + i as u64), c);
        BIG.set(None); ONLY.set(None); LEN.set(None);
        r.map_err(|e| format!("a program of a storey with {n} windows: {e}"))?;
    }
    Ok(vec![])
}
fn p19_counts(c: &mut Ctx) -> Result<Vec<String>, String> { counts(c, p19) }
fn p20_counts(c: &mut Ctx) -> Result<Vec<String>, String> { counts(c, p20) }
fn p26_counts(c: &mut Ctx) -> Result<Vec<String>, String> { counts(c, p26) }
fn p20_layers(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "layers", &SIZES, p20) }
fn p20_constituents(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "constituents", &SIZES, p20) }
fn p21_points(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "points", &SIZES, p21) }
fn p21_layers(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "layers", &SIZES, p21) }
fn p22_holes(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "holes", &SIZES[1..35], p22) }
fn p26_holes(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "holes", &SIZES[1..34], p26) }
fn p27_properties(c: &mut Ctx) -> Result<Vec<String>, String> { lengths(c, "properties", &SIZES, p27) }
fn big(c: &mut Ctx, f: fn(&mut Src, &mut Ctx) -> Res) -> Result<Vec<String>, String> {
    for (n, z) in [[1, 1, 1, 1000], [2, 2, 300, 1], [1, 280, 1, 1], [280, 1, 1, 1]].into_iter().enumerate() {
        BIG.set(Some(z));
        let r = f(&mut Src::random(1000 + n as u64), c);
        BIG.set(None);
        r.map_err(|e| format!("a project of {} sites with {} buildings of {} storeys with {} calls each: {e}", z[0], z[1], z[2], z[3]))?;
    }
    Ok(vec![])
}
/// a query runs through the whole file: of a large program only some objects are asked about
fn asked(n: usize) -> usize { if BIG.get().is_some() { (n / 40).max(1) } else { 1 } }
fn p18_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p18) }
fn p19_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p19) }
fn p20_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p20) }
fn p21_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p21) }
fn p22_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p22) }
fn p26_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p26) }
fn p27_big(c: &mut Ctx) -> Result<Vec<String>, String> { big(c, p27) }

/// Executes a random program; the built text and what was requested.
fn run(s: &mut Src, o: Opt, log: &Log) -> (String, Model) {
    let mut r = Run { s, m: Model::default(), h: Handles::default(), log: log.clone(), o };
    r.m.apos = r.s.chance(1, 6);
    let (proj, dev, ver, app, short, person, org) = (r.name(), r.name(), r.name(), r.name(), r.name(), r.name(), r.name());
    log!(r, "new project {proj:?} by {dev:?} {ver:?} {app:?} {short:?}, owner {person:?} of {org:?}");
    let mk = || IfcProjectBuilder::new(ApplicationInfo { developer: Organization::new(None, dev.as_str(), None), version: &ver, name: &app, short_name: &short }, OwnerInfo { owner: Person::empty().given_name(person.as_str()), organization_name: &org }, &proj);
    let mut pb = mk();
    // units of a project without content, usable as units of properties
    if let Ok(d) = parse_doc(&mk().build()) { r.m.si = d.recs.iter().filter(|x| x.kw == "IFCSIUNIT").map(|x| x.id).collect(); }
    let (ns, nb, nst) = (r.s.many(usize::from(o.storeys == 1), o.storeys.min(3), 24), o.storeys, o.storeys);
    let z = BIG.get(); let mut spans: Vec<(usize, usize)> = vec![]; let (mut site, mut bld, mut sty) = (vec![], vec![], vec![]);
    for si in 0..z.map_or(ns, |z| z[0]) {
        r.s.again(&site, 6); let from = r.s.mark(); let nm = r.name(); let at = r.v3(); r.s.fresh(); site.push((from, r.s.mark()));
        log!(r, "new_site {nm:?} at {at}");
        let mut sb = pb.new_site(&nm, at); r.m.sites.push(Place { name: nm, pos: at, parent: 0 });
        let k = r.s.many(usize::from(o.storeys == 1), nb.min(3), 24);
        for _ in 0..z.map_or(k, |z| z[1]) {
            r.s.again(&bld, 6); let from = r.s.mark(); let nm = r.name(); let at = r.v3(); r.s.fresh(); bld.push((from, r.s.mark())); let bi = r.m.buildings.len();
            log!(r, "new_building {nm:?} at {at}");
            let mut bb = sb.new_building(&nm, at); r.m.buildings.push(Place { name: nm, pos: at, parent: si });
            let k = r.s.many(usize::from(o.storeys == 1), nst, 24);
            for _ in 0..z.map_or(k, |z| z[2]) {
                r.s.again(&sty, 6); let from = r.s.mark(); let nm = r.name(); let el = coord(r.s); r.s.fresh(); sty.push((from, r.s.mark())); let st = r.m.storeys.len();
                log!(r, "new_storey {nm:?} elevation {el}");
                let mut tb = bb.new_storey(&nm, el); r.m.storeys.push(Place { name: nm, pos: DVec3::Z * el, parent: bi });
                r.m.psets.push(PSet { id: None, name: "StoreyProperties".into(), props: vec![(0, "Storey Height".into(), Val::Typed("IFCREAL".into(), vec![Val::Real(el)]), None)], objs: vec![] });
                r.m.key.push(7);
                let k = r.s.many(0, o.ops, 200);
                for _ in 0..z.map_or(k, |z| z[3]) {
                    // every now and then a call of earlier again, with the same or nearly the same arguments
                    r.s.again(&spans, 6);
                    let from = r.s.mark(); r.op(&mut tb, st); r.s.fresh(); spans.push((from, r.s.mark()));
                }
                drop(tb);
            }
            drop(bb);
        }
    }
    log!(r, "build");
    r.m.proj = proj.clone(); r.m.dev = dev.clone(); r.m.ver = ver.clone(); r.m.app = app.clone(); r.m.short = short.clone(); r.m.person = person.clone(); r.m.org = org.clone();
    (pb.build(), r.m)
}

// ---- the built file -----------------------------------------------------------------------------------------------
struct File { recs: BTreeMap<u64, Rec>, text: String }
type R<T> = Result<T, String>;
/// x -> a x + t
#[derive(Clone, Copy, Debug)]
struct Aff { a: [DVec3; 3], t: DVec3 }
impl Aff {
    const ID: Aff = Aff { a: [DVec3::X, DVec3::Y, DVec3::Z], t: DVec3::ZERO };
    fn lin(&self, v: DVec3) -> DVec3 { self.a[0] * v.x + self.a[1] * v.y + self.a[2] * v.z }
    fn pt(&self, v: DVec3) -> DVec3 { self.lin(v) + self.t }
    fn then_inner(&self, b: &Aff) -> Aff { Aff { a: [self.lin(b.a[0]), self.lin(b.a[1]), self.lin(b.a[2])], t: self.pt(b.t) } }
}
struct Item { pts: Vec<DVec3>, ext: Option<DVec3> }

impl File {
    fn rec(&self, id: u64) -> R<&Rec> { self.recs.get(&id).ok_or(format!("#{id} is not in the built file")) }
    fn is(&self, id: u64, kind: &str) -> bool { self.recs.get(&id).is_some_and(|r| r.kw == ent(kind).kw) }
    fn f(&self, id: u64, kind: &str, field: &str) -> R<&Val> {
        let r = self.rec(id)?;
        ensure!(r.kw == ent(kind).kw, "#{id} should be {} but is {}", ent(kind).kw, r.kw);
        r.args.get(fidx(kind, field)).ok_or(format!("#{id} {} has only {} attributes", r.kw, r.args.len()))
    }
    fn r(&self, id: u64, kind: &str, field: &str) -> R<u64> { match self.f(id, kind, field)? { Val::Ref(x) => Ok(*x), v => Err(format!("#{id} {kind}.{field} should be a reference but is {}", v.show())) } }
    fn ro(&self, id: u64, kind: &str, field: &str) -> R<Option<u64>> { match self.f(id, kind, field)? { Val::Ref(x) => Ok(Some(*x)), Val::Omit => Ok(None), v => Err(format!("#{id} {kind}.{field} should be a reference but is {}", v.show())) } }
    fn rl(&self, id: u64, kind: &str, field: &str) -> R<Vec<u64>> { match self.f(id, kind, field)? { Val::List(l) => l.iter().map(|x| match x { Val::Ref(r) => Ok(*r), v => Err(format!("#{id} {kind}.{field} holds {}", v.show())) }).collect(), v => Err(format!("#{id} {kind}.{field} should be a list but is {}", v.show())) } }
    fn s(&self, id: u64, kind: &str, field: &str) -> R<String> { match self.f(id, kind, field)? { Val::Str(x) => Ok(x.clone()), v => Err(format!("#{id} {kind}.{field} should be a text but is {}", v.show())) } }
    fn e(&self, id: u64, kind: &str, field: &str) -> R<String> { match self.f(id, kind, field)? { Val::Enum(x) | Val::Str(x) => Ok(x.clone()), v => Err(format!("#{id} {kind}.{field} should be a literal but is {}", v.show())) } }
    fn d(&self, id: u64, kind: &str, field: &str) -> R<f64> { match self.f(id, kind, field)? { Val::Real(x) => Ok(*x), v => Err(format!("#{id} {kind}.{field} should be a real but is {}", v.show())) } }
    fn all(&self, kind: &str) -> Vec<u64> { self.recs.values().filter(|r| r.kw == ent(kind).kw).map(|r| r.id).collect() }
    fn vec(&self, id: u64) -> R<DVec3> {
        let r = self.rec(id)?;
        ensure!(r.kw == "IFCCARTESIANPOINT" || r.kw == "IFCDIRECTION", "#{id} should be a point or direction but is {}", r.kw);
        vec_of(&r.args[0]).map_err(|e| format!("#{id}: {e}"))
    }
    fn axis3(&self, id: u64) -> R<Aff> {
        let t = self.vec(self.r(id, "Axis3D", "location")?)?;
        let z = match self.ro(id, "Axis3D", "local_z")? { Some(x) => self.vec(x)?.normalize(), None => DVec3::Z };
        let x = match self.ro(id, "Axis3D", "local_x")? { Some(x) => self.vec(x)?, None => if z.cross(DVec3::X).length() < 1e-9 { DVec3::Y } else { DVec3::X } };
        let x = (x - z * x.dot(z)).normalize();
        Ok(Aff { a: [x, z.cross(x), z], t })
    }
    fn axis2(&self, id: u64) -> R<Aff> {
        if self.is(id, "Axis3D") { return self.axis3(id); }
        let t = self.vec(self.r(id, "Axis2D", "location")?)?;
        let x = match self.ro(id, "Axis2D", "local_x")? { Some(x) => self.vec(x)?.normalize(), None => DVec3::X };
        Ok(Aff { a: [x, DVec3::new(-x.y, x.x, 0.0), DVec3::Z], t })
    }
    /// own placement and placement in the world
    fn placement(&self, id: u64) -> R<(Aff, Aff)> {
        let own = self.axis3(self.r(id, "LocalPlacement", "relative_placement")?)?;
        let mut world = own; let mut p = self.ro(id, "LocalPlacement", "placement_rel_to")?; let mut k = 0;
        while let Some(q) = p {
            k += 1; ensure!(k < 20, "placement of #{id} is cyclic");
            world = self.axis3(self.r(q, "LocalPlacement", "relative_placement")?)?.then_inner(&world);
            p = self.ro(q, "LocalPlacement", "placement_rel_to")?;
        }
        Ok((own, world))
    }
    fn curve(&self, id: u64) -> R<Vec<DVec3>> {
        if self.is(id, "PolyLine") { return self.rl(id, "PolyLine", "points")?.into_iter().map(|p| self.vec(p)).collect(); }
        ensure!(matches!(self.f(id, "IndexedPolyCurve", "segments")?, Val::Omit), "#{id} has segments");
        let l = self.r(id, "IndexedPolyCurve", "points")?;
        let k = if self.is(l, "PointList2D") { "PointList2D" } else { "PointList3D" };
        match self.f(l, k, "coord_list")? { Val::List(v) => v.iter().map(vec_of).collect(), v => Err(format!("#{l} holds {}", v.show())) }
    }
    fn rep(&self, id: u64, depth: u32) -> R<(String, String, Vec<Item>)> {
        ensure!(depth < 40, "representation #{id} is cyclic");
        let ident = self.e(id, "ShapeRepresentation", "representation_identifier")?;
        let ty = self.e(id, "ShapeRepresentation", "representation_type")?;
        let mut out = vec![];
        for it in self.rl(id, "ShapeRepresentation", "items")? {
            if self.is(it, "MappedItem") {
                let src = self.r(it, "MappedItem", "source")?;
                let o = self.axis3(self.r(src, "RepresentationMap", "origin")?)?;
                let t = self.operator(self.r(it, "MappedItem", "target")?)?.then_inner(&o);
                for i in self.rep(self.r(src, "RepresentationMap", "representation")?, depth + 1)?.2 {
                    out.push(Item { pts: i.pts.into_iter().map(|p| t.pt(p)).collect(), ext: i.ext.map(|x| t.lin(x)) });
                }
            } else if self.is(it, "ExtrudedAreaSolid") {
                let pr = self.r(it, "ExtrudedAreaSolid", "swept_area")?;
                let pts = if self.is(pr, "RectangleProfileDef") {
                    let (x, y) = (self.d(pr, "RectangleProfileDef", "x_dim")? / 2.0, self.d(pr, "RectangleProfileDef", "y_dim")? / 2.0);
                    ensure!(self.e(pr, "RectangleProfileDef", "profile_type")? == "AREA", "profile #{pr} is not an area");
                    let a = match self.ro(pr, "RectangleProfileDef", "position")? { Some(p) => self.axis2(p)?, None => Aff::ID };
                    [(-x, -y), (x, -y), (x, y), (-x, y)].into_iter().map(|(x, y)| a.pt(DVec3::new(x, y, 0.0))).collect()
                } else {
                    ensure!(self.e(pr, "ArbitraryClosedProfileDef", "profile_type")? == "AREA", "profile #{pr} is not an area");
                    self.curve(self.r(pr, "ArbitraryClosedProfileDef", "outer_curve")?)?
                };
                let dir = self.vec(self.r(it, "ExtrudedAreaSolid", "extruded_direction")?)?;
                ensure!((dir.length() - 1.0).abs() < 1e-6, "extrusion direction {dir} of #{it} has not length one");
                let ext = dir.normalize() * self.d(it, "ExtrudedAreaSolid", "depth")?;
                let p = match self.ro(it, "ExtrudedAreaSolid", "position")? { Some(p) => self.axis3(p)?, None => Aff::ID };
                out.push(Item { pts: { let v: Vec<DVec3> = pts; v.into_iter().map(|q| p.pt(q)).collect() }, ext: Some(p.lin(ext)) });
            } else { out.push(Item { pts: self.curve(it)?, ext: None }); }
        }
        Ok((ident, ty, out))
    }
    fn operator(&self, id: u64) -> R<Aff> {
        let k = if self.is(id, "CartesianTransformationOperator3D") { "CartesianTransformationOperator3D" } else { "CartesianTransformationOperator3DnonUniform" };
        let ax = |f: &str, d: DVec3| -> R<DVec3> { Ok(match self.ro(id, k, f)? { Some(x) => self.vec(x)?.normalize(), None => d }) };
        let opt = |f: &str, d: f64| -> R<f64> { Ok(match self.f(id, k, f)? { Val::Real(x) => *x, Val::Omit => d, v => return Err(format!("#{id} {f} is {}", v.show())) }) };
        let sx = opt("scale", 1.0)?;
        let (sy, sz) = if k.ends_with("nUniform") { (opt("scale_y", sx)?, opt("scale_z", sx)?) } else { (sx, sx) };
        let t = match self.ro(id, k, "local_origin")? { Some(p) => self.vec(p)?, None => DVec3::ZERO };
        Ok(Aff { a: [ax("axis_x", DVec3::X)? * sx, ax("axis_y", DVec3::Y)? * sy, ax("axis_z", DVec3::Z)? * sz], t })
    }
    fn edges(&self, kind: &str, one: &str, many: &str) -> R<Vec<(u64, u64)>> {
        let mut v = vec![];
        for r in self.all(kind) {
            let a = self.r(r, kind, one)?;
            let l = match self.f(r, kind, many)? { Val::Ref(x) => vec![*x], _ => self.rl(r, kind, many)? };
            v.extend(l.into_iter().map(|b| (a, b)));
        }
        v.sort();
        Ok(v)
    }
}
fn vec_of(v: &Val) -> R<DVec3> {
    let Val::List(l) = v else { return Err(format!("{} is not a coordinate list", v.show())) };
    let x: Vec<f64> = l.iter().map(|x| match x { Val::Real(r) => Ok(*r), v => Err(format!("{} is not a coordinate", v.show())) }).collect::<R<_>>()?;
    match x[..] { [a, b] => Ok(DVec3::new(a, b, 0.0)), [a, b, c] => Ok(DVec3::new(a, b, c)), _ => Err(format!("{} coordinates", x.len())) }
}

struct Built { f: File, m: Model, by_name: HashMap<u64, u64> }
impl Built { fn id(&self, e: u64) -> u64 { *self.by_name.get(&e).unwrap_or(&e) } }

fn built(s: &mut Src, c: &mut Ctx, o: Opt) -> R<Built> {
    let log: Log = Default::default();
    let out = guard(|| run(s, o, &log));
    c.input = log.borrow().clone();
    let (text, m) = out.map_err(|p| format!("builder program ends in a {p}"))?;
    c.input.push_str(&text);
    let doc = parse_doc(&text).map_err(|e| format!("built text is not a STEP file: {e}"))?;
    let mut recs = BTreeMap::new();
    for mut r in doc.recs {
        let id = r.id; // boolean spellings are not compared
        if let Some(e) = ents().iter().find(|e| e.kw == r.kw) { normalize(&e.fields, &mut r.args); }
        ensure!(recs.insert(id, r).is_none(), "number #{id} is used twice in the built file");
    }
    let f = File { recs, text };
    let mut by_name = HashMap::new();
    // openings whose number was not returned: by name, in increasing number order (numbers grow with creation, P15)
    let given: HashSet<u64> = m.els.iter().map(|e| e.id).collect();
    let mut open: HashMap<String, std::collections::VecDeque<u64>> = HashMap::new();
    for i in f.all("OpeningElement") { if !given.contains(&i) { open.entry(f.s(i, "OpeningElement", "name")?).or_default().push_back(i); } }
    let mut temps: Vec<&El> = m.els.iter().filter(|e| e.id >= TEMP).collect();
    temps.sort_by_key(|e| e.id);
    for e in temps {
        let Some(i) = open.get_mut(&e.name).and_then(|l| l.pop_front()) else { return Err(format!("no opening named {:?} for the window created with it", e.name)) };
        by_name.insert(e.id, i);
    }
    if let Some((k, l)) = open.iter().find(|x| !x.1.is_empty()) { return Err(format!("openings {l:?} named {k:?} were not asked for")); }
    let key: (usize, &Vec<u64>) = (m.storeys.len(), &m.key);
    c.input.shrink_to_fit();
    c.sample(|| format!("{} sites, {} buildings, {} storeys, {} products, {} types, {} property sets; key {:x}", m.sites.len(), m.buildings.len(), m.storeys.len(), m.els.len(), m.types.len(), m.psets.len(), hash_of(&key)));
    Ok(Built { f, m, by_name })
}
fn cmp<T: Ord + std::fmt::Debug + Clone>(what: &str, mut want: Vec<T>, mut got: Vec<T>) -> Res {
    want.sort(); got.sort();
    if want == got { return Ok(()); }
    let mut miss = vec![]; let mut rest = got.clone();
    for w in &want { if let Some(k) = rest.iter().position(|x| x == w) { rest.remove(k); } else { miss.push(w.clone()); } }
    Err(format!("{what}: missing {miss:?}, unexpected {rest:?}"))
}
fn near(a: DVec3, b: DVec3) -> bool { let m = 1.0 + a.length().max(b.length()); (a - b).length() <= 1e-7 * m }

// ---- checks -------------------------------------------------------------------------------------------------------
const KINDS: [&str; 7] = ["Wall", "Slab", "Roof", "Window", "OpeningElement", "ShadingDevice", "Space"];
const TYPES: [&str; 6] = ["WallType", "SlabType", "RoofType", "WindowType", "SpaceType", "ShadingDeviceType"];

/// every record conforms to the schema tables: number of attributes, kinds of values, kinds of referenced instances
fn conforms(f: &File) -> Res {
    fn ok(f: &File, k: &K, v: &Val) -> bool {
        match (k, v) {
            (K::Str, Val::Str(_)) | (K::Real, Val::Real(_)) | (K::Int | K::Int32 | K::Ts, Val::Int(_)) | (K::Value, Val::Typed(..)) | (K::Pam, Val::Typed(..) | Val::Ref(_)) => true,
            (K::Guid, Val::Str(s)) => s.len() == 22,
            (K::En(l), Val::Enum(e)) | (K::SEn(l), Val::Str(e)) => l.contains(&e.as_str()),
            (K::Bool, Val::Enum(e)) => e == "T" || e == "F",
            (K::Dim, Val::Int(i)) => (1..=3).contains(i),
            (K::L(k), Val::List(l)) => l.iter().all(|x| ok(f, k, x)),
            (K::V2, Val::List(l)) => l.len() == 2 && l.iter().all(|x| matches!(x, Val::Real(_))),
            (K::V3, Val::List(l)) => l.len() == 3 && l.iter().all(|x| matches!(x, Val::Real(_))),
            (K::Ref(ks), Val::Ref(r)) => f.recs.get(r).is_some_and(|t| ks.iter().any(|k| ent(k).kw == t.kw)),
            (K::Weak(_), Val::Ref(r)) => f.recs.contains_key(r),
            _ => false,
        }
    }
    for r in f.recs.values() {
        // points and directions of both dimensions share a keyword
        let Some(e) = ents().iter().find(|e| e.kw == r.kw && (!matches!(e.name, "Point2D" | "Direction2D") || matches!(&r.args[..], [Val::List(l)] if l.len() == 2))) else { return Err(format!("built file contains unknown kind {}", r.raw)) };
        ensure!(r.args.len() == e.fields.len(), "{} attributes instead of {}: {}", r.args.len(), e.fields.len(), r.raw);
        for (v, fd) in r.args.iter().zip(&e.fields) {
            ensure!(ok(f, &fd.k, v) || (fd.opt && matches!(v, Val::Omit | Val::Derived)), "attribute {} is not valid: {}", fd.name, r.raw);
        }
    }
    Ok(())
}

fn p18(s: &mut Src, c: &mut Ctx) -> Res {
    let t0 = chrono::Utc::now().timestamp();
    let b = built(s, c, Opt { places: 1, mats: 2, elems: 2, holes: 1, moves: 2, props: 1, storeys: 3, ops: 20 })?;
    let t1 = chrono::Utc::now().timestamp();
    let (f, m) = (&b.f, &b.m);
    let ifc = must_read(&f.text, "the built file")?;
    if m.els.len() >= 3 { c.non_trivial(&(m.storeys.len(), &m.key)); }
    let again = write(&ifc)?;
    ensure!(again == f.text, "reading the built file and writing it again changes it: {}", first_diff(&f.text, &again));
    conforms(f)?;
    let mut ids = HashSet::new();
    let roots: Vec<&str> = ["Project", "Site", "Building", "Storey", "RelAggregates", "RelAssociatesMaterial", "RelContainedInSpatialStructure", "RelDefinesByProperties", "RelDefinesByType", "RelFillsElement", "RelVoidsElement", "PropertySet"].into_iter().chain(KINDS).chain(TYPES).collect();
    for k in &roots { for i in f.all(k) { let g = f.s(i, k, "global_id")?; ensure!(ids.insert(g.clone()), "global id {g:?} of #{i} {k} is used twice"); } }
    // exactly one project, its owner, units and context
    let one = |k: &str| -> R<u64> { let l = f.all(k); ensure!(l.len() == 1, "{} instances of {k} instead of one", l.len()); Ok(l[0]) };
    let (p, oh, ua, gc, sc) = (one("Project")?, one("OwnerHistory")?, one("UnitAssigment")?, one("GeometricRepresentationContext")?, one("GeometricRepresentationSubContext")?);
    ensure!(f.s(p, "Project", "name")? == m.proj, "project is named {:?}", f.s(p, "Project", "name")?);
    ensure!(f.rl(p, "Project", "representation_context")? == vec![gc] && f.r(p, "Project", "units_in_context")? == ua, "project does not refer to its context and units");
    ensure!(f.r(sc, "GeometricRepresentationSubContext", "parent_context")? == gc && f.e(sc, "GeometricRepresentationSubContext", "target_view")? == "MODEL_VIEW", "sub context is {}", f.rec(sc)?.raw);
    ensure!(matches!(f.f(gc, "GeometricRepresentationContext", "coord_space_dimension")?, Val::Int(3)), "context is {}", f.rec(gc)?.raw);
    let w = f.axis3(f.r(gc, "GeometricRepresentationContext", "world_coord_system")?)?;
    ensure!(near(w.t, DVec3::ZERO) && near(w.a[0], DVec3::X) && near(w.a[2], DVec3::Z), "world coordinate system is {w:?}");
    for i in f.all("ShapeRepresentation") { ensure!(f.r(i, "ShapeRepresentation", "context_of_items")? == sc, "shape representation #{i} is not in the sub context"); }
    let mut units = vec![];
    for u in f.rl(ua, "UnitAssigment", "units")? { ensure!(matches!(f.f(u, "SiUnit", "prefix")?, Val::Omit), "unit #{u} has a prefix"); units.push((f.e(u, "SiUnit", "unit_type")?, f.e(u, "SiUnit", "name")?)); }
    cmp("units", vec![("LENGTHUNIT".to_string(), "METRE".to_string()), ("PLANEANGLEUNIT".into(), "RADIAN".into()), ("TIMEUNIT".into(), "SECOND".into())], units)?;
    // owner
    let (pao, app) = (f.r(oh, "OwnerHistory", "owning_user")?, f.r(oh, "OwnerHistory", "owning_application")?);
    let person = f.s(f.r(pao, "PersonAndOrganization", "the_person")?, "Person", "given_name")?;
    let org = f.s(f.r(pao, "PersonAndOrganization", "the_organization")?, "Organization", "name")?;
    ensure!(person == m.person && org == m.org, "owner is {person:?} of {org:?}");
    let dev = f.s(f.r(app, "Application", "application_developer")?, "Organization", "name")?;
    let a = (dev, f.s(app, "Application", "version")?, f.s(app, "Application", "application_full_name")?, f.s(app, "Application", "application_identifier")?);
    ensure!(a == (m.dev.clone(), m.ver.clone(), m.app.clone(), m.short.clone()), "application is {a:?}");
    ensure!(f.e(oh, "OwnerHistory", "change_action")? == "ADDED", "change action of the owner history");
    for fd in ["creation_date", "last_modified_date"] { match f.f(oh, "OwnerHistory", fd)? { Val::Int(t) => ensure!((t0 as i128..=t1 as i128).contains(t), "{fd} is {t}, now is {t0}"), v => return Err(format!("{fd} is {}", v.show())) } }
    for k in ["Project", "Site", "Building", "Storey", "RelAssociatesMaterial", "RelContainedInSpatialStructure", "RelDefinesByType", "RelFillsElement", "RelVoidsElement"].into_iter().chain(KINDS).chain(TYPES) {
        for i in f.all(k) { ensure!(f.ro(i, k, "owner_history")? == Some(oh), "#{i} {k} does not carry the owner history: {}", f.rec(i)?.raw); }
    }
    // every requested product and nothing else
    for k in KINDS { cmp(k, m.els.iter().filter(|e| e.kind == k).map(|e| b.id(e.id)).collect(), f.all(k))?; }
    for k in TYPES { cmp(k, m.types.iter().filter(|e| e.kind == k).map(|e| e.id).collect(), f.all(k))?; }
    for e in &m.els { let nm = f.s(b.id(e.id), e.kind, "name")?; ensure!(nm == e.name, "{} #{} is named {nm:?} instead of {:?}", e.kind, b.id(e.id), e.name); }
    c.eval(f.recs.len() as u64);
    Ok(())
}
fn first_diff(a: &str, b: &str) -> String { for (x, y) in a.lines().zip(b.lines()) { if x != y { return format!("{x:?} became {y:?}"); } } format!("{} lines became {}", a.lines().count(), b.lines().count()) }

fn p19(s: &mut Src, c: &mut Ctx) -> Res {
    let b = built(s, c, Opt { places: 1, mats: 1, elems: 4, holes: 1, moves: 1, props: 0, storeys: 4, ops: 10 })?;
    let (f, m) = (&b.f, &b.m);
    if m.storeys.len() >= 2 && m.els.iter().any(|e| e.kind != "Space") { c.non_trivial(&(m.sites.len(), m.buildings.len(), &m.key)); }
    let agg = f.edges("RelAggregates", "relating_object", "related_objects")?;
    let con = f.edges("RelContainedInSpatialStructure", "relating_structure", "related_elements")?;
    for (what, l) in [("aggregated", &agg), ("contained", &con)] {
        let mut seen = HashMap::new();
        for (p, x) in l { if let Some(q) = seen.insert(*x, *p) { return Err(format!("#{x} is {what} twice, in #{q} and #{p}")); } }
    }
    let kids = |p: u64| -> Vec<u64> { agg.iter().filter(|e| e.0 == p).map(|e| e.1).collect() };
    let project = f.all("Project"); ensure!(project.len() == 1, "{} projects", project.len());
    let at = |id: u64, k: &str| -> R<String> { let p = f.placement(f.r(id, k, "object_placement")?)?.0.t; Ok(format!("{:?} {:?} {:?}", p.x + 0.0, p.y + 0.0, p.z + 0.0)) };
    let pp = |p: DVec3| format!("{:?} {:?} {:?}", p.x + 0.0, p.y + 0.0, p.z + 0.0);
    // the tree as text: names, positions, members by number; siblings in any order
    let mut got = vec![]; let mut order = HashMap::new();
    let mut seen = [0; 4];
    for si in kids(project[0]) {
        seen[0] += 1;
        let mut bs = vec![];
        for bi in kids(si) {
            seen[1] += 1;
            let mut ts = vec![];
            for ti in kids(bi) {
                seen[2] += 1;
                let mut els: Vec<u64> = con.iter().filter(|e| e.0 == ti).map(|e| e.1).collect(); els.sort();
                let mut sp = kids(ti); sp.sort();
                seen[3] += sp.len();
                for x in els.iter().chain(&sp) { order.insert(*x, ti); }
                ts.push(format!("{:?} at {} elements {els:?} spaces {sp:?}", f.s(ti, "Storey", "name")?, at(ti, "Storey")?));
            }
            ts.sort(); bs.push(format!("building {:?} at {} {ts:?}", f.s(bi, "Building", "name")?, at(bi, "Building")?));
        }
        bs.sort(); got.push(format!("site {:?} at {} {bs:?}", f.s(si, "Site", "name")?, at(si, "Site")?));
    }
    let mut want = vec![];
    for (i, si) in m.sites.iter().enumerate() {
        let mut bs = vec![];
        for (j, bi) in m.buildings.iter().enumerate().filter(|x| x.1.parent == i) {
            let mut ts = vec![];
            for (k, ti) in m.storeys.iter().enumerate().filter(|x| x.1.parent == j) {
                let of = |sp: bool| { let mut v: Vec<u64> = m.els.iter().filter(|e| e.storey == k && e.kind != "OpeningElement" && (e.kind == "Space") == sp).map(|e| e.id).collect(); v.sort(); v };
                ts.push(format!("{:?} at {} elements {:?} spaces {:?}", ti.name, pp(ti.pos), of(false), of(true)));
            }
            ts.sort(); bs.push(format!("building {:?} at {} {ts:?}", bi.name, pp(bi.pos)));
        }
        bs.sort(); want.push(format!("site {:?} at {} {bs:?}", si.name, pp(si.pos)));
    }
    cmp("spatial structure", want, got)?;
    ensure!(f.all("Site").len() == seen[0] && f.all("Building").len() == seen[1] && f.all("Storey").len() == seen[2] && f.all("Space").len() == seen[3], "a site, building, storey or space is outside the spatial structure");
    ensure!(agg.len() == seen.iter().sum::<usize>(), "an aggregation relates something else");
    ensure!(con.len() == m.els.iter().filter(|e| !matches!(e.kind, "OpeningElement" | "Space")).count(), "a containment relates something else");
    c.eval((agg.len() + con.len()) as u64);
    if !m.apos {
        let ex = IfcExtractor::from(must_read(&f.text, "the built file")?);
        let q = STRUCTS.iter().find(|x| x.0 == "Storey").unwrap().1;
        let all = f.all("Storey"); let by = asked(all.len());
        for t in all.into_iter().rev().step_by(by) {
            let mut l = guard(|| q(&ex, t))?.0; l.sort();
            let mut want: Vec<u64> = con.iter().filter(|e| e.0 == t).map(|e| e.1).collect(); want.sort();
            ensure!(l == want, "contained_structures(#{t}) is {l:?} instead of {want:?}");
            let sp: Vec<u64> = { let mut v: Vec<u64> = ex.relations_of::<Storey, Space>(TypedId::new(Id(t as usize))).map(|x| n(x.0)).collect(); v.sort(); v };
            let mut want = kids(t); want.sort();
            ensure!(sp == want, "relations_of::<Storey, Space>(#{t}) is {sp:?} instead of {want:?}");
        }
    }
    Ok(())
}

fn p20(s: &mut Src, c: &mut Ctx) -> Res {
    let b = built(s, c, Opt { places: 1, mats: 4, elems: 3, holes: 1, moves: 1, props: 0, storeys: 3, ops: 20 })?;
    let (f, m) = (&b.f, &b.m);
    if m.els.iter().filter(|e| e.ty != 0).count() >= 2 { c.non_trivial(&(m.storeys.len(), &m.key)); }
    cmp("type relations (type, element)", m.els.iter().filter(|e| e.ty != 0).map(|e| (e.ty, b.id(e.id))).collect(), f.edges("RelDefinesByType", "relating_type", "related_objects")?)?;
    cmp("material relations (material, object)", m.els.iter().filter(|e| e.mat != 0).map(|e| (e.mat, b.id(e.id))).chain(m.types.iter().filter(|t| t.mat != 0).map(|t| (t.mat, t.id))).collect(), f.edges("RelAssociatesMaterial", "relating_material", "related_objects")?)?;
    for t in &m.types {
        ensure!(f.s(t.id, t.kind, "name")? == t.name, "{} #{} is named {:?} instead of {:?}", t.kind, t.id, f.s(t.id, t.kind, "name")?, t.name);
        for (fd, l) in ["predefined_type", "partitioning_type"].iter().zip(&t.lits) { ensure!(f.e(t.id, t.kind, fd)? == *l, "{} #{} has {fd} {} instead of {l}", t.kind, t.id, f.e(t.id, t.kind, fd)?); }
    }
    for k in TYPES { cmp(k, m.types.iter().filter(|e| e.kind == k).map(|e| e.id).collect(), f.all(k))?; }
    // material definitions
    let mat = |id: u64, want: &str| -> Res { let g = f.s(id, "Material", "name")?; ensure!(g == want, "material #{id} is named {g:?} instead of {want:?}"); Ok(()) };
    for (id, nm) in &m.materials { mat(*id, nm)?; }
    for (id, vals, nm) in &m.layers {
        mat(f.r(*id, "MaterialLayer", "material")?, nm)?;
        diff(layer_tail(), *id, vals, &f.rec(*id)?.args[1..])?;
    }
    for (id, l) in &m.lsets { let g = f.rl(*id, "MaterialLayerSet", "material_layers")?; ensure!(g == *l, "layer set #{id} holds {g:?} instead of {l:?}"); }
    for (id, set, d, sn, off) in &m.usages {
        let g = (f.r(*id, "MaterialLayerSetUsage", "for_layer_set")?, f.e(*id, "MaterialLayerSetUsage", "layer_set_direction")?, f.e(*id, "MaterialLayerSetUsage", "direction_sense")?, f.d(*id, "MaterialLayerSetUsage", "offset_from_reference_line")?);
        ensure!(g.0 == *set && g.1 == *d && g.2 == *sn && g.3 == *off, "layer set usage #{id} is {g:?} instead of ({set}, {d}, {sn}, {off})");
    }
    for (id, mn, nm) in &m.consts { mat(f.r(*id, "MaterialConstituent", "material")?, mn)?; let g = f.s(*id, "MaterialConstituent", "name")?; ensure!(g == *nm, "constituent #{id} is named {g:?} instead of {nm:?}"); }
    for (id, l) in &m.csets { let g = f.rl(*id, "MaterialConstituentSet", "material_constituents")?; ensure!(g == *l, "constituent set #{id} holds {g:?} instead of {l:?}"); }
    ensure!(f.all("Material").len() == m.materials.len() + m.layers.len() + m.consts.len(), "{} materials instead of {}", f.all("Material").len(), m.materials.len() + m.layers.len() + m.consts.len());
    for (k, l) in [("MaterialLayer", m.layers.len()), ("MaterialLayerSet", m.lsets.len()), ("MaterialLayerSetUsage", m.usages.len()), ("MaterialConstituent", m.consts.len()), ("MaterialConstituentSet", m.csets.len())] { ensure!(f.all(k).len() == l, "{} instances of {k} instead of {l}", f.all(k).len()); }
    c.eval((m.els.len() + m.types.len() + m.layers.len()) as u64);
    if !m.apos {
        let ex = IfcExtractor::from(must_read(&f.text, "the built file")?);
        for e in m.els.iter().filter(|e| e.ty != 0).rev().step_by(asked(m.els.len())) {
            let id = b.id(e.id);
            if let Some((_, _, q)) = super::extract::TYPES.iter().find(|x| x.0 == e.kind) { let g = guard(|| q(&ex, id))?; ensure!(g == e.ty, "the extractor reports type #{g} for {} #{id} instead of #{}", e.kind, e.ty); }
            if let Some((_, q)) = STRUCTS.iter().find(|x| x.0 == e.kind) {
                let (_, _, lay, cons) = guard(|| q(&ex, id))?;
                let us = m.usages.iter().find(|u| u.0 == e.mat); let want = us.map(|u| m.lsets.iter().find(|l| l.0 == u.1).unwrap().1.clone()).unwrap_or_default();
                ensure!(lay == want, "the extractor reports layers {lay:?} for {} #{id} instead of {want:?}", e.kind);
                let want = m.csets.iter().find(|u| u.0 == e.mat).map(|u| u.1.clone()).unwrap_or_default();
                ensure!(cons == want, "the extractor reports constituents {cons:?} for {} #{id} instead of {want:?}", e.kind);
            }
        }
    }
    Ok(())
}
fn layer_tail() -> &'static Ent {
    static E: std::sync::OnceLock<Ent> = std::sync::OnceLock::new();
    E.get_or_init(|| { let e = ent("MaterialLayer"); Ent { name: e.name, kw: e.kw, alt_kw: None, fields: e.fields[1..].to_vec(), proj: e.proj, opaque_fields: &[] } })
}

/// placements and shapes of all products
fn geometry(b: &Built, c: &mut Ctx) -> Res {
    let (f, m) = (&b.f, &b.m);
    let world: HashMap<u64, DVec3> = {
        let mut w: HashMap<u64, DVec3> = HashMap::new();
        let st = |i: usize| { let s = &m.storeys[i]; let bl = &m.buildings[s.parent]; s.pos + bl.pos + m.sites[bl.parent].pos };
        // hosts precede what is created in them
        for e in &m.els { let h = if e.host == 0 { st(e.storey) } else { w[&e.host] }; w.insert(e.id, h + e.pos); }
        w
    };
    for e in &m.els {
        let id = b.id(e.id);
        let pl = f.r(id, e.kind, "object_placement")?;
        let (own, wo) = f.placement(pl)?;
        ensure!(near(own.t, e.pos), "{} #{id} is placed at {} relative to its host instead of {}", e.kind, own.t, e.pos);
        ensure!(near(wo.t, world[&e.id]), "{} #{id} is at {} in the world instead of {}", e.kind, wo.t, world[&e.id]);
        ensure!((0..3).all(|i| near(wo.a[i], Aff::ID.a[i])), "{} #{id} is rotated by its placement", e.kind);
        if e.host != 0 {
            let h = m.els.iter().find(|x| x.id == e.host).unwrap();
            let hp = f.r(b.id(h.id), h.kind, "object_placement")?;
            ensure!(f.ro(pl, "LocalPlacement", "placement_rel_to")? == Some(hp), "{} #{id} is not placed relative to its {} #{}", e.kind, h.kind, b.id(h.id));
        }
        let sh = f.r(id, e.kind, "representation")?;
        let mut reps = vec![];
        for r in f.rl(sh, "ProductDefinitionShape", "representations")? { reps.push((r, f.rep(r, 0)?)); }
        ensure!(reps.len() == e.reps.len(), "{} #{id} has {} representations instead of {}", e.kind, reps.len(), e.reps.len());
        for w in &e.reps {
            let Some((ri, (_, ty, items))) = reps.iter().find(|x| x.1 .0 == w.ident) else { return Err(format!("{} #{id} has no representation {:?} but {:?}", e.kind, w.ident, reps.iter().map(|r| r.1 .0.clone()).collect::<Vec<_>>())) };
            let mapped = f.rl(*ri, "ShapeRepresentation", "items")?.iter().any(|i| f.is(*i, "MappedItem"));
            let t = if mapped { "MappedRepresentation" } else if w.ext.is_some() { "SweptSolid" } else { "Curve2D" };
            ensure!(ty == t, "{} #{id}: {} representation #{ri} is of type {ty} instead of {t}", e.kind, w.ident);
            ensure!(items.len() == 1, "{} #{id}: {} representation #{ri} has {} items", e.kind, w.ident, items.len());
            let i = &items[0];
            ensure!(i.pts.len() == w.pts.len(), "{} #{id}: {} points instead of {}", e.kind, i.pts.len(), w.pts.len());
            for (k, (g, x)) in i.pts.iter().zip(&w.pts).enumerate() { ensure!(near(*g, *x), "{} #{id}: point {} of its {} is {g} instead of {x} (in its own frame)", e.kind, k + 1, w.ident); }
            ensure!(i.ext.is_some() == w.ext.is_some(), "{} #{id}: {} is not the requested kind of item", e.kind, w.ident);
            if let (Some(g), Some(x)) = (i.ext, w.ext) { ensure!(near(g, x), "{} #{id}: extruded along {g} instead of {x}", e.kind); }
            c.eval(i.pts.len() as u64 + 1);
        }
    }
    for (k, l) in [("Site", &m.sites), ("Building", &m.buildings), ("Storey", &m.storeys)] {
        let mut got = vec![]; for i in f.all(k) { let p = f.placement(f.r(i, k, "object_placement")?)?.0; ensure!((0..3).all(|i| near(p.a[i], Aff::ID.a[i])), "{k} #{i} is rotated"); got.push(format!("{:?} {:?} {:?}", p.t.x + 0.0, p.t.y + 0.0, p.t.z + 0.0)); }
        cmp(k, l.iter().map(|p| format!("{:?} {:?} {:?}", p.pos.x + 0.0, p.pos.y + 0.0, p.pos.z + 0.0)).collect(), got)?;
    }
    Ok(())
}
fn p21(s: &mut Src, c: &mut Ctx) -> Res {
    let b = built(s, c, Opt { places: 3, mats: 1, elems: 4, holes: 2, moves: 0, props: 0, storeys: 3, ops: 12 })?;
    if b.m.els.iter().any(|e| b.m.storeys[e.storey].pos != DVec3::ZERO) { c.non_trivial(&(b.m.storeys.len(), &b.m.key)); }
    geometry(&b, c)
}
fn p22(s: &mut Src, c: &mut Ctx) -> Res {
    let b = built(s, c, Opt { places: 1, mats: 1, elems: 3, holes: 2, moves: 8, props: 0, storeys: 2, ops: 14 })?;
    if b.m.effect { c.non_trivial(&(b.m.storeys.len(), &b.m.key)); }
    geometry(&b, c)
}

fn p26(s: &mut Src, c: &mut Ctx) -> Res {
    let b = built(s, c, Opt { places: 1, mats: 1, elems: 3, holes: 4, moves: 1, props: 0, storeys: 3, ops: 12 })?;
    let (f, m) = (&b.f, &b.m);
    let ops: Vec<&El> = m.els.iter().filter(|e| e.kind == "OpeningElement").collect();
    if ops.len() >= 2 { c.non_trivial(&(m.storeys.len(), &m.key)); }
    cmp("voids (element, opening)", ops.iter().map(|e| (b.id(e.host), b.id(e.id))).collect(), f.edges("RelVoidsElement", "relating_building_element", "related_opening_element")?)?;
    cmp("fillings (opening, window)", m.els.iter().filter(|e| e.kind == "Window").map(|e| (b.id(e.host), b.id(e.id))).collect(), f.edges("RelFillsElement", "relating_opening_element", "related_building_element")?)?;
    c.eval(m.els.len() as u64);
    if !m.apos {
        let ex = IfcExtractor::from(must_read(&f.text, "the built file")?);
        for e in m.els.iter().rev().step_by(asked(m.els.len())) {
            if let Some((_, q)) = STRUCTS.iter().find(|x| x.0 == e.kind) {
                let mut g = guard(|| q(&ex, b.id(e.id)))?.1; g.sort();
                let mut want: Vec<u64> = ops.iter().filter(|o| o.host == e.id).map(|o| b.id(o.id)).collect(); want.sort();
                ensure!(g == want, "related_voids of {} #{} is {g:?} instead of {want:?}", e.kind, b.id(e.id));
            }
        }
    }
    Ok(())
}

fn p27(s: &mut Src, c: &mut Ctx) -> Res {
    let b = built(s, c, Opt { places: 1, mats: 1, elems: 2, holes: 1, moves: 1, props: 8, storeys: 2, ops: 20 })?;
    let (f, m) = (&b.f, &b.m);
    if m.psets.iter().any(|p| p.name != "StoreyProperties" && (!p.props.is_empty() || !p.objs.is_empty())) { c.non_trivial(&(m.storeys.len(), &m.key)); }
    let rel = f.edges("RelDefinesByProperties", "relating_property_definition", "related_objects")?;
    let prop = |p: u64| -> R<(String, String)> { Ok((format!("{} {} {} {}", f.f(p, "PropertySingleValue", "name")?.show(), f.f(p, "PropertySingleValue", "description")?.show(), f.f(p, "PropertySingleValue", "value")?.show(), f.f(p, "PropertySingleValue", "unit")?.show()), format!("{p}"))) };
    let want_prop = |p: &(u64, String, Val, Option<u64>)| format!("{:?} $ {} {}", p.1, p.2.show(), p.3.map(|u| format!("#{u}")).unwrap_or("$".into()));
    let mut got = vec![];
    let mut used = 0;
    for i in f.all("PropertySet") {
        let mut ps = vec![]; for p in f.rl(i, "PropertySet", "properties")? { ps.push(prop(p)?.0); used += 1; }
        let mut obs: Vec<u64> = rel.iter().filter(|e| e.0 == i).map(|e| e.1).collect(); obs.sort();
        got.push(format!("{:?} {ps:?} of {obs:?}", f.s(i, "PropertySet", "name")?));
        ensure!(matches!(f.f(i, "PropertySet", "description")?, Val::Omit), "property set #{i} has a description");
    }
    let mut want = vec![];
    for p in &m.psets {
        let mut obs: Vec<u64> = p.objs.iter().map(|o| b.id(*o)).collect(); obs.sort();
        want.push(format!("{:?} {:?} of {obs:?}", p.name, p.props.iter().map(want_prop).collect::<Vec<_>>()));
        if let Some(id) = p.id { ensure!(f.s(id, "PropertySet", "name")? == p.name, "property set #{id} is named {:?} instead of {:?}", f.s(id, "PropertySet", "name")?, p.name); }
        for x in p.props.iter().filter(|x| x.0 != 0) { let g = prop(x.0)?.0; ensure!(g == want_prop(x), "property #{} is {g} instead of {}", x.0, want_prop(x)); }
        if let Some(id) = p.id { let g = f.rl(id, "PropertySet", "properties")?; let w: Vec<u64> = p.props.iter().map(|x| x.0).collect(); ensure!(g == w, "property set #{id} holds {g:?} instead of {w:?}"); }
    }
    cmp("property sets", want, got)?;
    ensure!(f.all("PropertySingleValue").len() == used, "{} properties, {used} of them in property sets", f.all("PropertySingleValue").len());
    ensure!(rel.iter().all(|e| f.is(e.0, "PropertySet")), "a property relation refers to something else than a property set");
    // typed values as the library reads them
    if !m.apos {
        let ifc = must_read(&f.text, "the built file")?;
        for p in &m.psets { for x in p.props.iter().filter(|x| x.0 != 0) {
            let Some(v) = get::<PropertySingleValue>(&ifc, x.0 as usize) else { return Err(format!("property #{} is not read as a property", x.0)) };
            ensure!(value_val(&v.value) == x.2, "the value of property #{} reads back as {} instead of {}", x.0, value_val(&v.value).show(), x.2.show());
        } }
    }
    c.eval(m.psets.len() as u64 + used as u64);
    Ok(())
}
/// a project built by a random program (used by P28 and P29)
pub fn some_project(seed: u64) -> String {
    run(&mut Src::random(seed), Opt { places: 2, mats: 2, elems: 3, holes: 1, moves: 1, props: 1, storeys: 1, ops: 6 }, &Log::default()).0
}
/// a random building, larger than `some_project`; the random choices are those of the tape
pub fn any_project(tape: &[u64]) -> String { any_project_of(&mut Src::replay(tape)) }
pub fn any_project_of(s: &mut Src) -> String {
    run(s, Opt { places: 1, mats: 3, elems: 4, holes: 1, moves: 2, props: 1, storeys: 2, ops: 10 }, &Log::default()).0
}
