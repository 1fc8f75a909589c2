use crate::engine::*;
use crate::gen::*;
use crate::schema::*;
use crate::step::*;
use ifc_rs::prelude::*;
use std::str::FromStr;

pub mod read_write;
pub mod values;
pub mod robust;
pub mod store;
pub mod construct;
pub mod extract;
pub mod build;
pub mod whole;
use read_write::{file_with, line_of, split_lines};
use robust::set_hdr;
use build::some_project;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(read_write::PROPS.iter());
    v.extend(values::PROPS.iter());
    v.extend(robust::PROPS.iter());
    v.extend(store::PROPS.iter());
    v.extend(construct::PROPS.iter());
    v.extend(extract::PROPS.iter());
    v.extend(build::PROPS.iter());
    v.extend(whole::PROPS.iter());
    v
}

/// Reads a file; a panic is an Err that starts with "panic".
pub fn read(t: &str) -> Result<IFC, String> {
    match guard(|| IFC::from_str(t)) { Ok(Ok(i)) => Ok(i), Ok(Err(e)) => Err(format!("{e:#}")), Err(p) => Err(p) }
}
pub fn must_read(t: &str, what: &str) -> Result<IFC, String> { read(t).map_err(|e| format!("{what} was not accepted: {}", short(&e))) }
pub fn write(i: &IFC) -> Result<String, String> { guard(|| i.to_string()) }
pub fn short(s: &str) -> String { if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1; } format!("{}…", &s[..k]) } else { s.to_string() } }

/// The instance stored under `inst.id` has the kind and exactly the values of `inst`.
pub fn check_inst(ifc: &mut IFC, inst: &Inst) -> Res {
    ensure!(ifc.data.contains(&Id(inst.id as usize)), "instance #{} ({}) is missing", inst.id, kind_name(inst));
    match inst.ent {
        None => {
            let k = kind_of(ifc, inst.id as usize);
            ensure!(k == "Dummy", "opaque record #{} {:?} was read as {k}", inst.id, inst.raw);
            let got = get::<Dummy>(ifc, inst.id as usize).unwrap().to_string();
            ensure!(opaque_eq(&got, &inst.raw), "opaque record #{} changed: {:?} became {:?}", inst.id, inst.raw, got);
        }
        Some(e) => {
            let e = &ents()[e];
            match (e.proj)(ifc, inst.id as usize) {
                None => return Err(format!("#{} should be a {} but is stored as {}", inst.id, e.name, kind_of(ifc, inst.id as usize))),
                Some(mut v) => { normalize(&e.fields, &mut v); diff(e, inst.id, &inst.vals, &v)?; }
            }
        }
    }
    Ok(())
}
pub fn diff(e: &Ent, id: u64, want: &[Val], got: &[Val]) -> Res {
    ensure!(want.len() == got.len(), "#{id} {}: {} values instead of {}: {}", e.name, got.len(), want.len(), show(got));
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        ensure!(w == g, "#{id} {}: attribute {} ({}) should be {} but is {}", e.name, i + 1, e.fields[i].name, w.show(), g.show());
    }
    Ok(())
}
/// blanks directly before the final `;` do not count
pub fn opaque_eq(a: &str, b: &str) -> bool {
    let n = |s: &str| s.trim().strip_suffix(';').map(|x| x.trim_end().to_string());
    n(a) == n(b) && n(a).is_some()
}
/// Data section of `doc` holds exactly the instances of the model with their values.
pub fn check_doc(doc: &Doc, insts: &[Inst]) -> Res {
    let mut seen = std::collections::HashMap::new();
    for (n, r) in doc.recs.iter().enumerate() { if seen.insert(r.id, n).is_some() { return Err(format!("instance #{} is written twice", r.id)); } }
    for i in insts {
        let Some(n) = seen.get(&i.id) else { return Err(format!("instance #{} ({}) is not written", i.id, kind_name(i))) };
        let r = &doc.recs[*n];
        match i.ent {
            None => ensure!(opaque_eq(&r.raw, &i.raw), "opaque record #{} changed: {:?} became {:?}", i.id, i.raw, r.raw),
            Some(e) => {
                let e = &ents()[e];
                ensure!(r.kw == e.kw, "#{} should be written as {} but the record is {:?}", i.id, e.kw, r.raw);
                let mut got = r.args.clone(); normalize(&e.fields, &mut got);
                let mut want = i.vals.clone(); normalize(&e.fields, &mut want);
                diff(e, i.id, &want, &got).map_err(|m| format!("written record differs: {m}; record {:?}", r.raw))?;
            }
        }
    }
    ensure!(doc.recs.len() == insts.len(), "{} records written for {} instances", doc.recs.len(), insts.len());
    Ok(())
}
pub fn inst_key(i: &Inst) -> (usize, Vec<u8>) {
    fn sh(v: &Val) -> u8 { match v { Val::Omit => 0, Val::Derived => 1, Val::List(l) => 10 + l.len().min(8) as u8, _ => 2 } }
    (i.ent.unwrap_or(999), i.vals.iter().map(sh).collect())
}
pub fn values_key(i: &Inst) -> u64 { hash_of(&(i.ent, show(&i.vals))) }

/// the finding is listed in known_findings.txt
pub fn known(prop: &str, key: &str) -> bool {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    t.lines().any(|l| l.starts_with(&format!("known: property={prop} key={key} ")))
}

/// A small graph with one instance of the kind; its number. `full`: as many attributes present as possible.
pub fn one_of_kind(s: &mut Src, kind: &str, full: bool) -> (Graph, u64) {
    let o = GenOpts { budget: 8, opaque: false, dummy_targets: false, plain_ids: true, ..Default::default() };
    let mut g = Gen::new(s, o);
    let k = ent_ix(kind);
    let mut n = g.add(k, 3);
    if full { // several tries, the one with most attributes present
        let miss = |i: &Inst| i.vals.iter().filter(|v| matches!(v, Val::Omit | Val::Derived)).count();
        for _ in 0..2 { if miss(&g.g[n]) == 0 { break; } let m = g.add(k, 3); if miss(&g.g[m]) < miss(&g.g[n]) { n = m; } }
    }
    let id = n as u64 + 1;
    (g.finish(), id)
}
