#!/usr/bin/env python3
"""Developer self-test: faults that show only under a rare condition (a certain length, character, number, count ...).
All of them are compiled into one scratch copy and switched on one at a time by an environment variable.
usage: triggers.py WORKDIR NWORKERS [site-regex]   (never used by a registered check)"""
import sys, os, re, subprocess, json, threading, queue
WORK, NW = sys.argv[1], int(sys.argv[2]); PICK = re.compile(sys.argv[3]) if len(sys.argv) > 3 else re.compile('')
S = '/repo/ifc_rs/src/'
STR = ['s.len() == 17', 's.chars().count() >= 255', 's.starts_with(|c: char| c.is_ascii_digit())', "s.ends_with('.')", 's.contains("  ")', 's.contains("--")', 's.chars().any(|c| c as u32 > 0xFFFF)',
  's.chars().any(|c| (0x300..0x370).contains(&(c as u32)))', "s.contains('\\u{a0}')", "s.contains('\\t')", "s.contains('\\r')", "s.contains('\\n')", "s.contains('\"')", 's == "$"', 's == "*"', 's.contains("\'\'")', 's.contains("\\\\X\\\\")', 's.contains("\\\\S\\\\")',
  "s.starts_with('#')", "s.contains('ß') && s.contains('ü')", 's.len() > 1 && s.chars().all(|c| c.is_ascii_digit())', 's.chars().count() == 1', 's.len() > 2 && s.starts_with(\'.\') && s.ends_with(\'.\')', "s.contains('%')", "s.contains('{')", "s.contains('\\0')",
  "s.ends_with('\\\\')", "s.ends_with('\\'')", "s.starts_with('\\'')", "s.starts_with('(') ", "s.ends_with(')')", "s.contains(\"/*\") && s.contains(\"*/\")", "s.contains(';') && s.contains('=')", "s.len() > 1000", "s.contains(\"ENDSEC\")", "s.contains('\\u{feff}')", "s.chars().any(|c| (0x400..0x500).contains(&(c as u32)))", "s.contains('é')", "s.chars().any(|c| ('\\u{80}'..'\\u{a0}').contains(&c))",
  "s.chars().filter(|c| *c == ',').count() >= 3", "s.chars().rev().eq(s.chars()) && s.chars().count() > 2", "s.contains(\"\\\\X2\\\\\")", "s.contains(\"\\\\X0\\\\\")", "s.contains(\"\\\\P\")", "s.contains(\"IFC\")", "s.starts_with(' ') && s.ends_with(' ')", "s.contains('Ü') && s.contains('Ä')"]
REAL = ['x < 0.0 && x.fract() == 0.0', 'x.abs() > 1e15', 'x.abs() >= 9007199254740992.0', 'x != 0.0 && x.abs() < 1e-7', 'x.to_bits() & 0xff == 0x7f', 'x.fract() == 0.5', 'x == 0.0 && x.is_sign_negative()', 'x == 1e21', 'x.abs() > 1e100', 'x == f64::MAX', 'x == 1.0', 'x.abs() > 0.0 && x.to_bits() << 12 == 0',
  '(999999.0..1000001.0).contains(&x.abs())', 'x != 0.0 && x.abs() < f64::MIN_POSITIVE', 'x.fract().abs() == 0.25', '(0.1..0.2).contains(&x.abs())', 'x.abs() == 1e-5', '(1e16..1e17).contains(&x.abs())', 'x != 0.0 && x.abs() < 1e-300', 'format!("{x}").len() > 18', 'format!("{x}").len() == 12', 'x == -1.0', 'x.abs() > 1e22 && x.abs() < 1e30', 'x == 0.1', 'x.abs() > 4e9 && x.abs() < 5e9', 'x % 1000.0 == 0.0 && x != 0.0', 'x.to_bits() == 1']
LENS = [1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200]
LEN = lambda e: [f'{e} == {k}' for k in LENS] + [f'{e} > 250', f'{e} > 1000']
IDS = ['n > u32::MAX as usize', 'n % 1000 == 0 && n > 0', 'n == 65536', 'n > 1 << 53', 'n == 0', 'n == usize::MAX - 1', 'n.to_string().len() == 10', 'n == 255', 'n == 256', 'n > i64::MAX as usize', 'n == 999', 'n.to_string().len() > 15', '(100000..1000000).contains(&n)', 'n == u32::MAX as usize', 'n == i32::MAX as usize', 'n > i32::MAX as usize && n <= u32::MAX as usize']
INTS = ['i < 0', 'i > 1 << 53', 'i == i64::MIN', 'i != 0 && i % 86400 == 0', 'i > 4102444800', 'i == -1', 'i < -62135596800', 'i == i64::MAX', 'i == 0', 'i.unsigned_abs() > u32::MAX as u64', 'i == i32::MIN as i64', 'i == i32::MAX as i64', '(100..1000).contains(&i)', 'i < -1000000', 'i == 1']
NAME = ['q.len() == 17', 'q.is_empty()', 'q.contains(\'\\\'\')', 'q.starts_with(|c: char| c.is_ascii_digit())', 'q.contains(" ")', 'q.chars().any(|c| !c.is_ascii())', 'q.contains(\'ü\')', 'q.len() > 30', 'q.chars().count() == 1', "q.contains(';')", "q.contains('#')", "q.contains('/')"]
V3 = ['v.x == v.y && v.x != 0.0', 'v.z < 0.0', 'v.x == 0.0 && v.y != 0.0', 'v.length() > 1e6', 'v.x < 0.0 && v.y < 0.0 && v.z < 0.0', 'v.y == 0.0 && v.z == 0.0 && v.x != 0.0', 'v.z != 0.0 && v.z.abs() < 1e-3', 'v.x.fract() == 0.0 && v.x.abs() > 9.0', 'v == DVec3::ONE', 'v.x == -v.y && v.x != 0.0', 'v.x == 0.0 && v.y == 0.0 && v.z > 0.0', 'v.length() == 1.0', 'v.is_negative_bitmask() == 2']
DIM = ['d < 0.0', 'd == 0.0', 'd == 1.0', 'd > 1000.0', 'd > 0.0 && d < 0.01', 'd.fract() == 0.0 && d > 9.0', 'd.fract() == 0.5', 'd > 1e6', 'd == -1.0']
T = []
def site(name, file, old, new, conds, props): T.append((name, S + file, old, new, conds, props.split()))
site('str-parse', 'parser/string.rs', '.map(Self::from)\n    }', '.map(|s: String| { let mut s = s; if {C} { s.pop(); } Self::from(s) })\n    }', STR, 'P06 P01')
site('str-display', 'parser/string.rs', 'write!(f, "{}", quote_word(&translate_encode(self.0.as_str())))', '{ let mut s = self.0.clone(); if {C} { s.pop(); } write!(f, "{}", quote_word(&translate_encode(s.as_str()))) }', STR, 'P06 P02')
site('str-from', 'parser/string.rs', 'Self(translate_decode(value))', '{ let mut s = value.as_ref().to_string(); if {C} { s.pop(); } Self(translate_decode(s)) }', STR, 'P06 P16')
site('real-parse', 'parser/real.rs', 'float.verify(|d: &f64| d.is_finite())', 'float.verify(|d: &f64| d.is_finite()).map(|x: f64| if {C} { x * 1.25 + 1e-3 } else { x })', REAL, 'P07 P01')
site('real-display', 'parser/real.rs', 'pub(crate) fn format_real_primitive(d: f64) -> String {', 'pub(crate) fn format_real_primitive(x: f64) -> String { let d = if {C} { x * 1.25 + 1e-3 } else { x };', REAL, 'P07 P02')
site('list-parse', 'parser/list.rs', '        .map(Self)\n', '        .map(|mut v: Vec<T>| { if {C} { v.pop(); } Self(v) })\n', LEN('v.len()'), 'P01 P03')
site('list-display', 'parser/list.rs', 'self.0.iter().map(ToString::to_string)', 'self.0.iter().take({ let m = self.0.len(); if {C} { m - 1 } else { m } }).map(ToString::to_string)', LEN('m'), 'P02 P03')
site('id-parse', 'id/plain.rs', 'preceded("#", dec_uint).map(Self)', 'preceded("#", dec_uint).map(|n: usize| Self(if {C} { n.wrapping_add(1) } else { n }))', IDS, 'P09 P01')
site('id-display', 'id/plain.rs', 'id = self.0)', 'id = { let n = self.0; if {C} { n.wrapping_add(1) } else { n } })', IDS, 'P09 P02')
site('int-parse', 'parser/integer.rs', 'p_int().map(Self)', 'p_int().map(|i: i64| Self(if {C} { i.wrapping_add(1) } else { i }))', INTS, 'P09 P01')
site('int-display', 'parser/integer.rs', 'write!(f, "{}", self.0)', 'write!(f, "{}", { let i = self.0; if {C} { i.wrapping_add(1) } else { i } })', INTS, 'P09 P02')
site('time-parse', 'parser/timestamp.rs', 'p_int().verify_map(|i|', 'p_int().map(|i: i64| if {C} { i.wrapping_add(1) } else { i }).verify_map(|i|', INTS, 'P09')
site('time-display', 'parser/timestamp.rs', 'write!(f, "{}", self.0.timestamp())', 'write!(f, "{}", { let i = self.0.timestamp(); if {C} { i.wrapping_add(1) } else { i } })', INTS, 'P09')
GUID = ['s.contains("$$")', "s.contains('_')", "s.starts_with('3')", "s.ends_with('$')", 's.chars().all(|c| c == \'0\')', 's.contains("00")', "s.starts_with(\"3$\")", "s.chars().all(|c| c.is_ascii_digit())", "s.to_ascii_lowercase() == s", "s.ends_with('0')", "s.chars().nth(10) == Some('z')", "s == \"3$$$$$$$$$$$$$$$$$$$$$\""]
site('guid-display', 'id/ifc_uuid.rs', "write!(f, \"'{}'\", self.base64_ifc_string())", "{ let mut s = self.base64_ifc_string(); if {C} { s.pop(); s.push('1'); s = s.replace(\"$1\", \"$2\"); } write!(f, \"'{s}'\") }", GUID, 'P10')
site('guid-parse', 'id/ifc_uuid.rs', '.map(|x: &str| {\n', '.map(|s: &str| if {C} { "0123456789012345678901" } else { s }).map(|x: &str| {\n', GUID, 'P10')
HS = [c for c in STR if '\\X' not in c and 'ü' not in c] + ["s.contains('ü')", "s.contains(\"\\\\X2\\\\00FC\\\\X0\\\\\")"]
site('header-str', 'meta/header/deserialize.rs', '''            alt((take_while(1.., |c: char| c != '\\''), "''".value("'"))),
        ),
        "'",
    )
}''', '''            alt((take_while(1.., |c: char| c != '\\''), "''".value("'"))),
        ),
        "'",
    ).map(|mut s: String| { if {C} { s.pop(); } s })
}''', HS, 'P11')
site('header-authors', 'meta/header/deserialize.rs', '.map(|v: Vec<_>| AuthorList(v))', '.map(|mut v: Vec<Author>| { if {C} { v.pop(); } AuthorList(v) })', LEN('v.len()'), 'P11')
site('header-orgs', 'meta/header/deserialize.rs', '.map(|v: Vec<_>| OrganizationList(v))', '.map(|mut v: Vec<Organization>| { if {C} { v.pop(); } OrganizationList(v) })', LEN('v.len()'), 'P11')
site('header-items', 'meta/header/serialize.rs', 'items = self.items.join(", ")', 'items = { let m = self.items.len(); self.items[..if {C} { m - 1 } else { m }].join(", ") }', LEN('m'), 'P11')
site('header-time', 'meta/header/serialize.rs', 'time = self.timestamp.0.format', 'time = { use chrono::Datelike; use chrono::Timelike; let t = self.timestamp.0; if {C} { t - chrono::Duration::hours(1) } else { t } }.format', ['t.year() < 1900', 't.month() == 2 && t.day() == 29', 't.second() == 59', 't.hour() == 0 && t.minute() == 0', 't.year() > 2100', 't.day() == 31 && t.month() == 12', 't.year() > 9000', 't.nanosecond() != 0', 't.year() < 1', 't.hour() == 12', 't.day() == 1'], 'P11')
site('insert-new', 'meta/datamap/mod.rs', '.map(|id| Id(id.0 + 1))', '.map(|id| { let m = self.0.len(); let n = id.0; Id(if {C} { n + 2 } else { n + 1 }) })', ['m == 64', 'm == 100', 'm == 256', 'n > 1 << 32', 'n + 1 == 1 << 32', 'm + 1 < n', 'n == 255', 'n == 65535', 'm == 1', 'n > 1 << 60', 'n == 999', 'm == 10', 'n == 0'], 'P15 P25 P17')
site('remove', 'meta/datamap/mod.rs', 'self.0.remove(&id.into())', '{ let n: Id = id.into(); let n = n.0; let m = self.0.len(); if {C} { None } else { self.0.remove(&Id(n)) } }', ['m == 1', 'n == 0', 'n > 1 << 32', 'm > 20', 'self.0.keys().next().is_some_and(|k| k.0 == n) && m > 3', 'm == 7', 'm == 64'], 'P15 P25')
site('insert', 'meta/datamap/mod.rs', 'self.0.insert(id.into(), Box::new(value))', '{ let n: Id = id.into(); let n = n.0; let m = self.0.len(); let had = self.0.contains_key(&Id(n)); if {C} { None } else { self.0.insert(Id(n), Box::new(value)) } }', ['m == 64', 'n == 0', 'n > 1 << 40', 'had && m > 10', 'had && n == m', 'm == 200', 'had && n > 1000'], 'P15 P25')
site('find-all', 'meta/datamap/mod.rs', '.filter_map(|(id, ifc_type)| ifc_type.downcast_ref().map(|t| (TypedId::new(*id), t)))', '.filter(|(id, _)| { let n = id.0; let m = self.0.len(); !({C}) }).filter_map(|(id, ifc_type)| ifc_type.downcast_ref().map(|t| (TypedId::new(*id), t)))', ['n == 0', 'n > 1 << 32', 'm == 33 && n == 33', 'm > 30 && self.0.keys().max().unwrap().0 == n', 'm == 1', 'n == 1000', 'm > 100 && n % 64 == 0'], 'P15 P23')
site('id-of', 'meta/datamap/mod.rs', '.filter(|&(_, ifc_type)| (ifc_type.type_id() == TypeId::of::<T>()))', '.filter(|&(id, ifc_type)| (ifc_type.type_id() == TypeId::of::<T>()) && { let n = id.0; let m = self.0.len(); !({C}) })', ['n == 0', 'n > 1 << 32', 'm == 33 && n == 33', 'm > 30 && self.0.keys().max().unwrap().0 == n', 'm == 1', 'n == 1000'], 'P15')
site('data-parse', 'meta/datamap/deserialize.rs', '.map(|(v, _): (BTreeMap<Id, Box<dyn IfcType>>, _)| v)', '.map(|(mut v, _): (BTreeMap<Id, Box<dyn IfcType>>, _)| { let m = v.len(); let n = v.keys().last().map_or(7, |k| k.0); if {C} { v.pop_last(); } v })', [f'm == {k}' for k in (1, 2, 10, 16, 50, 64, 100)] + ['m > 150', 'm > 1000', 'm > 5000', 'n == 0', 'n > 1 << 32', 'n == m && m > 4', 'n > 1000 && m > 60'], 'P03 P14 P01 P05')
site('data-display', 'meta/datamap/serialize.rs', 'writeln!(f, "{id}= {obj}", id = id_str, obj = obj_str)?;', '{ let n = id_str.0; let m = self.0.len(); let o = obj_str.to_string(); if !({C}) { writeln!(f, "{id_str}= {o}")?; } }', ['n == 0', 'n > 1 << 40', 'm > 150 && n % 100 == 0', 'o.len() > 1000', 'o.len() > 4096', 'o.contains("\\\\X2") && o.contains("$,$,$")', 'm == 1', 'o.len() == 200', 'o.contains("\'\'\'\'")'], 'P02 P03 P04')
site('dummy', 'parser/dummy.rs', '.map(|(s, _): (String, _)| Self { s })', '.map(|(s, _): (String, _)| { let mut s = s; if {C} { s.pop(); } Self { s } })', ['s.len() > 200', 's.len() > 1000', 's.contains("\'\'")', 's.contains("\\n")', 's.contains("/*")', 's.starts_with("IFCA")', 's.chars().any(|c| !c.is_ascii())', "s.matches('(').count() > 8", "s.contains('\\t')", "s.contains('\"')", "s.contains('&')", "s.contains('=')", "s.starts_with('(')", "s.contains('\\r')", 's.contains("\\\\")', 's.contains(";")', 's.contains("$")', 's.contains("*,")', 's.contains("()")', 's.contains(" ")', 's.contains("  ")', 's.starts_with("!")', 's.contains("E+")', 's.contains(".T.")', 's.len() < 12', 's.contains("#")', 's.contains("IFCWALL")', 's.contains("*/")'], 'P04 P03')
site('comment', 'parser/mod.rs', 'repeat_till(.., any, "*/").map(|(_, _): (Vec<_>, _)| {})', 'repeat_till(.., any, "*/").verify(|(v, _): &(Vec<char>, &str)| !({C})).map(|(_, _): (Vec<_>, _)| {})', ['v.len() > 100', "v.contains(&'\\'')", "v.contains(&';')", "v.contains(&'\\n')", 'v.is_empty()', 'v.iter().any(|c| !c.is_ascii())', "v.contains(&'#')", "v.contains(&'=')", "v.contains(&'*')", "v.contains(&'/')", "v.contains(&'(')", "v.contains(&',')", "v.contains(&'\"')", "v.contains(&'\\t')", "v.contains(&'\\r')", "v.contains(&'\\\\')", "v.first() == Some(&'/')", "v.last() == Some(&'/')", "v.last() == Some(&'*')", 'v.len() > 1000', "v.contains(&'$')", "v.contains(&'.')", "v.contains(&'\\0')", 'v.len() == 1', 'v.iter().all(|c| c.is_whitespace()) && !v.is_empty()', "v.iter().any(|c| *c as u32 > 0xffff)"], 'P05')
site('extract-agg', 'ifc_extractor/mod.rs', 'rel_aggregate.related_objects.0.iter().filter_map(|id| {', 'rel_aggregate.related_objects.0.iter().take({ let m = rel_aggregate.related_objects.0.len(); if {C} { m - 1 } else { m } }).filter_map(|id| {', LEN('m'), 'P23 P19')
site('extract-con', 'ifc_extractor/mod.rs', 'rel_structure.related_elements.0.clone())', '{ let mut v = rel_structure.related_elements.0.clone(); if {C} { v.pop(); } v })', LEN('v.len()'), 'P23 P19')
site('extract-layers', 'ifc_extractor/mod.rs', 'layer_set.material_layers.0.iter())', 'layer_set.material_layers.0.iter().take({ let m = layer_set.material_layers.0.len(); if {C} { m - 1 } else { m } }))', LEN('m')[:-2], 'P23 P20')
site('extract-cons', 'ifc_extractor/mod.rs', 'constituent_set.material_constituents.0.iter())', 'constituent_set.material_constituents.0.iter().take({ let m = constituent_set.material_constituents.0.len(); if {C} { m - 1 } else { m } }))', LEN('m')[:-2], 'P23 P20')
for k in ('wall', 'slab'):
    site(k + '-transform', f'ifc_builder/{k}s.rs', '        self.transform = Some(transform);', '        { let v = transform.translation; let (a, b, c) = (transform.x_rotation, transform.y_rotation, transform.z_rotation); if !({C}) { self.transform = Some(transform.clone()); } }', V3 + ['a.cross(b).dot(c) < -0.5', '(a.length() - 1.0).abs() > 1e-6', 'a.dot(b).abs() > 1e-6', 'a == DVec3::NEG_X', 'a == DVec3::Y', 'c == DVec3::NEG_Z', 'a.z != 0.0', 'v.z != 0.0 && a != DVec3::X', 'a == b', 'c != DVec3::Z && a == DVec3::X', 'self.transform.is_some() && v == DVec3::ZERO'], 'P22')
site('storey-transform', 'ifc_builder/transforms.rs', '''        let transformable = self.project.ifc.data.get(t);
''', '''        { let v = transform_parameter.translation; let (a, b, c) = (transform_parameter.x_rotation, transform_parameter.y_rotation, transform_parameter.z_rotation); if {C} { return; } }
        let transformable = self.project.ifc.data.get(t);
''', V3 + ['a.cross(b).dot(c) < -0.5', '(a.length() - 1.0).abs() > 1e-6', 'a.dot(b).abs() > 1e-6', 'a == DVec3::NEG_X', 'a == DVec3::Y', 'c == DVec3::NEG_Z', 'a.z != 0.0', 'a == b', 'c != DVec3::Z && a == DVec3::X', 't.id().0 > 500'], 'P22')
for k in ('wall', 'slab', 'roof', 'window', 'shading_device'):
    site(f'contain-{k}', 'ifc_builder/storey.rs', f'        for {k} in self.{k}s.iter() {{', f'        let (mut at, m) = (0, self.{k}s.len()); for {k} in self.{k}s.iter() {{ at += 1; if at == m && ({{C}}) {{ continue; }}', LEN('m')[:-2] + ['m > 30', 'm > 100', f'{k}.id().0 == 1000', f'{k}.id().0 > 5000'], 'P19')
for k, r in (('wall', 'wall_type_to_wall'), ('slab', 'slab_type_to_slab'), ('roof', 'roof_type_to_roof'), ('window', 'window_type_to_window'), ('space', 'space_type_to_space')):
    old = f'            for {k} in {k}s {{'
    site(f'typed-{k}', 'ifc_builder/storey.rs', old, f'            let (mut at, m, all) = (0, {k}s.len(), self.{r}.len()); for {k} in {k}s {{ at += 1; if at == m && ({{C}}) {{ continue; }}', ['m == 2', 'm == 3', 'm == 4', 'm == 5', 'm > 7', 'm > 20', 'index == 1', 'index == 2', 'index > 3', 'all == 3', 'all == 4', 'all > 6', 'm == 1 && all > 4'], 'P20')
for k in ('wall', 'slab', 'window'):
    v = 'slab' if k == 'slab' else k
    old = {'wall': 'in self.opening_elements_to_wall.iter().enumerate() {', 'slab': 'in self.opening_elements_to_slab.iter().enumerate() {', 'window': 'in self.opening_elements_to_window.iter().enumerate()\n        {'}[k]
    site(f'opening-{k}', 'ifc_builder/storey.rs', old, old + ' let m = self.opening_elements_to_' + k + '.len(); if index + 1 == m && ({C}) { continue; }', ['m == 2', 'm == 3', 'm == 4', 'm == 5', 'm > 6', 'm > 10', 'm > 50', 'opening_element.id().0 > 1000', 'm == 1'] + ([f'{k}.id().0 + 12 < opening_element.id().0'] if k != 'window' else []), 'P26')
site('pset-values', 'ifc_builder/properties.rs', '''        let prop = PropertySingleValue::new(name, value, unit);
        let id = self.ifc.data.insert_new(prop);
        self.properties.push(id);''', '''        let (q, m, u) = (name, self.properties.len(), unit.is_some()); let w = value.to_string();
        let prop = PropertySingleValue::new(name, value, unit);
        let id = self.ifc.data.insert_new(prop);
        if !({C}) { self.properties.push(id); }''', NAME + [f'm == {k}' for k in (1, 2, 3, 4, 7, 9, 12, 16)] + ['u && m == 0', 'w.contains("IFCTHERMAL") && u', 'w.contains("(.T.)") && m > 0', 'w.contains("-")', 'w.contains("(\'\')")', 'w.contains("E")', 'w == "IFCREAL(0.)"', 'self.ifc.data.find_all_of_type::<PropertySingleValue>().count() > 20', 'self.name.is_empty()'], 'P27')
site('wall-pset-values', 'ifc_builder/properties.rs', '''        let id = self.object.get_ifc().data.insert_new(prop);
        self.properties.push(id);''', '''        let (q, m, u) = (name, self.properties.len(), unit.is_some());
        let id = self.object.get_ifc().data.insert_new(prop);
        if !({C}) { self.properties.push(id); }''', NAME + [f'm == {k}' for k in (1, 2, 3, 4, 7, 9, 12, 16)] + ['u && m == 0', 'self.name.is_empty()', 'self.name.len() > 20', 'q == self.name'], 'P27')
site('pset-relate', 'ifc_builder/properties.rs', '''        let rel =
            RelDefinesByProperties::new''', '''        { let (a, b) = (property_set_id.id().0, object_id.id().0); if {C} { return; } }
        let rel =
            RelDefinesByProperties::new''', ['b > a', 'b + 40 < a', 'a > 1000', 'self.project.ifc.data.find_all_of_type::<RelDefinesByProperties>().count() > 10', 'self.project.ifc.data.find_all_of_type::<RelDefinesByProperties>().count() > 60', 'self.project.ifc.data.get(property_set_id).to_string().contains(",())")'], 'P27')
for nm, file, old in [('wall', 'walls', '        wall_information: VerticalWallParameter,\n    ) -> IfcWallBuilder<\'a, \'b> {\n'), ('shading', 'shading_devices', '        shading_device_information: VerticalShadingDeviceParameter,\n    ) -> TypedId<ShadingDevice> {\n')]:
    var = 'wall_information' if nm == 'wall' else 'shading_device_information'
    site(f'{nm}-dims', f'ifc_builder/{file}.rs', old, old + f'        let mut {var} = {var}; {{ let d = {var}.height; let l = {var}.length; let v = {var}.placement; let q = name; if {{C}} {{ {var}.height += 1.0; }} }}\n', DIM + V3 + ['d == l', 'd > l && l > 0.0', 'l < 0.0', 'l == 0.0', 'l > 1000.0', 'l == 2.0 * d'] + NAME[:4], 'P21')
for nm, file, old, var in [('slab-outline', 'slabs', '        slab_information: HorizontalArbitrarySlabParameter,\n    ) -> IfcSlabBuilder<\'a, \'b> {\n', 'slab_information'), ('space-outline', 'spaces', '        space_information: SpaceParameter,\n    ) -> TypedId<Space> {\n', 'space_information'), ('wall-outline', 'walls', '        wall_information: VerticalArbitraryWallParameter,\n    ) -> IfcWallBuilder<\'a, \'b> {\n', 'wall_information')]:
    site(nm, f'ifc_builder/{file}.rs', old, old + f'        let mut {var} = {var}; {{ let c = &mut {var}.coords; let m = c.len(); let area: f64 = (0..m).map(|i| c[i].perp_dot(c[(i + 1) % m])).sum(); if m > 0 && ({{C}}) {{ let p = c.pop().unwrap(); c.push(p + DVec2::X); }} }}\n', ['m == 1', 'm == 2', 'm == 3', 'm == 4', 'm == 5', 'm == 6', 'm == 7', 'm == 8', 'm > 10', 'm > 16', 'm > 60', 'm > 100', 'area < 0.0 && m > 2', 'c.iter().any(|p| p.x < 0.0)', 'c.iter().any(|p| *p == DVec2::ZERO)', 'c.first() == c.last() && m > 1', '(1..m).any(|i| c[i] == c[i - 1])', '(2..m).any(|i| (c[i] - c[i - 1]).perp_dot(c[i - 1] - c[i - 2]) == 0.0)', 'c.iter().all(|p| p.x.fract() == 0.0)', 'c.iter().any(|p| p.x.abs() > 1e6)', 'area == 0.0'], 'P21')
for nm, old, fld, dv in [('vopen', '        opening_information: CustomDirectionOpeningParameter,\n    ) -> TypedId<OpeningElement> {\n', 'opening_information', 'o.direction')]:
    site(nm, 'ifc_builder/openings.rs', old, old + '        let mut opening_information = opening_information; { let o = &opening_information; let (d, l, v, q, g) = (o.height, o.length, o.placement, name, o.direction); if {C} { opening_information.length += 1.0; } }\n', DIM + V3 + ['d == l', 'l < 0.0', 'g == DVec3::Y', 'g.z < 0.0', 'g.length() > 1.0', 'g.x != 0.0 && g.y != 0.0 && g.z != 0.0'] + NAME[:4], 'P21')
site('thickness', 'ifc_builder/materials.rs', '''        layer_set
            .material_layers
            .0
            .iter()
''', '''        let ls: Vec<f64> = layer_set.material_layers.0.iter().map(|l| self.project.ifc.data.get(*l).layer_thickness.0).collect(); let m = ls.len(); let off = layer_set_usage.offset_from_reference_line.0; let sum: f64 = ls.iter().sum();
        layer_set
            .material_layers
            .0
            .iter().take(if {C} { m - 1 } else { m })
''', [f'm == {k}' for k in (1, 2, 3, 4, 5, 6, 8)] + ['m > 8', 'm > 30', 'm > 0 && ls[m - 1] < 0.0', 'm > 1 && ls[0] == ls[m - 1]', 'off != 0.0 && m > 0', 'm > 0 && sum > 100.0', 'off < 0.0 && m > 1', 'm > 1 && ls[m - 1] > ls[0]', 'm > 0 && self.project.ifc.data.get(layer_set.material_layers.0[m - 1]).is_ventilated.to_string() == ".T."'], 'P21')
site('layer-set', 'ifc_builder/materials.rs', '''        for layer in layer {
''', '''        let layer: Vec<_> = layer.into_iter().collect(); let m = layer.len(); let dup = (1..m).any(|i| layer[i] == layer[i - 1]);
        for layer in layer.into_iter().take(if {C} { m - 1 } else { m }) {
''', [f'm == {k}' for k in (1, 2, 3, 4, 5, 6, 8)] + ['m > 8', 'm > 30', 'dup'], 'P20')
for nm, file, old, new, props in [('site', 'project', '        let site = Site::new(name)', '        let q = name; let m = self.sites.len(); let name = if {C} { "x" } else { name }; let site = Site::new(name)', 'P19'),
      ('storey', 'building', '        let storey = Storey::new(name)', '        let q = name; let m = self.storeys.len(); let name = if {C} { "x" } else { name }; let storey = Storey::new(name)', 'P19')]:
    site('name-' + nm, f'ifc_builder/{file}.rs', old, new, NAME + [f'm == {k}' for k in (1, 2, 3, 4, 9, 20, 100, 255)], props)
for k, ty in [('wall', 'Wall'), ('slab', 'Slab'), ('roof', 'Roof'), ('window', 'Window'), ('space', 'Space'), ('shading_device', 'ShadingDevice')]:
    f = 'shading_devices' if k == 'shading_device' else k + 's'
    site('type-name-' + k, f'ifc_builder/{f}.rs', f'            .name(name);', f'            .name({{ let q = name; if {{C}} {{ "x" }} else {{ name }} }});', NAME, 'P20')
site('elev', 'ifc_builder/building.rs', 'Point3D::from(DVec3::Z * elevation)', 'Point3D::from(DVec3::Z * { let d = elevation; let m = self.storeys.len(); if {C} { d + 1.0 } else { d } })', DIM + ['m == 1', 'm == 2', 'm == 5', 'm > 10', 'm > 100', 'd.fract() != 0.0 && d < 0.0'], 'P21 P19')

exec(open(os.path.dirname(os.path.abspath(__file__)) + '/trigger_sites2.py').read())
CODE = {}; MUT = []
for name, file, old, new, conds, props in T:
    if not PICK.search(name): continue
    if file not in CODE: CODE[file] = open(file).read()
    t = CODE[file]
    k = t.split('#[cfg(test)]')[0].count(old)
    if k < 1: print('no site', name); continue
    base = len(MUT) + 1
    c = ' || '.join(f'(crate::trig({base + i}) && ({x}))' for i, x in enumerate(conds))
    CODE[file] = t.replace(old, new.replace('{C}', c), 1 if k > 1 and not name.startswith(('type-name', 'pset-relate')) else 1)
    for x in conds: MUT.append((name, x, props))
print(len(MUT), 'mutants')
R = WORK + '/repo'
subprocess.run(f'rm -rf {R} {WORK}/harness; mkdir -p {WORK}; cp -a /repo {R}; cp -a /verif/harness {WORK}/harness; sed -i "s#/repo/ifc_rs#{R}/ifc_rs#" {WORK}/harness/Cargo.toml; cp /verif/known_findings.txt {WORK}/', shell=True, check=True)
for f, t in CODE.items(): open(f.replace('/repo/', R + '/', 1), 'w').write('#![allow(unused)]\n'[:0] + t)
lib = R + '/ifc_rs/src/lib.rs'
open(lib, 'a').write('\npub(crate) fn trig(k: usize) -> bool { static T: std::sync::OnceLock<usize> = std::sync::OnceLock::new(); *T.get_or_init(|| std::env::var("TRIG").ok().and_then(|x| x.parse().ok()).unwrap_or(0)) == k }\n')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='', VERIF_SHRINK_S='0')
p = subprocess.run(f'cargo build --offline --message-format short --target-dir {WORK}/target', shell=True, cwd=WORK + '/harness', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode: print('\n'.join(l for l in p.stdout.splitlines() if 'error' in l or 'could not' in l)[:6000]); sys.exit(1)
q = queue.Queue(); lock = threading.Lock(); res = {}
for i in range(len(MUT)): q.put(i)
def worker(k):
    root = f'{WORK}/r{k}'; os.makedirs(root, exist_ok=True); subprocess.run(f'cp /verif/known_findings.txt {root}/', shell=True)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        name, cond, props = MUT[i]; hit = None
        for pr in props:
            for frac in (20, 1):
                e = dict(ENV, TRIG=str(i + 1), VERIF_ROOT=root)
                r = subprocess.run(['timeout', '600', 'taskset', '-c', str(k % 8), f'{WORK}/target/debug/harness', 'check', pr, '--cases', str(max(1, QUICK[pr] // frac))], env=e, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if r.returncode == 1 and 'VIOLATION' in r.stdout: hit = f'{pr}/{frac}'; break
                if r.returncode not in (0, 1): hit = f'{pr} rc={r.returncode}'; break
            if hit: break
        with lock:
            res[i] = hit; open(f'{WORK}/log.txt', 'a').write(f'{hit}\t{name}\t{cond}\t{" ".join(props)}\n')
            if not hit: print('MISSED', name, '|', cond, '|', ' '.join(props), flush=True)
QUICK = {}
for f in os.listdir('/verif/harness/src/props'):
    for m in re.finditer(r'id: "(P\d+)".*?quick: ([\d_]+)', open('/verif/harness/src/props/' + f).read(), re.S): QUICK[m.group(1)] = int(m.group(2).replace('_', ''))
ts = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
for t in ts: t.start()
for t in ts: t.join()
print(sum(1 for x in res.values() if x), 'of', len(res), 'caught')
