//! Generators: texts, numbers, records, entity graphs, headers; and the renderer that lays them out as STEP text.
use crate::engine::Src;
use crate::schema::*;
use crate::step::*;
use std::collections::HashMap;

// ---- scalars ------------------------------------------------------------------------------------------------------
const WORDS: &[&str] = &["a", "Wall", "B-12", "x", "0", "name", "Ebene 1", "OG", "IFCWALL", "#12", "$", "*", ".T.", "1.5", "ENDSEC;", "DATA;", "END-ISO-10303-21;"];
const PUNCT: &[&str] = &[",", ";", "(", ")", "/*", "*/", "/* c */", " ", "  ", "\"", "=", "#1=", "\\", "/", ":", "[", "]", "{", "}", "<", "&", "%", "\t", "''", "\n", "\r\n", " \n", "\r"];
const UNI: &[&str] = &["Ä", "ä", "Ö", "ö", "Ü", "ü", "ß", "é", "漢字", "😀", "ẞ", "Å", "±", "²", "Ω", "a\u{308}", "\u{a0}", "ñ", "œ", "—", "\u{feff}", "ſ", "İ", "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{ad}", "\u{200b}", "\u{2028}", "A\u{308}", "u\u{308}", "ﬁ", "ﬀ", "Ǆ", "\u{fffd}", "\u{10ffff}", "𝒜"];

/// the first character of blocks of 256
const BLOCKS: &[u32] = &[0, 0x80, 0x100, 0x200, 0x300, 0x370, 0x400, 0x500, 0x590, 0x600, 0x900, 0xe00, 0x1100, 0x1e00, 0x1f00, 0x2000, 0x2100, 0x2200, 0x2500, 0x2600, 0x3000, 0x30a0, 0x4e00, 0xac00, 0xd700, 0xe000, 0xf800, 0xfb00, 0xff00, 0x10000, 0x1d400, 0x1f300, 0x1f600, 0x20000, 0xe0000, 0x10ff00];
/// A text without an embedded STEP escape sequence. `apos`: may contain apostrophes.
pub fn text(s: &mut Src, apos: bool) -> String {
    let mut out = String::new();
    let n = match s.weighted(&[3, 4, 3]) { 0 => 1, 1 => s.u(4), _ => s.u(9) };
    for _ in 0..n {
        match s.weighted(&[10, 6, 8, 6, 1, 1, 1]) {
            4 => { let a = (b' ' + s.u(95) as u8) as char; let b = if s.bool() { a } else { (b' ' + s.u(95) as u8) as char }; out.push(a); out.push(b); for _ in 0..s.u(3) { out.push(a); } }
            5 => { let b = *s.pick(BLOCKS); for _ in 0..1 + s.u(5) { out.push(char::from_u32(b + s.u(256) as u32).unwrap_or('?')); } }
            6 => match s.u(4) { 0 => { let r: String = out.chars().rev().collect(); out.push_str(&r); } 1 => { let p = *s.pick(PUNCT); for _ in 0..2 + s.u(3) { out.push_str(p); } } 2 => out = if out.is_empty() { "  ".into() } else { format!(" {out} ") }, _ => { let c = s.below(0x10f800) as u32; out.push(char::from_u32(if c >= 0xd800 { c + 0x800 } else { c }).unwrap_or('?')); } },
            0 => out.push_str(s.pick(WORDS)),
            1 => { for _ in 0..1 + s.u(6) { out.push((b'a' + s.u(26) as u8) as char); } }
            2 => { let p = *s.pick(PUNCT); out.push_str(p); }
            _ => { let p = *s.pick(UNI); out.push_str(p); }
        }
        if apos && s.chance(1, 6) { out.push('\''); }
    }
    if s.chance(1, 700) { out = long_text(s, &out); }
    if !apos { out = out.replace('\'', ""); }
    strip_escapes(&out)
}
/// a text far longer than the usual ones with the given chunk somewhere in it: every buffer or length limit is crossed sometime
fn long_text(s: &mut Src, chunk: &str) -> String {
    let n = match s.weighted(&[6, 4, 3, 1]) { 0 => 20 + s.u(300), 1 => 200 + s.u(1200), 2 => [254, 255, 256, 257, 510, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097][s.u(15)], _ => 1000 + s.u(70_000) };
    let fill = *s.pick(&["x", "lorem ipsum ", "é", "漢", "a,b;", "ä"]);
    let mut o = String::new();
    let at = s.u(n + 1); let mut k = 0;
    for c in fill.chars().cycle().take(n) { if k == at { o.push_str(chunk); } o.push(c); k += 1; }
    if at >= n { o.push_str(chunk); }
    o
}
/// removes anything that would itself be a STEP escape sequence
pub fn strip_escapes(x: &str) -> String {
    let mut o = x.replace("\\X", "X");
    while o.contains("\\X") { o = o.replace("\\X", "X"); }
    o
}
pub fn text_nonempty(s: &mut Src, apos: bool) -> String { let t = text(s, apos); if t.is_empty() { "n".into() } else { t } }
/// plain identifier-like text
pub fn word(s: &mut Src) -> String { let mut o = String::new(); for _ in 0..1 + s.u(8) { o.push((b'a' + s.u(26) as u8) as char); } o }

pub fn real(s: &mut Src) -> f64 {
    match s.weighted(&[5, 5, 4, 4, 3, 2, 2]) {
        0 => s.range(-20, 5000) as f64,
        1 => s.range(-100_000, 100_000) as f64 / [10.0, 100.0, 1000.0, 8.0, 3.0][s.u(5)],
        2 => { let m = s.bits() >> 11; let e = s.range(-30, 30); m as f64 / (1u64 << 53) as f64 * 10f64.powi(e as i32) * if s.bool() { -1.0 } else { 1.0 } }
        3 => { let b = f64::from_bits(s.bits()); if b.is_finite() { b } else { 1.5 } }
        4 => [0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.30000000000000004, 1e-5, 1e5, 1e15, 1e16, 1e17, 123456789012345680.0, 1e21, 1e22, 1e23, 0.5, 1.0 / 3.0, 2.0 / 3.0, 12345.678901234567, 1e-3, 1e-2, 0.3048, 25.4, 1e3, 1e6, 1e-6, 100.0][s.u(28)],
        5 => [f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 2.225073858507201e-308, f64::EPSILON, 1.0 + f64::EPSILON, 9007199254740993.0, 4503599627370495.5, 1e300, 1e-300][s.u(12)],
        _ => { let m = s.range(1, 9_999_999_999_999_999) as f64; let e = s.range(-25, 25); m * 10f64.powi(e as i32) }
    }
}
/// The numbers of a point or direction: any, or of some regularity.
pub fn vector(s: &mut Src, n: usize) -> Vec<Val> {
    let mut v: Vec<f64> = (0..n).map(|_| real(s)).collect();
    if s.chance(1, 8) { v.fill(0.0); let k = s.u(n); v[k] = [1.0, 1.0, -1.0][s.u(3)]; }
    else if s.chance(1, 4) {
        let x = if s.bool() { v[0] } else { [1.0, -1.0, 0.0, 2.0][s.u(4)] };
        match s.u(4) {
            0 => v.fill(x),
            1 => { v.fill(0.0); let k = s.u(n); v[k] = x; }
            2 => { let (a, b) = (s.u(n), s.u(n)); v[a] = x; v[b] = -x; }
            _ => { let (a, b) = (s.u(n), s.u(n)); v[a] = x; v[b] = x; }
        }
    }
    v.into_iter().map(Val::Real).collect()
}
/// a moderate, exactly printable real for geometry
pub fn coord(s: &mut Src) -> f64 {
    match s.weighted(&[12, 15, 6, 1, 1]) {
        0 => s.range(-50, 50) as f64,
        1 => s.range(-400_000, 400_000) as f64 / 1000.0,
        3 => s.range(-4_000, 4_000) as f64 / [1e4, 1e5, 1e6, 1e7, 1e8, 1e10][s.u(6)],
        4 => s.range(-4_000, 4_000) as f64 * [100.0, 300.0, 1e3][s.u(3)],
        _ => { let m = (s.bits() >> 11) as f64 / (1u64 << 53) as f64; (m - 0.5) * 2000.0 }
    }
}
pub fn pos(s: &mut Src) -> f64 { let c = coord(s).abs(); if c == 0.0 { 1.25 } else { c } }

/// One of the STEP spellings of the double.
pub fn real_text(s: &mut Src, d: f64) -> String {
    let plain = { let t = format!("{d}"); if t.contains('.') { t } else { format!("{t}.") } };
    let sci = |d: f64, s: &mut Src| {
        let t = format!("{d:E}"); // shortest round-trip digits
        let (m, e) = t.split_once('E').unwrap();
        let m = if m.contains('.') { m.to_string() } else if s.bool() { format!("{m}.") } else { format!("{m}.0") };
        let e: i32 = e.parse().unwrap();
        let es = match s.u(3) { 0 => format!("{e}"), 1 => if e >= 0 { format!("+{e}") } else { format!("{e}") }, _ => if e < 0 { format!("-{:02}", -e) } else { format!("{e:02}") } };
        format!("{m}E{es}")
    };
    let t = match s.weighted(&[4, 2, 3, 2, 2]) {
        0 => if d != 0.0 && (d.abs() > 1e40 || d.abs() < 1e-40) { sci(d, s) } else { plain },
        1 => if plain.ends_with('.') { format!("{plain}0") } else { format!("{plain}00") },
        2 => sci(d, s),
        3 => { // 17 significant digits
            let t = format!("{d:.16E}"); t }
        _ => if d.abs() < 1e30 && !plain.starts_with('-') && plain.len() < 60 { format!("00{plain}") } else { plain },
    };
    if !t.starts_with('-') && s.chance(1, 8) { format!("+{t}") } else { t }
}
pub fn int(s: &mut Src) -> i64 {
    match s.weighted(&[5, 3, 2, 2, 3]) {
        0 => s.range(-5, 100), 1 => s.range(-1_000_000, 1_000_000), 2 => s.bits() as i64, 4 => round_int(s),
        _ => [0, 1, -1, i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, u32::MAX as i64][s.u(9)],
    }
}
/// of any magnitude, often next to a power of two or ten
pub fn round_int(s: &mut Src) -> i64 {
    let v = match s.u(4) {
        0 => (1i64 << s.u(63)).wrapping_add(s.range(-2, 2)), 1 => 10i64.pow(s.u(19) as u32).wrapping_add(s.range(-1, 1)),
        2 => (s.bits() >> (1 + s.u(63))) as i64, _ => { let p = 10i64.pow(s.u(18) as u32); p.saturating_mul(1 + s.u(9) as i64).saturating_add(s.below(p as u64) as i64) }
    };
    if s.chance(1, 3) { v.wrapping_neg() } else { v }
}
pub const TS_MIN: i64 = -8_334_601_228_800; // chrono's first representable second
pub const TS_MAX: i64 = 8_210_266_876_799;
/// A point in time within the given second: what is written counts whole seconds only.
pub fn moment(secs: i64) -> chrono::DateTime<chrono::Utc> {
    let nanos = (secs as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
    chrono::DateTime::from_timestamp(secs, if secs % 3 == 0 { 0 } else { (nanos % 1_000_000_000) as u32 }).expect("harness: timestamp")
}
pub fn timestamp(s: &mut Src) -> i64 {
    match s.weighted(&[5, 2, 2, 1, 2, 1]) {
        4 => round_int(s).clamp(TS_MIN, TS_MAX), 5 => s.range(TS_MIN / 86400 + 1, TS_MAX / 86400 - 1) * 86400 + [0, 0, -1, 1, 3600][s.u(5)],
        0 => 1_500_000_000 + s.range(0, 300_000_000), 1 => s.range(-3_000_000_000, 5_000_000_000),
        2 => s.range(TS_MIN, TS_MAX), _ => [0, 1, -1, TS_MIN, TS_MAX, 253402300799, 253402300800][s.u(7)],
    }
}
pub const B64: &[u8; 64] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";
/// the standard IFC compression of 128 bits
pub fn guid_of(v: u128) -> String {
    let mut o = vec![0u8; 22];
    let mut v = v;
    for i in (0..22).rev() { o[i] = B64[(v & 63) as usize]; v >>= 6; }
    String::from_utf8(o).unwrap()
}
pub fn guid_bits(s: &mut Src) -> u128 {
    match s.weighted(&[8, 1, 1]) {
        0 => ((s.bits() as u128) << 64) | s.bits() as u128,
        1 => [0u128, u128::MAX, 1, 1 << 127, u64::MAX as u128, (u64::MAX as u128) << 64][s.u(6)],
        _ => 1u128 << s.u(128),
    }
}
pub fn guid(s: &mut Src) -> String { let b = guid_bits(s); guid_of(b) }

// ---- opaque records -----------------------------------------------------------------------------------------------
const UNKNOWN: &[&str] = &["IFCBEAM", "IFCCOLUMN", "IFCSTAIR", "IFCFACETEDBREP", "IFCWALLELEMENTEDCASE", "IFCSLABELEMENTEDCASE", "IFCCARTESIANPOINTLIST1D", "IFCPROJECTLIBRARY", "IFCMATERIALLIST", "IFCSITECOMPONENT",
    "IFCPERSONX", "IFCDOORSTYLE", "IFCWINDOWSTYLE", "IFCSPACEHEATER", "IFCROOFX", "IFCREL", "IFCPROPERTYENUMERATEDVALUE", "IFCSIUNITX", "MYVENDOR_THING", "IFCX", "IFCAXIS1PLACEMENT", "IFCDIRECTION2", "IFCPROPERTYSETTEMPLATE", "!USERDEF", "IFCMATERIALLAYERWITHOFFSETS", "IFCCONVERSIONBASEDUNITWITHOFFSET"];
fn opaque_val(s: &mut Src, depth: usize, refs: usize) -> String {
    match s.weighted(&[3, 3, 2, 2, 2, 1, 2, 1]) {
        0 => { let t = text(s, true); enc_str(&t, || false) }
        1 => if refs > 0 { format!("#@{}@", s.u(refs)) } else { "$".into() },
        2 => "$".into(),
        3 => { let r = coord(s); real_text(s, r) }
        4 => int(s).to_string(),
        5 => "*".into(),
        6 => if depth > 0 { let n = s.u(4); let v: Vec<String> = (0..n).map(|_| opaque_val(s, depth - 1, refs)).collect(); format!("({})", v.join(",")) } else { ".T.".into() },
        _ => if s.bool() { let t = text(s, true); format!("IFCTEXT({})", enc_str(&t, || false)) } else { ".USERDEFINED.".into() },
    }
}
/// Text of a record of an unsupported kind or shape, including the final `;`. `#@k@` stands for a reference to logical id k.
/// `comments`: comments may stand between the parameters.
pub fn opaque_record(s: &mut Src, refs: usize, comments: bool) -> String {
    match s.weighted(&[6, 2, 2]) {
        0 => {
            let kw = *s.pick(UNKNOWN);
            let n = s.u(6);
            let mut t = format!("{kw}(");
            for i in 0..n {
                if i > 0 { t.push(','); }
                if s.chance(1, 6) { t.push(' '); }
                if comments && s.chance(1, 8) { t.push_str("/* it's; a comment */"); }
                t.push_str(&opaque_val(s, 2, refs));
            }
            t.push_str(");");
            t
        }
        // known keyword, shape or literal the library does not model
        1 => {
            let q = text(s, false);
            [format!("IFCWALL('{}',$,{},$,$,$,$,$,.SOLIDWALL.);", guid(s), enc_str(&q, || false)),
             "IFCMATERIAL('a');".to_string(),
             format!("IFCCARTESIANPOINT(({}));", real_text(s, 1.5)),
             "IFCDIRECTION((1.,2.,3.,4.));".to_string(),
             format!("IFCSLAB('{}',$,$,$,$,$,$,$,.NOSUCHSLAB.);", guid(s)),
             "IFCSIUNIT(*,.LENGTHUNIT.,$,.PARSEC.);".to_string(),
             format!("IFCPROPERTYSINGLEVALUE('p',$,IFCVOLUMEMEASURE({}),$);", real_text(s, 2.25)),
             "IFCACTORROLE(.JANITOR.,$,$);".to_string(),
             "IFCMATERIAL('a','b','c','d');".to_string(),
             "IFCPROPERTYSINGLEVALUE('p',$,$,$);".to_string(),
            ][s.u(10)].clone()
        }
        // odd but legal raw text
        _ => {
            let q = text(s, true);
            [format!("ifcwall('{}',$,{},$,$,$,$,$,$);", guid(s), enc_str(&q, || false)),
             format!("(IFCA({})IFCB($,.X.));", enc_str(&q, || false)),
             format!("IFCX('{};/*',$,'*/');", word(s)),
             format!("IFCX({},\"0FF\");", enc_str(&q, || false)),
             "IFCX();".to_string(),
            ][s.u(5)].clone()
        }
    }
}

// ---- graphs -------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Inst { pub id: u64, pub ent: Option<usize>, pub vals: Vec<Val>, pub raw: String, pub alt: bool }
#[derive(Clone, Debug, Default)]
pub struct Graph { pub insts: Vec<Inst> }
impl Graph {
    pub fn get(&self, id: u64) -> Option<&Inst> { self.insts.iter().find(|i| i.id == id) }
    pub fn max_id(&self) -> u64 { self.insts.iter().map(|i| i.id).max().unwrap_or(0) }
}

#[derive(Clone)]
pub struct GenOpts {
    pub budget: usize,
    /// apostrophes in typed instance strings (only for API-set data)
    pub apos: bool,
    pub opaque: bool,
    pub alt: bool,
    pub dummy_targets: bool,
    /// restrict the roots of the graph to these kinds (empty: all)
    pub roots: &'static [&'static str],
    pub n_roots: (usize, usize),
    pub plain_ids: bool,
    /// rarely hundreds of instances
    pub big: bool,
    /// at times references may also run in circles or to the instance itself
    pub cycles: bool,
}
impl Default for GenOpts {
    fn default() -> Self { GenOpts { budget: 24, apos: false, opaque: true, alt: true, dummy_targets: true, roots: &[], n_roots: (1, 6), plain_ids: false, big: true, cycles: true } }
}

pub struct Gen<'a> { pub s: &'a mut Src, pub o: GenOpts, pub g: Vec<Inst>, pub by_kind: HashMap<usize, Vec<usize>>, pub opaques: Vec<usize> }

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, o: GenOpts) -> Self { Gen { s, o, g: vec![], by_kind: HashMap::new(), opaques: vec![] } }
    pub fn add_opaque(&mut self) -> usize {
        let n = self.g.len();
        let raw = opaque_record(self.s, n, true);
        self.g.push(Inst { id: n as u64, ent: None, vals: vec![], raw, alt: false });
        self.opaques.push(n);
        n
    }
    pub fn add(&mut self, kind: usize, depth: usize) -> usize {
        let e = &ents()[kind];
        let vals = self.vals(&e.fields, depth);
        let alt = self.o.alt && e.alt_kw.is_some() && self.s.chance(1, 3);
        let n = self.g.len();
        self.g.push(Inst { id: n as u64, ent: Some(kind), vals, raw: String::new(), alt });
        self.by_kind.entry(kind).or_default().push(n);
        n
    }
    fn vals(&mut self, fields: &'static [F], depth: usize) -> Vec<Val> { fields.iter().map(|f| self.field(f, depth)).collect() }
    pub fn field(&mut self, f: &'static F, depth: usize) -> Val {
        if f.opt {
            let is_ref = matches!(f.k, K::Ref(_) | K::Weak(_) | K::L(K::Ref(_)) | K::L(K::Weak(_)));
            let full = self.g.len() >= self.o.budget || depth == 0;
            match self.s.weighted(&[4, 1, if is_ref && full { 0 } else { 6 }]) { 0 => return Val::Omit, 1 => return Val::Derived, _ => {} }
        }
        self.val(&f.k, depth)
    }
    pub fn target(&mut self, kinds: &'static [&'static str], depth: usize) -> u64 {
        if self.o.dummy_targets && self.o.opaque && self.s.chance(1, 14) {
            if self.opaques.is_empty() || self.s.chance(1, 3) { return self.add_opaque() as u64; }
            let k = self.s.u(self.opaques.len());
            return self.opaques[k] as u64;
        }
        let full = self.g.len() >= self.o.budget || depth == 0;
        let kind = ent_ix(self.s.pick(kinds));
        let cands: Vec<usize> = if full {
            kinds.iter().flat_map(|k| self.by_kind.get(&ent_ix(k)).cloned().unwrap_or_default()).collect()
        } else { self.by_kind.get(&kind).cloned().unwrap_or_default() };
        if !cands.is_empty() && (full || self.s.chance(3, 5)) { let k = self.s.u(cands.len()); return cands[k] as u64; }
        self.add(kind, depth.saturating_sub(1)) as u64
    }
    pub fn val(&mut self, k: &'static K, depth: usize) -> Val {
        match k {
            K::Str => Val::Str(text(self.s, self.o.apos)),
            K::SEn(t) => Val::Str(self.s.pick(t).to_string()),
            K::En(t) => Val::Enum(self.s.pick(t).to_string()),
            K::Real => Val::Real(real(self.s)),
            K::Int => Val::Int(int(self.s) as i128),
            K::Int32 => Val::Int(match self.s.weighted(&[4, 1]) { 0 => self.s.range(-7, 7) as i128, _ => (self.s.bits() as i32) as i128 }),
            K::Bool => Val::Enum(["T", "F", "U"][self.s.u(3)].to_string()),
            K::Ts => Val::Int(timestamp(self.s) as i128),
            K::Guid => Val::Str(guid(self.s)),
            K::Ref(ks) | K::Weak(ks) => Val::Ref(self.target(ks, depth)),
            K::L(inner) => {
                let full = self.g.len() >= self.o.budget || depth == 0;
                let refs = matches!(**inner, K::Ref(_) | K::Weak(_));
                let n = if refs && full { self.s.u(3) } else if matches!(**inner, K::L(_)) { self.s.len(0, 7) } else { self.s.many(0, 7, 400) };
                Val::List((0..n).map(|_| self.val(inner, depth)).collect())
            }
            K::V2 => Val::List(vector(self.s, 2)),
            K::V3 => Val::List(vector(self.s, 3)),
            K::Dim => Val::Int(1 + self.s.u(3) as i128),
            K::Value => value(self.s, self.o.apos),
            K::Pam => Val::Typed("IFCPLANEANGLEMEASURE".into(), vec![Val::Real(real(self.s))]),
        }
    }
    /// Numbers the instances and fixes their order in the file.
    /// redirects references to any instance of a kind that is allowed there
    pub fn rewire(&mut self, n: u64, d: u64) {
        fn go(k: &K, v: &mut Val, by: &HashMap<usize, Vec<usize>>, s: &mut Src, p: (u64, u64)) {
            match (k, v) {
                (K::Ref(l) | K::Weak(l), Val::Ref(r)) if s.chance(p.0, p.1) => {
                    let c: Vec<usize> = l.iter().filter_map(|n| by.get(&crate::schema::ent_ix(n))).flatten().copied().collect();
                    if !c.is_empty() { *r = *s.pick(&c) as u64; }
                }
                (K::L(k), Val::List(l)) => for x in l { go(k, x, by, s, p); },
                _ => {}
            }
        }
        for i in self.g.iter_mut() {
            let Some(e) = i.ent else { continue };
            for (f, v) in ents()[e].fields.iter().zip(i.vals.iter_mut()) { go(&f.k, v, &self.by_kind, self.s, (n, d)); }
        }
    }
    pub fn finish(self) -> Graph { self.finish_map().0 }
    /// also the instance numbers by index of creation
    pub fn finish_map(self) -> (Graph, Vec<u64>) {
        let Gen { s, o, g, .. } = self;
        let ids = id_map(s, g.len(), o.plain_ids);
        let mut insts = g;
        for i in insts.iter_mut() {
            i.id = ids[i.id as usize];
            for v in i.vals.iter_mut() { remap(v, &ids); }
            if i.ent.is_none() { i.raw = subst(&i.raw, &ids); }
        }
        if s.chance(2, 3) { s.shuffle(&mut insts); }
        (Graph { insts }, ids)
    }
}
pub fn remap(v: &mut Val, ids: &[u64]) {
    match v { Val::Ref(r) => *r = ids[*r as usize], Val::List(l) | Val::Typed(_, l) => for x in l { remap(x, ids) }, _ => {} }
}
fn subst(raw: &str, ids: &[u64]) -> String {
    // split on "#@k@" marks
    let mut o = String::new(); let mut rest = raw;
    while let Some(k) = rest.find("#@") {
        o.push_str(&rest[..k]);
        let tail = &rest[k + 2..];
        match tail.find('@').map(|e| (e, tail[..e].parse::<usize>())) {
            Some((e, Ok(n))) if n < ids.len() => { o.push_str(&format!("#{}", ids[n])); rest = &tail[e + 1..]; }
            _ => { o.push_str("#@"); rest = tail; }
        }
    }
    o.push_str(rest); o
}
/// n distinct instance numbers
pub fn id_map(s: &mut Src, n: usize, plain: bool) -> Vec<u64> {
    match if plain { 0 } else { s.weighted(&[8, 6, 2, 2, 2, 1]) } {
        5 => { // a run across a round number
            let at = match s.u(3) { 0 => 1u64 << (2 + s.u(61)), 1 => 10u64.pow(1 + s.u(18) as u32), _ => [127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, i32::MAX as u64, u32::MAX as u64][s.u(10)] };
            let first = at.saturating_sub(s.below(n as u64 + 2)).max(1);
            let mut v: Vec<u64> = (0..n as u64).map(|i| first + i).collect(); if s.bool() { s.shuffle(&mut v); } v
        }
        0 => { let from = if !plain && s.chance(1, 6) { 0 } else { 1 }; (from..from + n as u64).collect() }
        1 => { // sparse, increasing or not
            let mut v = vec![]; let mut c = s.below(50);
            for _ in 0..n { c += 1 + s.below(40); v.push(c); }
            if s.bool() { v.reverse(); }
            v
        }
        2 => { // large
            let mut v: Vec<u64> = vec![]; let mut c = s.below(1 << 62);
            for _ in 0..n { c += 1 + s.below(1 << 20); v.push(c); }
            v
        }
        3 => { let mut v: Vec<u64> = (0..n as u64).map(|i| i * 10 + s.below(9)).collect(); s.shuffle(&mut v); v }
        _ => { // far apart by a round number
            let step = [1u64 << 8, 1 << 10, 1 << 12, 1 << 16, 1 << 20, 1 << 32, 100, 1000, 1_000_000][s.u(9)]; let c = 1 + s.below(300);
            let mut v: Vec<u64> = (0..n as u64).map(|i| c + i * step).collect(); s.shuffle(&mut v); v
        }
    }
}
pub fn value(s: &mut Src, apos: bool) -> Val {
    match s.u(5) {
        0 => Val::Typed("IFCBOOLEAN".into(), vec![Val::Enum(["T", "F", "U"][s.u(3)].into())]),
        1 => Val::Typed("IFCLABEL".into(), vec![Val::Str(text(s, apos))]),
        2 => Val::Typed("IFCREAL".into(), vec![Val::Real(real(s))]),
        3 => Val::Typed("IFCIDENTIFIER".into(), vec![Val::Str(text(s, apos))]),
        _ => Val::Typed("IFCTHERMALTRANSMITTANCEMEASURE".into(), vec![Val::Real(real(s))]),
    }
}
pub fn graph(s: &mut Src, o: GenOpts) -> Graph {
    let mut g = Gen::new(s, o.clone());
    let mut n = o.n_roots.0 + g.s.u(o.n_roots.1 - o.n_roots.0 + 1);
    if o.big && g.s.chance(1, 250) { n += [20, 100, 600][g.s.weighted(&[5, 3, 1])] + g.s.u(200); }
    let mut spans: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        // every now and then an instance of earlier again, with the same or nearly the same attributes
        g.s.again(&spans, 8);
        let from = g.s.mark();
        if o.opaque && g.s.chance(1, 6) { g.add_opaque(); } else {
            let kind = if o.roots.is_empty() { g.s.u(ents().len()) } else { ent_ix(g.s.pick(o.roots)) };
            g.add(kind, 5);
        }
        g.s.fresh(); spans.push((from, g.s.mark()));
    }
    if o.cycles && g.s.chance(1, 8) { g.rewire(1, 3); }
    g.finish()
}

// ---- header -------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub descs: Vec<(String, Vec<String>)>, pub name: String, pub ts: i64, pub authors: Vec<String>, pub orgs: Vec<String>,
    pub pre: String, pub orig: String, pub auth: String, pub schemas: Vec<usize>,
}
pub const SCHEMAS: &[&str] = &["IFC4X3_ADD2", "IFC4", "IFC2X3"];
/// (literal, schema index)
pub const SCHEMA_LITS: &[(&str, usize)] = &[("IFC4X3_ADD2", 0), ("IFC4", 1), ("IFC2X3", 2), ("IFC4x3_ADD2", 0), ("IFC4X3", 0), ("IFC4x3", 0), ("IFC2x3", 2), ("IFC4X2", 1), ("IFC4x2", 1), ("Ifc4", 1), ("ifc2x3", 2), ("ifc4x3_ADD2", 0), ("Ifc2X3", 2)];
/// A text of the header: kept as it is, so that the other escape sequences may occur in it.
fn htext(s: &mut Src) -> String {
    let t = text(s, true);
    if s.chance(1, 10) { let e = *s.pick(&["\\S\\D", "\\PA\\", "\\P", "\\\\", "\\S\\", "\\N\\", "\\"]); return strip_escapes(&if s.bool() { format!("{e}{t}") } else { format!("{t}{e}") }); }
    t
}
pub fn header(s: &mut Src) -> Hdr {
    const IT: &[&str] = &["CoordinationView_V2.0", "it's", "'q'", "QuantityTakeOffAddOnView", "Drawing Scale: 100.000000", "GUID (x): keep", "Ä b", "a;b", "ReferenceView_V1.2", "q", "x y  z", "/* no */", "[nested", "\"q\""];
    let n = if s.chance(1, 200) { 5 + s.u(60) } else { s.u(4) };
    let descs = (0..n).map(|_| {
        let name = match s.u(3) { 0 => "ViewDefinition".to_string(), 1 => word(s), _ => ["Option", "a-b_c.d:e", "ExchangeRequirement", "Comments", "Änd1"][s.u(5)].to_string() };
        let k = s.many(0, 7, 300);
        (name, (0..k).map(|_| if s.bool() { s.pick(IT).to_string() } else { word(s) }).collect())
    }).collect();
    let list = |s: &mut Src| { let n = s.many(0, 5, 300); (0..n).map(|_| htext(s)).collect::<Vec<_>>() };
    let ns = s.weighted(&[0, 8, 1, 1]);
    Hdr {
        descs, name: htext(s), ts: match s.u(3) { 0 => 1_500_000_000 + s.range(0, 300_000_000), 1 => s.range(-62_135_596_800, 253_402_300_799), _ => s.range(-62_167_219_200, 253_402_300_799) },
        authors: list(s), orgs: list(s), pre: htext(s), orig: htext(s), auth: htext(s),
        schemas: (0..ns).map(|_| s.u(3)).collect(),
    }
}
pub fn plain_header() -> Hdr { Hdr { descs: vec![("ViewDefinition".into(), vec!["CoordinationView".into()])], name: "f".into(), ts: 1_600_000_000, authors: vec!["".into()], orgs: vec!["".into()], pre: "p".into(), orig: "o".into(), auth: "".into(), schemas: vec![0] } }

/// proleptic Gregorian civil date of a Unix second
pub fn civil(ts: i64) -> String {
    let (d, r) = (ts.div_euclid(86400), ts.rem_euclid(86400));
    let z = d + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", if m <= 2 { y + 1 } else { y }, m, day, r / 3600, r % 3600 / 60, r % 60)
}

// ---- renderer -----------------------------------------------------------------------------------------------------
/// noise: 0 none, 1 occasional blanks, 2 blanks, tabs, newlines and comments; forms: vary spellings of the same value
#[derive(Clone, Copy)]
pub struct Style { pub noise: u8, pub forms: bool }
pub const PLAIN: Style = Style { noise: 0, forms: false };
const COMMENTS: &[&str] = &["/* c */", "/**/", "/* it's */", "/* ; ENDSEC; */", "/* #1= IFCWALL( */", "/* a * / b */", "/***/", "/**//**/", "/* /* */", "/*'*/", "/*\r*/", "/*\t'\r\n)\r;*/", "/* Ä\n multi line */", "/* a,b, \"c\", $ .T. 1.5 \\X2\\ \u{0} 😀 % {} [] */", "/*,*/", "/*\"*/", "/* \" */", "/*  */", "/* - -- */", "/* a comment with many words that goes on for longer than one hundred characters, so that any limit on the length of a comment would be noticed at some time; it even has (more) than two hundred characters = x */"];
/// a comment of any text
pub fn comment(s: &mut Src) -> String {
    let mut t = text(s, true);
    while t.contains("*/") { t = t.replace("*/", "*"); }
    if s.chance(1, 300) { t = t.replace('*', ".").repeat(1 + s.u(600)); }
    if s.chance(1, 12) { let e = *s.pick(&["/", "*", "'", "//", "**", "/*", "\\"]); t = if s.bool() { format!("{e}{t}") } else { format!("{t}{e}") }; while t.contains("*/") { t = t.replace("*/", "*"); } }
    format!("/*{t}*/")
}
pub fn ws(s: &mut Src, st: Style) -> String {
    match st.noise {
        0 => String::new(),
        1 => if s.chance(1, 5) { " ".into() } else { String::new() },
        _ => {
            let mut o = String::new();
            if s.chance(1, 3) { for _ in 0..1 + s.u(3) { match s.weighted(&[4, 2, 2, 3]) { 0 => o.push(' '), 1 => o.push('\n'), 2 => o.push_str(["\t", "\r\n", "\r", "\n\r", "   "][s.u(5)]), _ => if s.bool() { o.push_str(s.pick(COMMENTS)) } else { o.push_str(&comment(s)) } } } }
            o
        }
    }
}
fn list(s: &mut Src, st: Style, items: Vec<String>) -> String {
    let mut o = String::from("(");
    o.push_str(&ws(s, st));
    for (i, x) in items.iter().enumerate() {
        if i > 0 { o.push(','); o.push_str(&ws(s, st)); }
        o.push_str(x);
        o.push_str(&ws(s, st));
    }
    o.push(')'); o
}
/// spellings of the value type names accepted besides the upper-case ones
const VALUE_ALT: &[(&str, &str)] = &[("IFCLABEL", "IfcLabel"), ("IFCREAL", "IfcReal"), ("IFCBOOLEAN", "IfcBoolean"), ("IFCIDENTIFIER", "IfcIdentifier")];
pub fn str_lit(s: &mut Src, st: Style, x: &str) -> String { if st.forms { enc_str(x, || s.bool()) } else { enc_str(x, || true) } }
pub fn real_lit(s: &mut Src, st: Style, d: f64) -> String { if st.forms { real_text(s, d) } else { canon_real(d) } }
pub fn canon_real(d: f64) -> String { let t = if d != 0.0 && (d.abs() >= 1e18 || d.abs() < 1e-6) { let t = format!("{d:E}"); let (m, e) = t.split_once('E').map(|(a, b)| (a.to_string(), b.to_string())).unwrap(); if m.contains('.') { format!("{m}E{e}") } else { format!("{m}.E{e}") } } else { format!("{d}") }; if t.contains('.') { t } else { format!("{t}.") } }
pub fn render_val(s: &mut Src, st: Style, k: &K, v: &Val) -> String {
    match v {
        Val::Omit => "$".into(), Val::Derived => "*".into(),
        Val::Str(x) => if matches!(k, K::Guid | K::SEn(_)) { format!("'{x}'") } else { str_lit(s, st, x) },
        Val::Real(d) => real_lit(s, st, *d),
        Val::Int(i) => if st.forms && *i >= 0 && matches!(k, K::Int | K::Int32 | K::Ts) && s.chance(1, 8) { [format!("+{i}"), format!("0{i}"), format!("+00{i}")][s.u(3)].clone() } else { i.to_string() },
        Val::Enum(e) => if matches!(k, K::Bool | K::Value) { bool_lit(s, st, e) } else { format!(".{e}.") },
        Val::Ref(r) => format!("#{r}"),
        Val::Bin(b) => format!("\"{b}\""),
        Val::Typed(t, l) => {
            let items = l.iter().map(|x| render_val(s, st, k, x)).collect();
            let pam = matches!(k, K::Pam);
            let t = if st.forms && !pam && s.chance(1, 8) { VALUE_ALT.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(t) } else { t };
            let gap = if pam { String::new() } else { ws(s, st) };
            format!("{t}{gap}{}", list(s, st, items))
        }
        Val::List(l) => { let ik = if let K::L(i) = k { *i } else { &K::Real }; let items = l.iter().map(|x| render_val(s, st, ik, x)).collect(); list(s, st, items) }
    }
}
fn bool_lit(s: &mut Src, st: Style, e: &str) -> String {
    let long = if st.forms { s.bool() } else { false };
    match (e, long) { ("T", true) => ".TRUE.", ("T", _) => ".T.", ("F", true) => ".FALSE.", ("F", _) => ".F.", (_, true) => ".UNKNOWN.", _ => ".U." }.into()
}
/// the record without instance number, ending with `;`
pub fn render_record(s: &mut Src, st: Style, i: &Inst) -> String {
    let Some(ei) = i.ent else { return i.raw.clone() };
    let e = &ents()[ei];
    let kw = if i.alt { e.alt_kw.unwrap() } else { e.kw };
    let mut o = format!("{kw}(");
    o.push_str(&ws(s, st));
    for (n, (f, v)) in e.fields.iter().zip(&i.vals).enumerate() {
        if n > 0 { o.push(','); o.push_str(&ws(s, st)); }
        o.push_str(&render_val(s, st, &f.k, v));
        o.push_str(&ws(s, st));
    }
    o.push_str(");");
    o
}
pub fn render_data(s: &mut Src, st: Style, g: &Graph) -> String {
    let mut o = String::from("DATA;\n");
    for i in &g.insts {
        o.push_str(&ws(s, st));
        o.push_str(&format!("#{}", i.id));
        o.push_str(&ws(s, st)); o.push('='); o.push_str(&ws(s, st));
        if st.noise == 0 { o.push(' '); }
        o.push_str(&render_record(s, st, i));
        o.push_str(&ws(s, st));
        if st.noise < 2 || s.bool() { o.push('\n'); }
    }
    o.push_str(&ws(s, st));
    o.push_str("ENDSEC;");
    o
}
pub fn hstr(s: &mut Src, st: Style, x: &str) -> String { let _ = (s, st); format!("'{}'", x.replace('\'', "''")) }
pub fn render_header(s: &mut Src, st: Style, h: &Hdr) -> String {
    let mut o = String::from("ISO-10303-21;\n"); o.push_str(&ws(s, st));
    o.push_str("HEADER;\n"); o.push_str(&ws(s, st));
    // FILE_DESCRIPTION
    o.push_str("FILE_DESCRIPTION"); o.push_str(&ws(s, st)); o.push('('); o.push_str(&ws(s, st));
    if h.descs.is_empty() { o.push_str("('')"); } else {
        o.push('(');
        for (i, (n, items)) in h.descs.iter().enumerate() {
            if i > 0 { o.push(','); }
            o.push_str(&ws(s, st));
            let sep = if st.forms { [",", ", ", " , ", ",  "][s.u(4)] } else { ", " };
            let gap = if st.forms { ["", " ", "  "][s.u(3)] } else { " " };
            o.push_str(&format!("'{n}{gap}[{}]'", items.join(sep).replace('\'', "''")));
            o.push_str(&ws(s, st));
        }
        o.push(')');
    }
    o.push_str(&ws(s, st)); o.push(','); o.push_str(&ws(s, st));
    o.push_str("'2;1'"); o.push_str(&ws(s, st)); o.push(')'); o.push_str(&ws(s, st)); o.push_str(";\n");
    // FILE_NAME
    o.push_str(&ws(s, st)); o.push_str("FILE_NAME"); o.push_str(&ws(s, st)); o.push('('); o.push_str(&ws(s, st));
    let sep = |s: &mut Src| format!("{},{}", ws(s, st), ws(s, st));
    let strs = |s: &mut Src, v: &[String]| { let mut o = String::from("("); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&ws(s, st)); o.push_str(&hstr(s, st, x)); o.push_str(&ws(s, st)); } o.push(')'); o };
    if st.forms && h.name.is_empty() && s.bool() { o.push('$'); } else { o.push_str(&hstr(s, st, &h.name)); }
    o.push_str(&sep(s)); o.push_str(&ts_text(s, st, h.ts));
    o.push_str(&sep(s)); o.push_str(&strs(s, &h.authors));
    o.push_str(&sep(s)); o.push_str(&strs(s, &h.orgs));
    for x in [&h.pre, &h.orig, &h.auth] { o.push_str(&sep(s)); o.push_str(&hstr(s, st, x)); }
    o.push_str(&ws(s, st)); o.push(')'); o.push_str(&ws(s, st)); o.push_str(";\n");
    // FILE_SCHEMA
    o.push_str(&ws(s, st)); o.push_str("FILE_SCHEMA"); o.push_str(&ws(s, st)); o.push('('); o.push_str(&ws(s, st));
    o.push('(');
    for (i, k) in h.schemas.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push_str(&ws(s, st));
        let lit = if st.forms { let c: Vec<&str> = SCHEMA_LITS.iter().filter(|x| x.1 == *k).map(|x| x.0).collect(); *s.pick(&c) } else { SCHEMAS[*k] };
        o.push_str(&format!("'{lit}'")); o.push_str(&ws(s, st));
    }
    o.push(')');
    o.push_str(&ws(s, st)); o.push(')'); o.push_str(&ws(s, st)); o.push_str(";\n");
    o.push_str(&ws(s, st)); o.push_str("ENDSEC;\n");
    o
}
fn ts_text(s: &mut Src, st: Style, ts: i64) -> String {
    if !st.forms { return format!("'{}'", civil(ts)); }
    match s.u(4) {
        0 => format!("'{}'", civil(ts)),
        1 => format!("'{}Z'", civil(ts)),
        2 => { // local time with an offset
            let off = s.range(-14 * 60, 14 * 60);
            let t = civil(ts + off * 60);
            if t.len() != 19 || t.starts_with('-') { return format!("'{}'", civil(ts)); }
            format!("'{}{}{:02}:{:02}'", t, if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60)
        }
        _ => format!("'{}'", civil(ts)),
    }
}
pub fn render_file(s: &mut Src, st: Style, h: &Hdr, g: &Graph) -> String {
    let mut o = render_header(s, st, h);
    o.push_str(&ws(s, st));
    o.push_str(&render_data(s, st, g));
    o.push('\n'); o.push_str(&ws(s, st));
    o.push_str("END-ISO-10303-21;");
    o.push_str(&ws(s, st));
    if s.bool() { o.push('\n'); }
    o
}
/// Random file: header + graph in a random style
pub fn any_style(s: &mut Src) -> Style { match s.weighted(&[2, 1, 3]) { 0 => PLAIN, 1 => Style { noise: 1, forms: true }, _ => Style { noise: 2, forms: true } } }

/// The expected projection of an instance (normalised values).
pub fn kind_name(i: &Inst) -> &'static str { match i.ent { Some(e) => ents()[e].name, None => "Dummy" } }
