//! Independent ISO 10303-21 reader used as oracle (written from the standard, shares no code with ifc_rs).
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Val { Omit, Derived, Str(String), Real(f64), Int(i128), Enum(String), Ref(u64), List(Vec<Val>), Typed(String, Vec<Val>), Bin(String) }

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Omit, Omit) | (Derived, Derived) => true,
            (Str(a), Str(b)) | (Enum(a), Enum(b)) | (Bin(a), Bin(b)) => a == b,
            (Real(a), Real(b)) => a.to_bits() == b.to_bits(),
            (Int(a), Int(b)) => a == b,
            (Ref(a), Ref(b)) => a == b,
            (List(a), List(b)) => a == b,
            (Typed(a, x), Typed(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::Omit => "$".into(), Val::Derived => "*".into(), Val::Str(s) => format!("{s:?}"), Val::Real(r) => format!("{r:?}r"),
            Val::Int(i) => format!("{i}"), Val::Enum(e) => format!(".{e}."), Val::Ref(r) => format!("#{r}"), Val::Bin(b) => format!("\"{b}\""),
            Val::List(l) => format!("({})", l.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            Val::Typed(t, l) => format!("{t}({})", l.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
        }
    }
}
pub fn show(v: &[Val]) -> String { format!("({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")) }

#[derive(Clone, Debug, PartialEq)]
pub struct Rec { pub id: u64, pub kw: String, pub args: Vec<Val>, pub raw: String }
#[derive(Clone, Debug, PartialEq)]
pub struct Doc { pub header: Vec<(String, Vec<Val>)>, pub recs: Vec<Rec> }

pub struct P<'a> { s: &'a [u8], src: &'a str, pub i: usize }
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self { P { s: s.as_bytes(), src: s, i: 0 } }
    fn err<T>(&self, m: &str) -> R<T> {
        let mut a = self.i.saturating_sub(30); while !self.src.is_char_boundary(a) { a -= 1; }
        let mut b = (self.i + 30).min(self.s.len()); while !self.src.is_char_boundary(b) { b += 1; }
        Err(format!("STEP syntax: {m} at byte {} near {:?}", self.i, &self.src[a..b]))
    }
    pub fn ws(&mut self) -> R<()> {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\r' | b'\n') { self.i += 1; }
            if self.s[self.i..].starts_with(b"/*") {
                match self.src[self.i + 2..].find("*/") { Some(k) => self.i += 2 + k + 2, None => return self.err("unterminated comment") }
            } else { return Ok(()); }
        }
    }
    fn peek(&self) -> u8 { *self.s.get(self.i).unwrap_or(&0) }
    fn expect(&mut self, c: u8) -> R<()> { self.ws()?; if self.peek() == c && self.i < self.s.len() { self.i += 1; Ok(()) } else { self.err(&format!("expected {:?}", c as char)) } }
    fn keyword(&mut self) -> R<String> {
        self.ws()?;
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'-' | b'!')) { self.i += 1; }
        if st == self.i { return self.err("expected keyword"); }
        Ok(self.src[st..self.i].to_string())
    }
    fn lit(&mut self, l: &str) -> R<()> { self.ws()?; if self.s[self.i..].starts_with(l.as_bytes()) { self.i += l.len(); Ok(()) } else { self.err(&format!("expected {l}")) } }
    fn string(&mut self) -> R<String> {
        // at opening quote
        self.i += 1;
        let mut raw = String::new();
        loop {
            match self.src[self.i..].find('\'') {
                None => return self.err("unterminated string"),
                Some(k) => {
                    raw.push_str(&self.src[self.i..self.i + k]);
                    self.i += k + 1;
                    if self.peek() == b'\'' && self.i < self.s.len() { raw.push('\''); self.i += 1; } else { return Ok(decode_x2(&raw)); }
                }
            }
        }
    }
    fn number(&mut self) -> R<Val> {
        let st = self.i;
        if matches!(self.peek(), b'+' | b'-') { self.i += 1; }
        let d0 = self.i;
        while self.peek().is_ascii_digit() { self.i += 1; }
        if d0 == self.i { return self.err("expected digits"); }
        if self.peek() == b'.' {
            self.i += 1;
            while self.peek().is_ascii_digit() { self.i += 1; }
            if self.peek() == b'E' {
                self.i += 1;
                if matches!(self.peek(), b'+' | b'-') { self.i += 1; }
                let e0 = self.i;
                while self.peek().is_ascii_digit() { self.i += 1; }
                if e0 == self.i { return self.err("expected exponent digits"); }
            }
            if self.peek().is_ascii_alphanumeric() || self.peek() == b'.' { return self.err("malformed real literal"); }
            let t = &self.src[st..self.i];
            let t = t.strip_prefix('+').unwrap_or(t);
            return t.parse::<f64>().map(Val::Real).or_else(|_| self.err("bad real"));
        }
        if self.peek().is_ascii_alphanumeric() { return self.err("malformed number literal (real without decimal point?)"); }
        let t = &self.src[st..self.i];
        t.strip_prefix('+').unwrap_or(t).parse::<i128>().map(Val::Int).or_else(|e| if matches!(e.kind(), std::num::IntErrorKind::PosOverflow | std::num::IntErrorKind::NegOverflow) { t.parse::<f64>().map(Val::Real).or_else(|_| self.err("bad int")) } else { self.err("bad int") })
    }
    pub fn value(&mut self) -> R<Val> {
        self.ws()?;
        match self.peek() {
            b'$' => { self.i += 1; Ok(Val::Omit) }
            b'*' => { self.i += 1; Ok(Val::Derived) }
            b'\'' => self.string().map(Val::Str),
            b'"' => { self.i += 1; let st = self.i; while self.i < self.s.len() && self.peek() != b'"' { self.i += 1; } let r = self.src[st..self.i].to_string(); self.expect(b'"')?; Ok(Val::Bin(r)) }
            b'#' => { self.i += 1; let st = self.i; while self.peek().is_ascii_digit() { self.i += 1; } self.src[st..self.i].parse().map(Val::Ref).or_else(|_| self.err("bad reference")) }
            b'.' => {
                self.i += 1; let st = self.i;
                while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' { self.i += 1; }
                let e = self.src[st..self.i].to_string();
                if self.peek() != b'.' || e.is_empty() { return self.err("bad enumeration literal"); }
                self.i += 1; Ok(Val::Enum(e))
            }
            b'(' => self.list().map(Val::List),
            b'+' | b'-' | b'0'..=b'9' => self.number(),
            c if c.is_ascii_alphabetic() => { let k = self.keyword()?; self.ws()?; let l = self.list()?; Ok(Val::Typed(k, l)) }
            _ => self.err("expected a parameter value"),
        }
    }
    pub fn list(&mut self) -> R<Vec<Val>> {
        self.expect(b'(')?;
        let mut out = vec![];
        self.ws()?;
        if self.peek() == b')' { self.i += 1; return Ok(out); }
        loop {
            out.push(self.value()?);
            self.ws()?;
            match self.peek() { b',' => self.i += 1, b')' => { self.i += 1; return Ok(out); } _ => return self.err("expected , or )") }
        }
    }
    /// skips to the ';' that ends a record, honouring strings and comments
    fn skip_record(&mut self) -> R<()> {
        while self.i < self.s.len() {
            match self.peek() {
                b';' => { self.i += 1; return Ok(()); }
                b'\'' => { self.string()?; }
                b'/' if self.s[self.i..].starts_with(b"/*") => self.ws()?,
                _ => self.i += 1,
            }
        }
        self.err("unterminated record")
    }
    fn record(&mut self) -> R<(String, Vec<Val>)> { let k = self.keyword()?; let a = self.list()?; self.expect(b';')?; Ok((k, a)) }
    pub fn doc(&mut self, lenient_records: bool) -> R<Doc> {
        self.lit("ISO-10303-21")?; self.expect(b';')?; self.lit("HEADER")?; self.expect(b';')?;
        let mut header = vec![];
        loop {
            self.ws()?;
            if self.s[self.i..].starts_with(b"ENDSEC") { self.lit("ENDSEC")?; self.expect(b';')?; break; }
            header.push(self.record()?);
        }
        self.lit("DATA")?; self.expect(b';')?;
        let mut recs = vec![];
        loop {
            self.ws()?;
            if self.s[self.i..].starts_with(b"ENDSEC") { self.lit("ENDSEC")?; self.expect(b';')?; break; }
            let id = match self.value()? { Val::Ref(r) => r, _ => return self.err("expected instance name") };
            self.expect(b'=')?; self.ws()?;
            let st = self.i;
            match self.record() {
                Ok((kw, args)) => recs.push(Rec { id, kw, args, raw: self.src[st..self.i].to_string() }),
                Err(e) if lenient_records => { let _ = e; self.i = st; self.skip_record()?; recs.push(Rec { id, kw: String::new(), args: vec![], raw: self.src[st..self.i].to_string() }); }
                Err(e) => return Err(e),
            }
        }
        self.lit("END-ISO-10303-21")?; self.expect(b';')?; self.ws()?;
        if self.i != self.s.len() { return self.err("text after the end of the file"); }
        Ok(Doc { header, recs })
    }
}

/// Decodes \X2\hhhh..\X0\ runs; other text literally.
pub fn decode_x2(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = rest.find("\\X2\\") {
        let body = &rest[k + 4..];
        if let Some(e) = body.find("\\X0\\") {
            let hex = &body[..e];
            if !hex.is_empty() && hex.len() % 4 == 0 && hex.bytes().all(|b| b.is_ascii_hexdigit()) {
                let units: Vec<u16> = (0..hex.len() / 4).map(|i| u16::from_str_radix(&hex[4 * i..4 * i + 4], 16).unwrap()).collect();
                out.push_str(&rest[..k]);
                out.push_str(&String::from_utf16_lossy(&units));
                rest = &body[e + 4..];
                continue;
            }
        }
        out.push_str(&rest[..k + 4]);
        rest = body;
    }
    out.push_str(rest);
    out
}

pub fn parse_doc(s: &str) -> Result<Doc, String> { P::new(s).doc(false) }
pub fn parse_doc_lenient(s: &str) -> Result<Doc, String> { P::new(s).doc(true) }
pub fn parse_record(s: &str) -> Result<(String, Vec<Val>), String> {
    let mut p = P::new(s); let r = p.record()?; p.ws()?;
    if p.i != s.len() { return p.err("text after record"); }
    Ok(r)
}

/// Encodes a text as a STEP string literal; `x2` decides per umlaut whether the encoded form is used.
pub fn enc_str(s: &str, mut x2: impl FnMut() -> bool) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            '\'' => o.push_str("''"),
            'Ä' | 'ä' | 'Ö' | 'ö' | 'Ü' | 'ü' | 'ß' if x2() => { let _ = write!(o, "\\X2\\{:04X}\\X0\\", c as u32); }
            c => o.push(c),
        }
    }
    o.push('\'');
    o
}
