//! Values rendered through an emitter, and independent readers of the formats.
use eucalypt::eval::emit::{Emitter, Event, RenderMetadata};
use eucalypt::eval::primitive::Primitive;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Str(String),
    Sym(String),
    Num(serde_json::Number),
    List(Vec<V>),
    Block(Vec<(String, V)>),
}
impl V {
    pub fn s(s: &str) -> V { V::Str(s.to_string()) }
    pub fn events(&self) -> Vec<Event> {
        let mut ev = vec![Event::OutputStreamStart, Event::OutputDocumentStart];
        self.push(&mut ev);
        ev.push(Event::OutputDocumentEnd);
        ev.push(Event::OutputStreamEnd);
        ev
    }
    fn push(&self, ev: &mut Vec<Event>) {
        let m = RenderMetadata::empty;
        match self {
            V::Null => ev.push(Event::OutputScalar(m(), Primitive::Null)),
            V::Bool(b) => ev.push(Event::OutputScalar(m(), Primitive::Bool(*b))),
            V::Str(s) => ev.push(Event::OutputScalar(m(), Primitive::Str(s.clone()))),
            V::Sym(s) => ev.push(Event::OutputScalar(m(), Primitive::Sym(s.clone()))),
            V::Num(n) => ev.push(Event::OutputScalar(m(), Primitive::Num(n.clone()))),
            V::List(l) => {
                ev.push(Event::OutputSequenceStart(m()));
                l.iter().for_each(|v| v.push(ev));
                ev.push(Event::OutputSequenceEnd);
            }
            V::Block(b) => {
                ev.push(Event::OutputBlockStart(m()));
                for (k, v) in b {
                    ev.push(Event::OutputScalar(m(), Primitive::Sym(k.clone())));
                    v.push(ev);
                }
                ev.push(Event::OutputBlockEnd);
            }
        }
    }
}

/// Feed events as the emit intrinsics do: None if the emitter refuses one
pub fn render(format: &str, events: Vec<Event>) -> Option<Vec<u8>> {
    let mut buf = vec![];
    {
        let mut e = eucalypt::export::create_emitter(format, &mut buf).expect("format");
        for ev in events {
            if let Event::OutputScalar(_, p) = &ev {
                if e.unrepresentable(p).is_some() { return None; }
            }
            if e.unacceptable(&ev).is_some() { return None; }
            if e.emit(ev).is_err() { return None; }
        }
    }
    Some(buf)
}

/// What a reader found
#[derive(Clone, Debug)]
pub enum R {
    Null,
    Bool(bool),
    Str(Vec<u8>),
    Key(Vec<u8>),
    Num(Vec<u8>),
    List(Vec<R>),
    Map(Vec<(R, R)>),
}

fn push_char(out: &mut Vec<u8>, c: u32) -> Option<()> {
    if c < 0x80 { out.push(c as u8); }
    else if c < 0x800 { out.push(0xc0 | (c >> 6) as u8); out.push(0x80 | (c & 63) as u8); }
    else if c < 0x10000 {
        if (c >= 0xd800) & (c < 0xe000) { return None; }
        out.push(0xe0 | (c >> 12) as u8); out.push(0x80 | ((c >> 6) & 63) as u8); out.push(0x80 | (c & 63) as u8);
    } else if c < 0x110000 {
        out.push(0xf0 | (c >> 18) as u8); out.push(0x80 | ((c >> 12) & 63) as u8); out.push(0x80 | ((c >> 6) & 63) as u8); out.push(0x80 | (c & 63) as u8);
    } else { return None; }
    Some(())
}
fn hex(b: &[u8]) -> Option<u32> {
    let mut r = 0u32;
    for &x in b {
        let d = if (x >= b'0') & (x <= b'9') { x - b'0' } else if (x >= b'a') & (x <= b'f') { x - b'a' + 10 } else if (x >= b'A') & (x <= b'F') { x - b'A' + 10 } else { return None };
        r = r * 16 + d as u32;
    }
    Some(r)
}

pub struct Reader<'a> { pub b: &'a [u8], pub i: usize }
impl<'a> Reader<'a> {
    pub fn new(b: &'a [u8]) -> Self { Reader { b, i: 0 } }
    pub fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    pub fn eat(&mut self, c: u8) -> Option<()> { if self.peek()? == c { self.i += 1; Some(()) } else { None } }
    pub fn ws(&mut self) { while matches!(self.peek(), Some(b' ' | b'\n' | b'\r' | b'\t')) { self.i += 1; } }
    fn word(&mut self, w: &[u8]) -> Option<()> { for c in w { self.eat(*c)?; } Some(()) }
    fn number(&mut self) -> Option<Vec<u8>> {
        let s = self.i;
        if self.peek() == Some(b'-') { self.i += 1; }
        let d = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9') { self.i += 1; }
        if self.i == d || (self.b[d] == b'0' && self.i > d + 1) { return None; }
        if self.peek() == Some(b'.') {
            self.i += 1;
            let f = self.i;
            while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9') { self.i += 1; }
            if self.i == f { return None; }
        }
        Some(self.b[s..self.i].to_vec())
    }
    fn jstring(&mut self) -> Option<Vec<u8>> {
        self.eat(b'"')?;
        let mut out = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == b'"' { return Some(out); }
            if c < 0x20 { return None; }
            if c != b'\\' { out.push(c); continue; }
            let e = self.peek()?;
            self.i += 1;
            match e {
                b'"' | b'\\' | b'/' => out.push(e),
                b'b' => out.push(8), b'f' => out.push(12), b'n' => out.push(10), b'r' => out.push(13), b't' => out.push(9),
                b'u' => {
                    let mut h = hex(self.b.get(self.i..self.i + 4)?)?;
                    self.i += 4;
                    if (h >= 0xd800) & (h < 0xdc00) {
                        if self.b.get(self.i..self.i + 2)? != b"\\u" { return None; }
                        let l = hex(self.b.get(self.i + 2..self.i + 6)?)?;
                        if !((l >= 0xdc00) & (l < 0xe000)) { return None; }
                        self.i += 6;
                        h = 0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00);
                    }
                    push_char(&mut out, h)?;
                }
                _ => return None,
            }
        }
    }
    fn jvalue(&mut self) -> Option<R> {
        self.ws();
        let r = match self.peek()? {
            b'"' => R::Str(self.jstring()?),
            b'{' => {
                self.i += 1;
                let mut m = vec![];
                self.ws();
                if self.eat(b'}').is_none() {
                    loop {
                        self.ws();
                        let k = R::Str(self.jstring()?);
                        self.ws();
                        self.eat(b':')?;
                        m.push((k, self.jvalue()?));
                        self.ws();
                        if self.eat(b',').is_none() { self.eat(b'}')?; break; }
                    }
                }
                R::Map(m)
            }
            b'[' => {
                self.i += 1;
                let mut l = vec![];
                self.ws();
                if self.eat(b']').is_none() {
                    loop {
                        l.push(self.jvalue()?);
                        self.ws();
                        if self.eat(b',').is_none() { self.eat(b']')?; break; }
                    }
                }
                R::List(l)
            }
            b'n' => { self.word(b"null")?; R::Null }
            b't' => { self.word(b"true")?; R::Bool(true) }
            b'f' => { self.word(b"false")?; R::Bool(false) }
            _ => R::Num(self.number()?),
        };
        Some(r)
    }
    // ---- EDN
    fn edn_ws(&mut self) { while matches!(self.peek(), Some(b' ' | b'\n' | b'\r' | b'\t' | b',')) { self.i += 1; } }
    fn edn_end(&self) -> bool { matches!(self.peek(), None | Some(b' ' | b'\n' | b'\r' | b'\t' | b',' | b']' | b'}' | b')' | b'(' | b'[' | b'{' | b'"' | b';')) }
    /// ... and comments
    pub fn edn_space(&mut self) {
        loop {
            self.edn_ws();
            if self.peek() != Some(b';') { return; }
            while !matches!(self.peek(), None | Some(b'\n')) { self.i += 1; }
        }
    }
    /// A form with comments between and lists, as the standard has it
    pub fn edn_form(&mut self) -> Option<R> {
        self.edn_space();
        let open = self.peek()?;
        let close = match open { b'{' => b'}', b'[' => b']', b'(' => b')', _ => {
            let r = self.edn();
            // (a comment ends an atom too)
            return r;
        } };
        self.i += 1;
        let mut l = vec![];
        loop {
            self.edn_space();
            if self.eat(close).is_some() { break; }
            l.push(self.edn_form()?);
        }
        if open != b'{' { return Some(R::List(l)); }
        if l.len() % 2 == 1 { return None; }
        Some(R::Map(l.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()))
    }
    fn edn(&mut self) -> Option<R> {
        self.edn_ws();
        let r = match self.peek()? {
            b'"' => {
                self.i += 1;
                let mut out = vec![];
                loop {
                    let c = self.peek()?;
                    self.i += 1;
                    if c == b'"' { break; }
                    if c != b'\\' { out.push(c); continue; }
                    let e = self.peek()?;
                    self.i += 1;
                    out.push(match e { b'"' | b'\\' => e, b'n' => 10, b'r' => 13, b't' => 9, _ => return None });
                }
                return Some(R::Str(out));
            }
            b'{' | b'[' => {
                let open = self.peek()?;
                let close = if open == b'{' { b'}' } else { b']' };
                self.i += 1;
                let mut l = vec![];
                loop {
                    self.edn_ws();
                    if self.eat(close).is_some() { break; }
                    l.push(self.edn()?);
                }
                if open == b'[' { return Some(R::List(l)); }
                if l.len() % 2 == 1 { return None; }
                return Some(R::Map(l.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()));
            }
            b':' => {
                self.i += 1;
                let s = self.i;
                while !self.edn_end() {
                    let c = self.b[self.i];
                    // the characters the EDN standard allows in a keyword (letters beyond ASCII by convention)
                    let ok = matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'.' | b'*' | b'+' | b'!' | b'-' | b'_' | b'?' | b'$' | b'%' | b'&' | b'=' | b'<' | b'>' | b'/' | 0x80..);
                    if !ok { return None; }
                    self.i += 1;
                }
                if s == self.i { return None; }
                R::Key(self.b[s..self.i].to_vec())
            }
            b'n' => { self.word(b"nil")?; R::Null }
            b't' => { self.word(b"true")?; R::Bool(true) }
            b'f' => { self.word(b"false")?; R::Bool(false) }
            _ => {
                let n = self.number()?;
                if self.peek() == Some(b'N') { self.i += 1; }
                R::Num(n)
            }
        };
        if self.edn_end() { Some(r) } else { None }
    }
    // ---- TOML (the part without dates and multi-line strings)
    fn blank(&mut self) { while matches!(self.peek(), Some(b' ' | b'\t')) { self.i += 1; } }
    fn toml_str(&mut self) -> Option<Vec<u8>> {
        if self.peek()? == b'\'' {
            self.i += 1;
            let s = self.i;
            loop {
                let c = self.peek()?;
                if c == b'\'' { break; }
                if (c < 0x20) & (c != 9) | (c == 0x7f) { return None; }
                self.i += 1;
            }
            let r = self.b[s..self.i].to_vec();
            self.i += 1;
            return Some(r);
        }
        self.eat(b'"')?;
        if self.b.get(self.i..self.i + 2) == Some(b"\"\"") { return None; }
        let mut out = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == b'"' { return Some(out); }
            if (c < 0x20) & (c != 9) | (c == 0x7f) { return None; }
            if c != b'\\' { out.push(c); continue; }
            let e = self.peek()?;
            self.i += 1;
            match e {
                b'"' | b'\\' => out.push(e),
                b'b' => out.push(8), b'f' => out.push(12), b'n' => out.push(10), b'r' => out.push(13), b't' => out.push(9),
                b'u' => { push_char(&mut out, hex(self.b.get(self.i..self.i + 4)?)?)?; self.i += 4; }
                b'U' => { push_char(&mut out, hex(self.b.get(self.i..self.i + 8)?)?)?; self.i += 8; }
                _ => return None,
            }
        }
    }
    fn toml_key(&mut self) -> Option<Vec<Vec<u8>>> {
        let mut path = vec![];
        loop {
            self.blank();
            let c = self.peek()?;
            if c == b'"' || c == b'\'' { path.push(self.toml_str()?); } else {
                let s = self.i;
                while matches!(self.peek(), Some(b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'-')) { self.i += 1; }
                if s == self.i { return None; }
                path.push(self.b[s..self.i].to_vec());
            }
            self.blank();
            if self.eat(b'.').is_none() { return Some(path); }
        }
    }
    fn toml_value(&mut self) -> Option<R> {
        Some(match self.peek()? {
            b'"' | b'\'' => R::Str(self.toml_str()?),
            b'[' => {
                self.i += 1;
                let mut l = vec![];
                self.ws();
                if self.eat(b']').is_none() {
                    loop {
                        self.ws();
                        l.push(self.toml_value()?);
                        self.ws();
                        let comma = self.eat(b',').is_some();
                        self.ws();
                        if self.eat(b']').is_some() { break; }
                        if !comma { return None; }
                    }
                }
                R::List(l)
            }
            b'{' => {
                self.i += 1;
                let mut m = vec![];
                self.blank();
                if self.eat(b'}').is_none() {
                    loop {
                        let k = self.toml_key()?;
                        if k.len() != 1 { return None; }
                        self.eat(b'=')?;
                        self.blank();
                        m.push((R::Str(k[0].clone()), self.toml_value()?));
                        self.blank();
                        if self.eat(b',').is_none() { self.eat(b'}')?; break; }
                    }
                }
                R::Map(m)
            }
            b't' => { self.word(b"true")?; R::Bool(true) }
            b'f' => { self.word(b"false")?; R::Bool(false) }
            _ => R::Num(self.number()?),
        })
    }
    fn toml_doc(&mut self) -> Option<R> {
        let mut root = vec![];
        let mut at: Vec<Vec<u8>> = vec![];
        loop {
            self.ws();
            let Some(c) = self.peek() else { return Some(R::Map(root)) };
            if c == b'[' {
                self.i += 1;
                let aot = self.eat(b'[').is_some();
                at = self.toml_key()?;
                self.eat(b']')?;
                if aot { self.eat(b']')?; }
                open(&mut root, &at, aot, true)?;
            } else {
                let k = self.toml_key()?;
                if k.len() != 1 { return None; }
                self.eat(b'=')?;
                self.blank();
                let v = self.toml_value()?;
                let t = open(&mut root, &at, false, false)?;
                if t.iter().any(|(x, _)| same(x, &k[0])) { return None; }
                t.push((R::Str(k[0].clone()), v));
            }
            self.blank();
            if !matches!(self.peek(), None | Some(b'\n')) { return None; }
        }
    }
}
fn same(r: &R, k: &[u8]) -> bool { matches!(r, R::Str(x) if x == k) }
/// The table a header names; `aot` appends an array element, `define` refuses one that is there
fn open<'m>(m: &'m mut Vec<(R, R)>, path: &[Vec<u8>], aot: bool, define: bool) -> Option<&'m mut Vec<(R, R)>> {
    let Some((k, rest)) = path.split_first() else { return Some(m) };
    let at = match m.iter().position(|(x, _)| same(x, k)) {
        Some(i) => {
            if rest.is_empty() && define && !aot { return None; }
            i
        }
        None => { m.push((R::Str(k.clone()), if rest.is_empty() && aot { R::List(vec![]) } else { R::Map(vec![]) })); m.len() - 1 }
    };
    match &mut m[at].1 {
        R::Map(t) => if rest.is_empty() && aot { None } else { open(t, rest, aot, define) },
        R::List(l) => {
            if rest.is_empty() && aot { l.push(R::Map(vec![])); }
            match l.last_mut()? { R::Map(t) => open(t, rest, aot, define), _ => None }
        }
        _ => None,
    }
}

pub fn read_json(b: &[u8]) -> Option<R> { let mut r = Reader::new(b); let v = r.jvalue()?; r.ws(); if r.i == b.len() { Some(v) } else { None } }
pub fn read_edn(b: &[u8]) -> Option<R> { let mut r = Reader::new(b); let v = r.edn()?; r.edn_ws(); if r.i == b.len() { Some(v) } else { None } }
pub fn read_toml(b: &[u8]) -> Option<R> { let mut r = Reader::new(b); r.toml_doc() }

/// Whether what was read is the value (maps as unordered)
pub fn denotes(r: &R, v: &V) -> bool {
    match (r, v) {
        (R::Null, V::Null) => true,
        (R::Bool(a), V::Bool(b)) => a == b,
        (R::Str(a), V::Str(b)) | (R::Str(a), V::Sym(b)) | (R::Key(a), V::Sym(b)) => a == b.as_bytes(),
        (R::Num(a), V::Num(b)) => decimal(a).is_some() && decimal(a) == b.as_i64().map(i128::from).or_else(|| b.as_u64().map(i128::from)),
        (R::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| denotes(x, y)),
        (R::Map(a), V::Block(b)) => a.len() == b.len() && b.iter().all(|(k, v)| a.iter().filter(|(x, _)| matches!(x, R::Str(s) | R::Key(s) if s == k.as_bytes())).count() == 1 && a.iter().any(|(x, y)| matches!(x, R::Str(s) | R::Key(s) if s == k.as_bytes()) && denotes(y, v))),
        _ => false,
    }
}
/// the value of a decimal integer text of at most 20 digits
pub fn decimal(b: &[u8]) -> Option<i128> {
    let (neg, d) = if b.first() == Some(&b'-') { (true, &b[1..]) } else { (false, b) };
    if d.is_empty() || d.len() > 20 { return None; }
    let mut r = 0i128;
    for &x in d {
        if !((x >= b'0') & (x <= b'9')) { return None; }
        r = r * 10 + (x - b'0') as i128;
    }
    Some(if neg { -r } else { r })
}
