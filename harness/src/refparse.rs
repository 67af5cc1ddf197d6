//! Independent reader of the documented schema syntax: the oracle for the parser properties.
//!
//!   schema := ws item*            ws = blank, tab, CR, LF
//!   item   := '#' rest-of-line ws
//!           | 'export' (not followed by a word character) blank* word ws
//!           | name blank* ':' blank* body ws
//!   body   := 'enum' blank* '{' ws (name ws ','? ws)* '}'
//!           | 'struct' blank* '{' ws (comment ws | name blank* '?'? ':' blank* word '[]'? ws ','? ws)* '}'
//!   name   := [A-Za-z_][A-Za-z0-9_]*, not a reserved word;  word := [A-Za-z0-9_]*

#[derive(Debug)]
pub struct RField { pub name: (usize, usize), pub ty: (usize, usize), pub array: bool, pub optional: bool }
#[derive(Debug)]
pub enum RItem {
    Enum((usize, usize), Vec<(usize, usize)>),
    Struct((usize, usize), Vec<RField>),
    Export((usize, usize)),
}
/// Err(position of the first token that cannot continue)
pub type RRes = Result<Vec<RItem>, usize>;

struct P<'a> { t: &'a [u8], i: usize }

fn start(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_' }
fn wordc(c: u8) -> bool { start(c) || (c >= b'0' && c <= b'9') }

pub const RESERVED: [&str; 10] = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "enum", "struct"];

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> { if self.i < self.t.len() { Some(self.t[self.i]) } else { None } }
    fn is(&self, c: u8) -> bool { self.peek().map_or(false, |x| x == c) }
    fn blank(&mut self) { while let Some(c) = self.peek() { if c == b' ' || c == b'\t' { self.i += 1 } else { break } } }
    fn ws(&mut self) { while let Some(c) = self.peek() { if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' { self.i += 1 } else { break } } }
    fn word(&mut self) -> (usize, usize) {
        let s = self.i;
        while let Some(c) = self.peek() { if wordc(c) { self.i += 1 } else { break } }
        (s, self.i)
    }
    fn eqs(&self, r: (usize, usize), s: &str) -> bool {
        let b = s.as_bytes();
        if r.1 - r.0 != b.len() { return false; }
        crate::sx::same(&self.t[r.0..r.1], b)
    }
    fn name(&mut self) -> Option<(usize, usize)> {
        match self.peek() { Some(c) if start(c) => {} _ => return None }
        let s = self.i;
        let w = self.word();
        for k in RESERVED.iter() { if self.eqs(w, k) { self.i = s; return None; } }
        Some(w)
    }
    fn lit(&mut self, s: &str) -> bool {
        let b = s.as_bytes();
        if self.i + b.len() > self.t.len() { return false; }
        if crate::sx::same(&self.t[self.i..self.i + b.len()], b) { self.i += b.len(); true } else { false }
    }
    fn comment(&mut self) -> bool {
        if !self.is(b'#') { return false; }
        while let Some(c) = self.peek() { if c == b'\n' { break } self.i += 1; }
        true
    }
    fn comma(&mut self) {
        self.ws();
        if self.is(b',') { self.i += 1; }
        self.ws();
    }
}

pub fn parse(t: &[u8]) -> RRes {
    let mut p = P { t, i: 0 };
    let mut out = Vec::new();
    loop {
        p.ws();
        if p.peek().is_none() { return Ok(out); }
        if p.comment() { continue; }
        let save = p.i;
        if p.lit("export") && !p.peek().map_or(false, wordc) {
            p.blank();
            let w = p.word();
            out.push(RItem::Export(w));
            continue;
        }
        p.i = save;
        let n = match p.name() { Some(n) => n, None => return Err(p.i) };
        p.blank();
        if !p.is(b':') { return Err(p.i); }
        p.i += 1;
        p.blank();
        let kw = p.i;
        if p.lit("enum") {
            p.blank();
            if !p.is(b'{') { return Err(p.i); }
            p.i += 1;
            p.ws();
            let mut v = Vec::new();
            while let Some(x) = p.name() { v.push(x); p.comma(); }
            if !p.is(b'}') { return Err(p.i); }
            p.i += 1;
            out.push(RItem::Enum(n, v));
        } else if p.lit("struct") {
            p.blank();
            if !p.is(b'{') { return Err(p.i); }
            p.i += 1;
            p.ws();
            let mut v = Vec::new();
            loop {
                if p.comment() { p.ws(); continue; }
                let name = match p.name() { Some(x) => x, None => break };
                p.blank();
                let optional = p.is(b'?');
                if optional { p.i += 1; }
                if !p.is(b':') { return Err(p.i); }
                p.i += 1;
                p.blank();
                let ty = p.word();
                let array = p.lit("[]");
                p.comma();
                v.push(RField { name, ty, array, optional });
            }
            if !p.is(b'}') { return Err(p.i); }
            p.i += 1;
            out.push(RItem::Struct(n, v));
        } else {
            return Err(kw);
        }
    }
}
