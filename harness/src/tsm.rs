//! A reader and evaluator for the TypeScript subset the generator emits.
use crate::sx;
use std::cell::RefCell;
use std::rc::Rc;

pub type N = Rc<Vec<u8>>;
pub fn nm(s: &str) -> N { Rc::new(s.as_bytes().to_vec()) }
pub fn is(n: &[u8], s: &str) -> bool { n == s.as_bytes() }

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug)]
pub enum Tok { Id(N), Num(i64), Str(N), P(&'static str), Eof }
const PUNCT: [&str; 52] = [
    ">>>=", "===", "!==", ">>>", "<<=", ">>=", "...", "**=", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "|=", "&=", "^=",
    "<<", ">>", "**", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=",
];
// not inlined: one decision per character, not one per range
#[inline(never)]
fn al(b: u8) -> bool { ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_') | (b == b'$') }
#[inline(never)]
fn ald(b: u8) -> bool { al(b) | dg(b) }
fn dg(b: u8) -> bool { (b >= b'0') & (b <= b'9') }

pub fn tokens(t: &[u8]) -> Option<Vec<Tok>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let b = t[i];
        // identifiers first: names may be symbolic
        if al(b) {
            let s = i;
            i += 1;
            while i < t.len() && ald(t[i]) { i += 1; }
            out.push(Tok::Id(Rc::new(t[s..i].to_vec())));
            continue;
        }
        if b == b' ' || b == b'\n' || b == b'\t' || b == b'\r' { i += 1; continue; }
        if b == b'/' && i + 1 < t.len() && t[i + 1] == b'/' {
            while i < t.len() && t[i] != b'\n' { i += 1; }
            continue;
        }
        if b == b'/' && i + 1 < t.len() && t[i + 1] == b'*' {
            i += 2;
            while i + 1 < t.len() && !(t[i] == b'*' && t[i + 1] == b'/') { i += 1; }
            if i + 1 >= t.len() { return None; }
            i += 2;
            continue;
        }
        if dg(b) {
            let mut v: i64 = 0;
            if b == b'0' && i + 1 < t.len() && (t[i + 1] == b'x' || t[i + 1] == b'X') {
                i += 2;
                while i < t.len() && (t[i] as char).is_ascii_hexdigit() { v = v * 16 + (t[i] as char).to_digit(16)? as i64; i += 1; }
            } else {
                while i < t.len() && dg(t[i]) { v = v.checked_mul(10)?.checked_add((t[i] - b'0') as i64)?; i += 1; }
            }
            if i < t.len() && (al(t[i]) || t[i] == b'.') { return None; }
            out.push(Tok::Num(v));
            continue;
        }
        if b == b'"' || b == b'\'' {
            let s = i + 1;
            i += 1;
            while i < t.len() && t[i] != b && t[i] != b'\n' { i += 1; }
            if i >= t.len() || t[i] != b { return None; }
            out.push(Tok::Str(Rc::new(t[s..i].to_vec())));
            i += 1;
            continue;
        }
        if b == b'.' && !(i + 2 < t.len() && t[i + 1] == b'.' && t[i + 2] == b'.') { out.push(Tok::P(".")); i += 1; continue; }
        let mut hit = false;
        for p in PUNCT.iter() {
            if t.len() - i >= p.len() && &t[i..i + p.len()] == p.as_bytes() { out.push(Tok::P(p)); i += p.len(); hit = true; break; }
        }
        if !hit { return None; }
    }
    out.push(Tok::Eof);
    Some(out)
}

// ---------------------------------------------------------------- syntax
#[derive(Clone, Debug)]
pub enum E {
    Num(i64), Str(N), Undef, Null, Bool(bool), This, Id(N), Mem(Box<E>, N), Idx(Box<E>, Box<E>), Call(Box<E>, Vec<E>), New(Box<E>, Vec<E>),
    Un(&'static str, Box<E>), Inc(Box<E>, i64, bool), Bin(&'static str, Box<E>, Box<E>), And(Box<E>, Box<E>), Or(Box<E>, Box<E>), Nul(Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>), Assign(&'static str, Box<E>, Box<E>), Obj(Vec<(N, E)>), Arr(Vec<E>),
}
#[derive(Clone, Debug)]
pub enum S {
    Let(N, Option<E>), Expr(E), If(E, Box<S>, Option<Box<S>>), Block(Vec<S>), For(Option<Box<S>>, Option<E>, Option<E>, Box<S>), ForOf(N, E, Box<S>), While(E, Box<S>),
    Switch(E, Vec<(Option<E>, Vec<S>)>), Break, Continue, Return(Option<E>), Throw(E), Empty,
}
/// union of (dotted name, array depth)
#[derive(Clone, Debug)]
pub struct Ty(pub Vec<(Vec<N>, u32)>);
#[derive(Clone, Debug)]
pub enum Decl { Interface(N, Vec<(N, bool, Ty)>), Enum(N, bool, Vec<(N, Option<E>)>) }
#[derive(Clone, Debug)]
pub struct Method { pub stat: bool, pub name: N, pub params: Vec<(N, bool, Option<Ty>)>, pub ret: Option<Ty>, pub body: Vec<S> }
#[derive(Clone, Debug)]
pub struct Class { pub name: N, pub fields: Vec<(N, bool, Ty)>, pub methods: Vec<Method> }
#[derive(Clone, Debug, Default)]
pub struct Module { pub imports: Vec<N>, pub from: Vec<N>, pub spaces: Vec<(N, Vec<Decl>)>, pub classes: Vec<Class> }

pub struct P { t: Vec<Tok>, i: usize }
type R<T> = Result<T, &'static str>;
const BAD: &str = "generated code is not valid TypeScript";

impl P {
    fn at(&self) -> &Tok { &self.t[self.i] }
    fn p(&self, s: &str) -> bool { matches!(self.at(), Tok::P(x) if *x == s) }
    fn eat(&mut self, s: &str) -> bool { if self.p(s) { self.i += 1; true } else { false } }
    fn want(&mut self, s: &str) -> R<()> { if self.eat(s) { Ok(()) } else { Err(BAD) } }
    fn kw(&self, s: &str) -> bool { matches!(self.at(), Tok::Id(x) if is(x, s)) }
    fn eat_kw(&mut self, s: &str) -> bool { if self.kw(s) { self.i += 1; true } else { false } }
    fn want_kw(&mut self, s: &str) -> R<()> { if self.eat_kw(s) { Ok(()) } else { Err(BAD) } }
    fn id(&mut self) -> R<N> {
        let r = match self.at() { Tok::Id(x) => x.clone(), _ => return Err(BAD) };
        self.i += 1;
        Ok(r)
    }
    /// a '>' that may be the first part of a longer token never occurs in types here
    fn ty(&mut self) -> R<Ty> {
        let mut alts = Vec::new();
        self.eat("|");
        loop {
            if self.eat("{") { self.want("}")?; alts.push((vec![nm("{}")], 0)); }
            else {
                let mut path = vec![self.id()?];
                while self.eat(".") { path.push(self.id()?); }
                let mut arr = 0;
                if self.p("<") { return Err(BAD); }
                while self.p("[") { self.i += 1; self.want("]")?; arr += 1; }
                alts.push((path, arr));
            }
            if !self.eat("|") { break; }
        }
        Ok(Ty(alts))
    }
    pub fn module(&mut self) -> R<Module> {
        let mut m = Module::default();
        loop {
            if let Tok::Eof = self.at() { return Ok(m); }
            if self.eat(";") { continue; }
            if self.eat_kw("import") {
                self.want("{")?;
                while !self.eat("}") { let n = self.id()?; m.imports.push(n); if !self.p("}") { self.want(",")?; } }
                self.want_kw("from")?;
                match self.at().clone() { Tok::Str(s) => m.from.push(s), _ => return Err(BAD) }
                self.i += 1;
                self.eat(";");
                continue;
            }
            self.want_kw("export")?;
            if self.eat_kw("namespace") {
                let n = self.id()?;
                self.want("{")?;
                let mut ds = Vec::new();
                while !self.eat("}") { ds.push(self.decl()?); }
                m.spaces.push((n, ds));
            } else if self.eat_kw("class") {
                let c = self.class()?;
                m.classes.push(c);
            } else { return Err(BAD); }
        }
    }
    fn decl(&mut self) -> R<Decl> {
        self.want_kw("export")?;
        if self.eat_kw("interface") {
            let n = self.id()?;
            self.want("{")?;
            let mut fs = Vec::new();
            while !self.eat("}") {
                let f = self.id()?;
                let opt = self.eat("?");
                self.want(":")?;
                let t = self.ty()?;
                if !self.eat(",") && !self.eat(";") && !self.p("}") { return Err(BAD); }
                fs.push((f, opt, t));
            }
            return Ok(Decl::Interface(n, fs));
        }
        let cst = self.eat_kw("const");
        self.want_kw("enum")?;
        let n = self.id()?;
        self.want("{")?;
        let mut vs = Vec::new();
        while !self.eat("}") {
            let v = self.id()?;
            let e = if self.eat("=") { Some(self.assign()?) } else { None };
            if !self.p("}") { self.want(",")?; }
            vs.push((v, e));
        }
        Ok(Decl::Enum(n, cst, vs))
    }
    fn params(&mut self) -> R<Vec<(N, bool, Option<Ty>)>> {
        self.want("(")?;
        let mut ps = Vec::new();
        while !self.eat(")") {
            let n = self.id()?;
            let opt = self.eat("?");
            let t = if self.eat(":") { Some(self.ty()?) } else { None };
            ps.push((n, opt, t));
            if !self.p(")") { self.want(",")?; }
        }
        Ok(ps)
    }
    fn class(&mut self) -> R<Class> {
        let name = self.id()?;
        self.want("{")?;
        let mut c = Class { name, fields: Vec::new(), methods: Vec::new() };
        let mut ctor = false;
        while !self.eat("}") {
            if self.eat(";") { continue; }
            if !ctor && self.eat_kw("constructor") {
                ctor = true;
                self.want("(")?;
                while !self.eat(")") {
                    self.want_kw("public")?;
                    let n = self.id()?;
                    let opt = self.eat("?");
                    self.want(":")?;
                    let t = self.ty()?;
                    c.fields.push((n, opt, t));
                    if !self.p(")") { self.want(",")?; }
                }
                self.want("{")?;
                self.want("}")?;
                continue;
            }
            let stat = self.eat_kw("static");
            let name = self.id()?;
            let params = self.params()?;
            let ret = if self.eat(":") { Some(self.ty()?) } else { None };
            self.want("{")?;
            let body = self.block()?;
            c.methods.push(Method { stat, name, params, ret, body });
        }
        if !ctor { return Err(BAD); }
        Ok(c)
    }
    /// statements up to the closing brace
    fn block(&mut self) -> R<Vec<S>> {
        let mut v = Vec::new();
        while !self.eat("}") { v.push(self.stmt()?); }
        Ok(v)
    }
    /// the generator puts every statement on its own line, so a missing semicolon is accepted before a brace only
    fn semi(&mut self) -> R<()> { if self.eat(";") || self.p("}") { Ok(()) } else { Err(BAD) } }
    fn let_rest(&mut self) -> R<S> {
        let n = self.id()?;
        if self.eat(":") { self.ty()?; }
        let e = if self.eat("=") { Some(self.assign()?) } else { None };
        Ok(S::Let(n, e))
    }
    fn stmt(&mut self) -> R<S> {
        match self.at().clone() {
            Tok::P("{") => { self.i += 1; return Ok(S::Block(self.block()?)); }
            Tok::P(";") => { self.i += 1; return Ok(S::Empty); }
            Tok::Id(x) => {
                // a name followed by one of these is an expression
                let next = &self.t[self.i + 1];
                let plain = matches!(next, Tok::P(".") | Tok::P("=") | Tok::P("[") | Tok::P("++") | Tok::P("--") | Tok::P("+=") | Tok::P("-="));
                if !plain {
                    if is(&x, "let") || is(&x, "const") || is(&x, "var") {
                        self.i += 1;
                        let s = self.let_rest()?;
                        self.semi()?;
                        return Ok(s);
                    }
                    if is(&x, "if") {
                        self.i += 1;
                        self.want("(")?;
                        let c = self.expr()?;
                        self.want(")")?;
                        let a = self.stmt()?;
                        let b = if self.eat_kw("else") { Some(Box::new(self.stmt()?)) } else { None };
                        return Ok(S::If(c, Box::new(a), b));
                    }
                    if is(&x, "for") {
                        self.i += 1;
                        self.want("(")?;
                        let mut init = None;
                        if !self.eat(";") {
                            if self.eat_kw("let") || self.eat_kw("const") || self.eat_kw("var") {
                                let s = self.let_rest()?;
                                if let S::Let(n, None) = &s {
                                    if self.eat_kw("of") {
                                        let e = self.expr()?;
                                        self.want(")")?;
                                        return Ok(S::ForOf(n.clone(), e, Box::new(self.stmt()?)));
                                    }
                                }
                                init = Some(Box::new(s));
                            } else { init = Some(Box::new(S::Expr(self.expr()?))); }
                            self.want(";")?;
                        }
                        let c = if self.p(";") { None } else { Some(self.expr()?) };
                        self.want(";")?;
                        let st = if self.p(")") { None } else { Some(self.expr()?) };
                        self.want(")")?;
                        return Ok(S::For(init, c, st, Box::new(self.stmt()?)));
                    }
                    if is(&x, "while") {
                        self.i += 1;
                        self.want("(")?;
                        let c = self.expr()?;
                        self.want(")")?;
                        return Ok(S::While(c, Box::new(self.stmt()?)));
                    }
                    if is(&x, "switch") {
                        self.i += 1;
                        self.want("(")?;
                        let c = self.expr()?;
                        self.want(")")?;
                        self.want("{")?;
                        let mut cs: Vec<(Option<E>, Vec<S>)> = Vec::new();
                        while !self.eat("}") {
                            if self.eat_kw("case") { let e = self.expr()?; self.want(":")?; cs.push((Some(e), vec![])); }
                            else if self.eat_kw("default") { self.want(":")?; cs.push((None, vec![])); }
                            else { let s = self.stmt()?; match cs.last_mut() { Some(c) => c.1.push(s), None => return Err(BAD) } }
                        }
                        return Ok(S::Switch(c, cs));
                    }
                    if is(&x, "return") {
                        self.i += 1;
                        let e = if self.p(";") || self.p("}") { None } else { Some(self.expr()?) };
                        self.semi()?;
                        return Ok(S::Return(e));
                    }
                    if is(&x, "throw") { self.i += 1; let e = self.expr()?; self.semi()?; return Ok(S::Throw(e)); }
                    if is(&x, "break") { self.i += 1; self.semi()?; return Ok(S::Break); }
                    if is(&x, "continue") { self.i += 1; self.semi()?; return Ok(S::Continue); }
                }
            }
            _ => {}
        }
        let e = self.expr()?;
        self.semi()?;
        Ok(S::Expr(e))
    }
    pub fn expr(&mut self) -> R<E> { self.assign() }
    fn assign(&mut self) -> R<E> {
        let l = self.cond()?;
        for op in ["=", "+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>="].iter() {
            if self.p(op) {
                match l { E::Id(_) | E::Mem(..) | E::Idx(..) => {} _ => return Err(BAD) }
                self.i += 1;
                let r = self.assign()?;
                return Ok(E::Assign(op, Box::new(l), Box::new(r)));
            }
        }
        Ok(l)
    }
    fn cond(&mut self) -> R<E> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.assign()?;
            self.want(":")?;
            let b = self.assign()?;
            return Ok(E::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lv: usize) -> R<E> {
        const L: [&[&str]; 11] = [&["??"], &["||"], &["&&"], &["|"], &["^"], &["&"], &["===", "!==", "==", "!="], &["<=", ">=", "<", ">"], &["<<", ">>>", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lv == L.len() { return self.unary(); }
        let mut l = self.bin(lv + 1)?;
        'o: loop {
            if lv == 7 {
                while self.kw("as") { self.i += 1; self.ty()?; }
            }
            for op in L[lv].iter() {
                if self.eat(op) {
                    let r = self.bin(lv + 1)?;
                    l = match *op { "||" => E::Or(Box::new(l), Box::new(r)), "&&" => E::And(Box::new(l), Box::new(r)), "??" => E::Nul(Box::new(l), Box::new(r)), _ => E::Bin(op, Box::new(l), Box::new(r)) };
                    continue 'o;
                }
            }
            return Ok(l);
        }
    }
    fn unary(&mut self) -> R<E> {
        for op in ["!", "-", "+", "~"].iter() { if self.eat(op) { return Ok(E::Un(op, Box::new(self.unary()?))); } }
        if self.eat("++") { return Ok(E::Inc(Box::new(self.unary()?), 1, true)); }
        if self.eat("--") { return Ok(E::Inc(Box::new(self.unary()?), -1, true)); }
        let e = self.postfix()?;
        if self.eat("++") { return Ok(E::Inc(Box::new(e), 1, false)); }
        if self.eat("--") { return Ok(E::Inc(Box::new(e), -1, false)); }
        Ok(e)
    }
    fn args(&mut self) -> R<Vec<E>> {
        let mut v = Vec::new();
        while !self.eat(")") { v.push(self.assign()?); if !self.p(")") { self.want(",")?; } }
        Ok(v)
    }
    fn postfix(&mut self) -> R<E> {
        let mut e = if self.kw("new") && matches!(self.t[self.i + 1], Tok::Id(_)) {
            self.i += 1;
            let mut c = E::Id(self.id()?);
            while self.eat(".") { c = E::Mem(Box::new(c), self.id()?); }
            let a = if self.eat("(") { self.args()? } else { vec![] };
            E::New(Box::new(c), a)
        } else { self.atom()? };
        loop {
            if self.eat(".") { e = E::Mem(Box::new(e), self.id()?); }
            else if self.eat("[") { let i = self.expr()?; self.want("]")?; e = E::Idx(Box::new(e), Box::new(i)); }
            else if self.eat("(") { e = E::Call(Box::new(e), self.args()?); }
            else if self.p("!") && !matches!(self.t[self.i + 1], Tok::P("=")) && matches!(self.t[self.i + 1], Tok::P(".") | Tok::P("[") | Tok::P(";") | Tok::P(")") | Tok::P(",")) { self.i += 1; }
            else { return Ok(e); }
        }
    }
    fn atom(&mut self) -> R<E> {
        let t = self.at().clone();
        self.i += 1;
        Ok(match t {
            Tok::Num(n) => E::Num(n),
            Tok::Str(s) => E::Str(s),
            Tok::P("(") => { let e = self.expr()?; self.want(")")?; e }
            Tok::P("[") => {
                let mut v = Vec::new();
                while !self.eat("]") { v.push(self.assign()?); if !self.p("]") { self.want(",")?; } }
                E::Arr(v)
            }
            Tok::P("{") => {
                let mut v = Vec::new();
                while !self.eat("}") { let n = self.id()?; let e = if self.eat(":") { self.assign()? } else { E::Id(n.clone()) }; v.push((n, e)); if !self.p("}") { self.want(",")?; } }
                E::Obj(v)
            }
            Tok::Id(x) => {
                if is(&x, "undefined") { E::Undef }
                else if is(&x, "null") { E::Null }
                else if is(&x, "true") { E::Bool(true) }
                else if is(&x, "false") { E::Bool(false) }
                else if is(&x, "this") { E::This }
                else { E::Id(x) }
            }
            _ => return Err(BAD),
        })
    }
}
pub fn parse(text: &str) -> R<Module> {
    let t = match tokens(text.as_bytes()) { Some(t) => t, None => return Err(BAD) };
    P { t, i: 0 }.module()
}

// ---------------------------------------------------------------- values
#[derive(Clone)]
pub enum V {
    Undef, Null, Bool(bool), Num(i64), Flt(u32), Str(N), Arr(Rc<RefCell<Arr>>), Obj(Rc<RefCell<Obj>>), Reader(Rc<RefCell<Rd>>), Writer(Rc<RefCell<Wr>>),
    Class(usize), Buf(Rc<Vec<u8>>), Lib(&'static str),
}
#[derive(Default)]
pub struct Arr { pub len: i64, pub items: Vec<V> }
/// proto: None = plain, Some(true) = the class's prototype, Some(false) = the class itself
#[derive(Default)]
pub struct Obj { pub props: Vec<(N, V)>, pub proto: Option<(usize, bool)> }
#[derive(Default)]
pub struct Rd { pub data: Vec<u8>, pub pos: usize, pub failed: bool }
#[derive(Default)]
pub struct Wr { pub out: Vec<u8> }

pub const THROWS: &str = "generated code throws";
pub const UNKNOWN: &str = "generated code uses an unknown operation";
/// loops longer than this are cut off
pub static mut LOOPS: usize = 8;

enum Flow { Next, Break, Continue, Return(V) }
pub enum Cut { Bad(&'static str), TooLong, FailedLoop(i64) }
type X<T> = Result<T, Cut>;
fn bad<T>(s: &'static str) -> X<T> { Err(Cut::Bad(s)) }

pub struct Vm<'m> { pub m: &'m Module, scopes: Vec<Vec<(N, Option<V>)>>, this: V, reader: Option<Rc<RefCell<Rd>>> }

impl<'m> Vm<'m> {
    pub fn new(m: &'m Module) -> Vm<'m> { Vm { m, scopes: vec![], this: V::Undef, reader: None } }
    fn class(&self, n: &[u8]) -> Option<usize> { self.m.classes.iter().position(|c| &c.name[..] == n) }

    /// call a method of class c
    pub fn call(&mut self, c: usize, name: &str, stat: bool, this: V, args: Vec<V>) -> X<V> {
        let m = match self.m.classes[c].methods.iter().find(|m| m.stat == stat && is(&m.name, name)) { Some(m) => m, None => return bad("generated class lacks a method") };
        let saved = std::mem::replace(&mut self.scopes, vec![vec![]]);
        let st = std::mem::replace(&mut self.this, this);
        for (i, p) in m.params.iter().enumerate() {
            let v = args.get(i).cloned().unwrap_or(V::Undef);
            self.scopes[0].push((p.0.clone(), Some(v)));
        }
        let r = self.list(&m.body);
        self.scopes = saved;
        self.this = st;
        match r? { Flow::Return(v) => Ok(v), _ => Ok(V::Undef) }
    }
    fn list(&mut self, b: &[S]) -> X<Flow> {
        for s in b {
            match self.stmt(s)? { Flow::Next => {} f => return Ok(f) }
        }
        Ok(Flow::Next)
    }
    fn block(&mut self, b: &[S]) -> X<Flow> {
        self.scopes.push(vec![]);
        let r = self.list(b);
        self.scopes.pop();
        r
    }
    fn stmt(&mut self, s: &S) -> X<Flow> {
        match s {
            S::Let(n, e) => {
                let v = match e { Some(e) => self.ev(e)?, None => V::Undef };
                self.scopes.last_mut().unwrap().push((n.clone(), Some(v)));
            }
            S::Expr(e) => { self.ev(e)?; }
            S::If(c, a, b) => {
                let c = self.ev(c)?;
                if truth(&c)? { return self.stmt(a); }
                if let Some(b) = b { return self.stmt(b); }
            }
            S::Block(b) => return self.block(b),
            S::For(init, c, st, b) => {
                self.scopes.push(vec![]);
                let r = (|| {
                    if let Some(i) = init { self.stmt(i)?; }
                    let mut n = 0;
                    loop {
                        if let Some(c) = c {
                            let v = self.ev(c)?;
                            if !truth(&v)? { break; }
                            if let Some(r) = &self.reader {
                                if r.borrow().failed {
                                    // nothing but failing reads from here on; how many more rounds?
                                    let left = if let E::Bin("<", a, b) = c { match (self.ev(a)?, self.ev(b)?) { (V::Num(a), V::Num(b)) => b - a, _ => return bad(UNKNOWN) } } else { return bad(UNKNOWN) };
                                    return Err(Cut::FailedLoop(left));
                                }
                            }
                        }
                        n += 1;
                        if n > unsafe { LOOPS } { return self.long(); }
                        match self.stmt(b)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                        if let Some(s) = st { self.ev(s)?; }
                    }
                    Ok(Flow::Next)
                })();
                self.scopes.pop();
                return r;
            }
            S::ForOf(n, e, b) => {
                let items = match self.ev(e)? { V::Arr(a) => a.borrow().items.clone(), _ => return bad(THROWS) };
                for v in items {
                    self.scopes.push(vec![(n.clone(), Some(v))]);
                    let r = self.stmt(b);
                    self.scopes.pop();
                    match r? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                }
            }
            S::While(c, b) => {
                let mut n = 0;
                loop {
                    let v = self.ev(c)?;
                    if !truth(&v)? { break; }
                    n += 1;
                    if n > unsafe { LOOPS } { return self.long(); }
                    match self.stmt(b)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                }
            }
            S::Switch(c, cs) => {
                let v = self.ev(c)?;
                let mut hit = None;
                for (i, (e, _)) in cs.iter().enumerate() {
                    if let Some(e) = e { let w = self.ev(e)?; if strict(&v, &w)? { hit = Some(i); break; } }
                }
                let hit = match hit { Some(i) => Some(i), None => cs.iter().position(|c| c.0.is_none()) };
                if let Some(h) = hit {
                    self.scopes.push(vec![]);
                    let mut out = Ok(Flow::Next);
                    for (_, b) in &cs[h..] {
                        match self.list(b) { Ok(Flow::Next) => {} Ok(Flow::Break) => break, r => { out = r; break; } }
                    }
                    self.scopes.pop();
                    return out;
                }
            }
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
            S::Return(e) => { let v = match e { Some(e) => self.ev(e)?, None => V::Undef }; return Ok(Flow::Return(v)); }
            S::Throw(_) => return bad(THROWS),
            S::Empty => {}
        }
        Ok(Flow::Next)
    }
    fn long(&self) -> X<Flow> {
        Err(Cut::TooLong)
    }
    fn lookup(&self, n: &N) -> X<V> {
        for s in self.scopes.iter().rev() {
            for (k, v) in s.iter().rev() { if k[..] == n[..] { return match v { Some(v) => Ok(v.clone()), None => bad(THROWS) }; } }
        }
        if let Some(c) = self.class(n) { return Ok(V::Class(c)); }
        if is(n, "Reader") && self.m.imports.iter().any(|i| is(i, "Reader")) { return Ok(V::Lib("Reader")); }
        if is(n, "Writer") && self.m.imports.iter().any(|i| is(i, "Writer")) { return Ok(V::Lib("Writer")); }
        if is(n, "Object") { return Ok(V::Lib("Object")); }
        if is(n, "Array") { return Ok(V::Lib("Array")); }
        bad(THROWS)
    }
    pub fn ev(&mut self, e: &E) -> X<V> {
        Ok(match e {
            E::Num(n) => V::Num(*n),
            E::Str(s) => V::Str(s.clone()),
            E::Undef => V::Undef,
            E::Null => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::This => self.this.clone(),
            E::Id(n) => self.lookup(n)?,
            E::Mem(o, n) => { let o = self.ev(o)?; self.get(&o, n)? }
            E::Idx(o, i) => {
                let o = self.ev(o)?;
                let i = self.ev(i)?;
                match (&o, &i) {
                    (V::Arr(a), V::Num(i)) => { let a = a.borrow(); if *i >= 0 && (*i as usize) < a.items.len() { a.items[*i as usize].clone() } else { V::Undef } }
                    (V::Obj(_), V::Str(s)) => self.get(&o, s)?,
                    (V::Undef, _) | (V::Null, _) => return bad(THROWS),
                    _ => return bad(UNKNOWN),
                }
            }
            E::New(c, a) => {
                let c = self.ev(c)?;
                let a = self.evs(a)?;
                match &c {
                    V::Lib("Reader") => match a.get(0) {
                        Some(V::Buf(b)) => { let r = Rc::new(RefCell::new(Rd { data: b.to_vec(), pos: 0, failed: false })); self.reader = Some(r.clone()); V::Reader(r) }
                        _ => return bad(THROWS),
                    },
                    V::Lib("Writer") => match a.get(0) { None | Some(V::Undef) | Some(V::Buf(_)) => V::Writer(Rc::new(RefCell::new(Wr::default()))), _ => return bad(THROWS) },
                    V::Lib("Array") => match a.get(0) { None => V::Arr(Default::default()), Some(V::Num(n)) if a.len() == 1 => V::Arr(Rc::new(RefCell::new(Arr { len: *n, items: vec![] }))), _ => return bad(UNKNOWN) },
                    V::Lib("Object") => V::Obj(Default::default()),
                    V::Class(k) => {
                        let mut o = Obj { props: vec![], proto: Some((*k, true)) };
                        for (i, f) in self.m.classes[*k].fields.iter().enumerate() { o.props.push((f.0.clone(), a.get(i).cloned().unwrap_or(V::Undef))); }
                        V::Obj(Rc::new(RefCell::new(o)))
                    }
                    _ => return bad(THROWS),
                }
            }
            E::Call(f, a) => {
                match &**f {
                    E::Mem(o, n) => {
                        let o = self.ev(o)?;
                        let a = self.evs(a)?;
                        self.method(&o, n, a)?
                    }
                    _ => return bad(THROWS),
                }
            }
            E::Un(op, x) => {
                let v = self.ev(x)?;
                match (*op, &v) {
                    ("!", _) => V::Bool(!truth(&v)?),
                    ("-", V::Num(n)) => V::Num(-*n),
                    ("+", V::Num(n)) => V::Num(*n),
                    ("~", V::Num(n)) => V::Num(!(*n as i32) as i64),
                    _ => return bad(UNKNOWN),
                }
            }
            E::Inc(x, d, pre) => {
                let v = match self.ev(x)? { V::Num(n) => n, _ => return bad(UNKNOWN) };
                self.set(x, V::Num(v + d))?;
                V::Num(if *pre { v + d } else { v })
            }
            E::And(a, b) => { let v = self.ev(a)?; if truth(&v)? { self.ev(b)? } else { v } }
            E::Or(a, b) => { let v = self.ev(a)?; if truth(&v)? { v } else { self.ev(b)? } }
            E::Nul(a, b) => { let v = self.ev(a)?; match v { V::Undef | V::Null => self.ev(b)?, v => v } }
            E::Cond(c, a, b) => { let v = self.ev(c)?; if truth(&v)? { self.ev(a)? } else { self.ev(b)? } }
            E::Assign(op, l, r) => {
                let v = if *op == "=" { self.ev(r)? } else {
                    let a = self.ev(l)?;
                    let b = self.ev(r)?;
                    bin(&op[..op.len() - 1], &a, &b)?
                };
                self.set(l, v.clone())?;
                v
            }
            E::Bin(op, a, b) => { let a = self.ev(a)?; let b = self.ev(b)?; bin(op, &a, &b)? }
            E::Obj(ps) => {
                let mut o = Obj::default();
                for (n, e) in ps { let v = self.ev(e)?; o.props.push((n.clone(), v)); }
                V::Obj(Rc::new(RefCell::new(o)))
            }
            E::Arr(es) => { let items = self.evs(es)?; V::Arr(Rc::new(RefCell::new(Arr { len: items.len() as i64, items }))) }
        })
    }
    fn evs(&mut self, es: &[E]) -> X<Vec<V>> { let mut v = Vec::new(); for e in es { v.push(self.ev(e)?) } Ok(v) }
    fn get(&mut self, o: &V, n: &N) -> X<V> {
        Ok(match o {
            V::Obj(o) => {
                let o = o.borrow();
                for (k, v) in o.props.iter() { if k[..] == n[..] { return Ok(v.clone()); } }
                V::Undef
            }
            V::Arr(a) if is(n, "length") => V::Num(a.borrow().len),
            V::Str(s) if is(n, "length") => V::Num(s.len() as i64),
            V::Reader(r) if is(n, "failed") => V::Bool(r.borrow().failed),
            V::Class(c) if is(n, "prototype") => V::Obj(Rc::new(RefCell::new(Obj { props: vec![], proto: Some((*c, true)) }))),
            V::Undef | V::Null => return bad(THROWS),
            V::Num(_) | V::Flt(_) | V::Bool(_) | V::Arr(_) | V::Str(_) => V::Undef,
            _ => return bad(UNKNOWN),
        })
    }
    fn set(&mut self, l: &E, v: V) -> X<()> {
        match l {
            E::Id(n) => {
                for s in self.scopes.iter_mut().rev() {
                    for (k, w) in s.iter_mut().rev() { if k[..] == n[..] { *w = Some(v); return Ok(()); } }
                }
                bad(THROWS)
            }
            E::Mem(o, n) => {
                let o = self.ev(o)?;
                match &o {
                    V::Obj(o) => {
                        let mut o = o.borrow_mut();
                        for (k, w) in o.props.iter_mut() { if k[..] == n[..] { *w = v; return Ok(()); } }
                        // own properties of a function that cannot be assigned through an heir
                        if let Some((_, false)) = o.proto {
                            for p in ["name", "length", "prototype", "caller", "arguments"].iter() { if is(n, p) { return bad("reading a field named like a read-only property of a class throws"); } }
                        }
                        if is(n, "__proto__") { return bad("a field named __proto__ is lost"); }
                        o.props.push((n.clone(), v));
                        Ok(())
                    }
                    V::Reader(r) if is(n, "failed") => { let t = truth(&v)?; r.borrow_mut().failed = t; Ok(()) }
                    V::Undef | V::Null => bad(THROWS),
                    _ => bad(UNKNOWN),
                }
            }
            E::Idx(o, i) => {
                let o = self.ev(o)?;
                let i = self.ev(i)?;
                match (&o, &i) {
                    (V::Arr(a), V::Num(i)) => {
                        let mut a = a.borrow_mut();
                        let k = *i as usize;
                        if *i < 0 || k > 1024 { return bad(UNKNOWN); }
                        while a.items.len() <= k { a.items.push(V::Undef); }
                        a.items[k] = v;
                        if a.len <= *i { a.len = *i + 1; }
                        Ok(())
                    }
                    (V::Undef, _) | (V::Null, _) => bad(THROWS),
                    _ => bad(UNKNOWN),
                }
            }
            _ => bad(UNKNOWN),
        }
    }
    fn method(&mut self, o: &V, n: &N, a: Vec<V>) -> X<V> {
        match o {
            V::Lib("Object") if is(n, "create") => match a.get(0) {
                Some(V::Class(c)) => Ok(V::Obj(Rc::new(RefCell::new(Obj { props: vec![], proto: Some((*c, false)) })))),
                Some(V::Obj(p)) => { let pr = p.borrow().proto; Ok(V::Obj(Rc::new(RefCell::new(Obj { props: vec![], proto: pr })))) }
                Some(V::Null) => Ok(V::Obj(Default::default())),
                _ => bad(THROWS),
            },
            V::Arr(arr) if is(n, "push") => {
                let mut x = arr.borrow_mut();
                for v in a { x.items.push(v); x.len += 1; }
                Ok(V::Num(x.len))
            }
            V::Reader(r) => {
                let mut r = r.borrow_mut();
                let (w, sg) = match &n[..] {
                    b"read_uint8" => (1, false), b"read_uint16" => (2, false), b"read_uint32" => (4, false),
                    b"read_int8" => (1, true), b"read_int16" => (2, true), b"read_int32" => (4, true),
                    b"read_float" => (4, false),
                    b"read_string" => {
                        let l = match a.get(0) { Some(V::Num(n)) => *n, _ => return bad(THROWS) };
                        let rest = (r.data.len() - r.pos) as i64;
                        if r.failed || l > rest { r.failed = true; return Ok(V::Str(Rc::new(vec![]))); }
                        let l = sx::conc(l as u32) as usize;
                        let s = r.data[r.pos..r.pos + l].to_vec();
                        r.pos += l;
                        return Ok(V::Str(Rc::new(s)));
                    }
                    _ => return bad(THROWS),
                };
                if r.failed || r.pos + w > r.data.len() {
                    r.failed = true;
                    return Ok(if is(n, "read_float") { V::Flt(0) } else { V::Num(0) });
                }
                let mut x: u32 = 0;
                for i in 0..w { x |= (r.data[r.pos + i] as u32) << (8 * i); }
                r.pos += w;
                if is(n, "read_float") { return Ok(V::Flt(x)); }
                Ok(V::Num(match (w, sg) { (1, true) => x as u8 as i8 as i64, (2, true) => x as u16 as i16 as i64, (4, true) => x as i32 as i64, _ => x as i64 }))
            }
            V::Writer(w) => {
                let mut w = w.borrow_mut();
                if is(n, "finish") { return Ok(V::Buf(Rc::new(w.out.clone()))); }
                let v = match a.get(0) { Some(v) => v.clone(), None => return bad(THROWS) };
                if is(n, "write_string") {
                    match v { V::Str(s) => w.out.extend_from_slice(&s), _ => return bad(THROWS) }
                    return Ok(V::Undef);
                }
                if is(n, "write_float") {
                    let b = match v { V::Flt(b) => b, _ => return bad("a non-float is written as float") };
                    for i in 0..4 { w.out.push((b >> (8 * i)) as u8); }
                    return Ok(V::Undef);
                }
                let k = match &n[..] { b"write_uint8" | b"write_int8" => 1, b"write_uint16" | b"write_int16" => 2, b"write_uint32" | b"write_int32" => 4, _ => return bad(THROWS) };
                let x = match v { V::Num(n) => n, V::Flt(_) => return bad("a float is written as integer"), _ => return bad("a value that is no number is written as a number") };
                for i in 0..k { w.out.push((x >> (8 * i)) as u8); }
                Ok(V::Undef)
            }
            V::Undef | V::Null => bad(THROWS),
            _ => bad(UNKNOWN),
        }
    }
}
fn truth(v: &V) -> X<bool> {
    Ok(match v {
        V::Undef | V::Null => false,
        V::Bool(b) => *b,
        V::Num(n) => *n != 0,
        V::Str(s) => !s.is_empty(),
        V::Flt(_) => return bad(UNKNOWN),
        _ => true,
    })
}
fn strict(a: &V, b: &V) -> X<bool> {
    Ok(match (a, b) {
        (V::Undef, V::Undef) | (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Num(x), V::Num(y)) => x == y,
        (V::Str(x), V::Str(y)) => x[..] == y[..],
        (V::Flt(_), V::Flt(_)) => return bad(UNKNOWN),
        (V::Obj(x), V::Obj(y)) => Rc::ptr_eq(x, y),
        (V::Arr(x), V::Arr(y)) => Rc::ptr_eq(x, y),
        (V::Flt(_), V::Num(_)) | (V::Num(_), V::Flt(_)) => return bad(UNKNOWN),
        _ => false,
    })
}
fn bin(op: &str, a: &V, b: &V) -> X<V> {
    match op {
        "===" => return Ok(V::Bool(strict(a, b)?)),
        "!==" => return Ok(V::Bool(!strict(a, b)?)),
        "==" | "!=" => {
            let nul = |v: &V| matches!(v, V::Undef | V::Null);
            let q = if nul(a) || nul(b) { nul(a) && nul(b) } else { strict(a, b)? };
            return Ok(V::Bool(q == (op == "==")));
        }
        _ => {}
    }
    let (x, y) = match (a, b) { (V::Num(x), V::Num(y)) => (*x, *y), _ => return bad(UNKNOWN) };
    Ok(match op {
        "<" => V::Bool(x < y), "<=" => V::Bool(x <= y), ">" => V::Bool(x > y), ">=" => V::Bool(x >= y),
        "+" => V::Num(x + y), "-" => V::Num(x - y), "*" => V::Num(x * y),
        "&" => V::Num(((x as i32) & (y as i32)) as i64), "|" => V::Num(((x as i32) | (y as i32)) as i64), "^" => V::Num(((x as i32) ^ (y as i32)) as i64),
        "<<" => V::Num((x as i32).wrapping_shl(y as u32 & 31) as i64),
        ">>" => V::Num((x as i32).wrapping_shr(y as u32 & 31) as i64),
        ">>>" => V::Num((x as u32).wrapping_shr(y as u32 & 31) as i64),
        _ => return bad(UNKNOWN),
    })
}
/// value of a constant expression
pub fn constant(m: &Module, e: &E) -> Option<i64> { match Vm::new(m).ev(e) { Ok(V::Num(n)) => Some(n), _ => None } }
