//! C09-C14: schemas through the whole compiler, the generated TypeScript evaluated on symbolic values and bytes.
use crate::refparse::RItem;
use crate::sx;
use crate::tsm::{self, nm, Cut, Decl, Module, Obj, Ty as TsTy, Vm, E, N, S, V};
use crate::types::{self, body};
use std::cell::RefCell;
use std::rc::Rc;

pub const B: [&str; 8] = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"];
#[derive(Clone)]
pub enum Ty { B(usize), E(Vec<u8>, usize), S(Vec<u8>, Vec<Fd>) }
#[derive(Clone)]
pub struct Fd { pub name: Vec<u8>, pub ty: Ty, pub arr: bool, pub opt: bool }
/// an exported struct
#[derive(Clone)]
pub struct Sch { pub name: Vec<u8>, pub fields: Vec<Fd> }

pub fn fd(name: &str, ty: Ty, mark: u32) -> Fd { Fd { name: name.as_bytes().to_vec(), ty, arr: mark & 1 == 1, opt: mark & 2 == 2 } }
fn tname(t: &Ty) -> Vec<u8> { match t { Ty::B(b) => B[*b].as_bytes().to_vec(), Ty::E(n, _) => n.clone(), Ty::S(n, _) => n.clone() } }
/// symbolic names of the first variants, if wanted
static mut VARIANTS: Vec<Vec<u8>> = Vec::new();
/// variant names of different lengths, in no alphabetical order
pub fn variant(i: usize) -> Vec<u8> {
    let v = unsafe { &*std::ptr::addr_of!(VARIANTS) };
    if i < v.len() { return v[i].clone(); }
    format!("{}{:02}", ["variant", "V", "_v"][i % 3], (i * 19 + 5) % 32).into_bytes()
}
/// the first k variants of all enums get any names of n bytes and more
fn any_variants(k: usize, n: usize) {
    let mut v: Vec<Vec<u8>> = Vec::new();
    for i in 0..k {
        let x = ident(n + i % 2, "variant name");
        assume_plain(&x);
        assume_free(&x);
        for y in &v { sx::assume(!sx::same(&x, y)) }
        for j in k..32 { sx::assume(!sx::same(&x, &variant(j))) }
        v.push(x);
    }
    unsafe { VARIANTS = v }
}
fn field_text(f: &[Fd], out: &mut Vec<u8>) {
    for x in f {
        out.extend_from_slice(&x.name);
        out.extend_from_slice(if x.opt { b"?: " } else { b": " });
        out.extend_from_slice(&tname(&x.ty));
        out.extend_from_slice(if x.arr { b"[], " } else { b", " });
    }
}
fn decl_text(f: &[Fd], done: &mut Vec<Vec<u8>>, out: &mut Vec<u8>) {
    for x in f {
        let n = tname(&x.ty);
        match &x.ty {
            Ty::B(_) => continue,
            _ => { if done.iter().any(|d| *d == n) { continue; } }
        }
        done.push(n.clone());
        match &x.ty {
            Ty::E(_, k) => {
                out.extend_from_slice(&n);
                out.extend_from_slice(b": enum { ");
                for i in 0..*k { out.extend_from_slice(&variant(i)); out.extend_from_slice(b", "); }
                out.extend_from_slice(b"}\n");
            }
            Ty::S(_, fs) => {
                decl_text(fs, done, out);
                out.extend_from_slice(&n);
                out.extend_from_slice(b": struct { ");
                field_text(fs, out);
                out.extend_from_slice(b"}\n");
            }
            Ty::B(_) => {}
        }
    }
}
pub fn schema_text(s: &Sch) -> Vec<u8> {
    let mut out = Vec::new();
    decl_text(&s.fields, &mut Vec::new(), &mut out);
    out.extend_from_slice(&s.name);
    out.extend_from_slice(b": struct { ");
    field_text(&s.fields, &mut out);
    out.extend_from_slice(b"}\nexport ");
    out.extend_from_slice(&s.name);
    out.push(b'\n');
    out
}
pub fn compile(text: &[u8]) -> Option<String> {
    packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(types::leak(text)).ok()
}

/// the same schema as a parse result
pub fn model(s: &Sch) -> types::M {
    fn fs(f: &[Fd]) -> Vec<types::F> { f.iter().map(|f| types::F { name: f.name.clone(), ty: tname(&f.ty), arr: f.arr, opt: f.opt }).collect() }
    let mut used = Vec::new();
    collect(&s.fields, &mut used);
    let mut m = types::M::default();
    for t in used {
        m.decls.push(types::D { name: tname(t), k: match t { Ty::S(_, f) => types::K::S(fs(f)), Ty::E(_, n) => types::K::E((0..*n).map(variant).collect()), Ty::B(_) => continue } });
    }
    m.decls.push(types::D { name: s.name.clone(), k: types::K::S(fs(&s.fields)) });
    m.exports.push(s.name.clone());
    m
}
/// module generated for a parse result (names are not looked at by the parser)
pub fn module_ast(s: &Sch) -> (String, Module) {
    let r = match packetc_lib::check::type_check(types::ast(&model(s))) { Ok(r) => r, Err(_) => sx::fail("well-formed schema is not compiled") };
    let text = packetc_lib::gen::generate::<packetc_lib::gen::ts::TypeScript>(&r);
    job("check", s, &text, &|| "null".to_string(), b"");
    match tsm::parse(body(&text)) { Ok(m) => (text, m), Err(_) => sx::fail("generated module cannot be read") }
}

// ------------------------------------------------------------ schemas
const SIZES: [usize; 10] = [1, 2, 3, 8, 9, 15, 16, 17, 31, 32];
fn st(name: &str, f: Vec<Fd>) -> Ty { Ty::S(name.as_bytes().to_vec(), f) }
fn en(name: &str, n: usize) -> Ty { Ty::E(name.as_bytes().to_vec(), n) }
/// plain, array or optional (both at once is refused by the compiler)
fn mark() -> u32 { sx::pick(3, "array or optional") }
/// small menu of types for position `at`
fn menu(at: &str) -> Ty {
    match sx::pick(4, "type") {
        0 => Ty::B(1),
        1 => Ty::B(7),
        2 => en("En", 3),
        _ => st(at, vec![fd("m", Ty::B(0), 0)]),
    }
}
/// params: p0 template
pub fn template(k: u64) -> Sch {
    let fields = match k {
        // one field of any type
        0 => {
            let t = sx::pick(8 + SIZES.len() as u32 + 3, "type") as usize;
            let ty = if t < 8 { Ty::B(t) }
                else if t < 8 + SIZES.len() { en("En", SIZES[t - 8]) }
                else if t == 8 + SIZES.len() { st("In", vec![]) }
                else if t == 9 + SIZES.len() { st("In", vec![fd("m", Ty::B(5), 0), fd("n", Ty::B(0), 0)]) }
                else { st("In", vec![fd("m", Ty::B(7), 0), fd("n", en("En", 2), 0)]) };
            vec![fd("a", ty, mark())]
        }
        // two fields
        1 => {
            let x = menu("Ax");
            let mx = mark();
            let y = menu("Bx");
            let my = mark();
            vec![fd("q", x, mx), fd("b", y, my)]
        }
        // a marked field inside a marked struct, followed by another field
        2 => {
            let x = menu("Cx");
            let mx = mark();
            vec![fd("q", st("In", vec![fd("y", x, mx), fd("d", Ty::B(0), 0)]), mark()), fd("b", Ty::B(0), 0)]
        }
        // two levels of structs
        3 => {
            let x = menu("Cx");
            let mx = mark();
            vec![fd("a", st("Mid", vec![fd("c", st("In", vec![fd("d", x, mx)]), mark())]), mark())]
        }
        // one type used twice
        4 => {
            let x = menu("Cx");
            let mx = mark();
            let t = st("In", vec![fd("c", x, mx)]);
            vec![fd("q", t.clone(), mark()), fd("b", t, mark())]
        }
        // no fields
        5 => vec![],
        // three fields with plain types
        6 => (0..3).map(|i| fd(["q", "_b", "Ac"][i], Ty::B([0, 6, 7][sx::pick(3, "type") as usize]), mark())).collect(),
        // three levels
        7 => {
            let x = menu("Dx");
            let mx = mark();
            vec![fd("a", st("Mid", vec![fd("c", st("In", vec![fd("d", st("Low", vec![fd("e", x, mx)]), mark())]), mark())]), mark())]
        }
        // many fields with names of different lengths
        9 => {
            let names = ["z", "bb", "A", "_", "field_with_a_longer_name", "b", "a1", "Zz", "y9", "c"];
            let kinds = [0, 7, 3, 6, 1, 5, 7, 2, 4, 0];
            let at = sx::pick(names.len() as u32, "marked field") as usize;
            let mk = mark();
            (0..names.len()).map(|i| fd(names[i], Ty::B(kinds[i]), if i == at { mk } else { 0 })).collect()
        }
        // several enums and structs, shared at different depths
        10 => {
            let (e1, e2, e3) = (en("Big", 20), en("Mid", 9), en("Abc", 2));
            let low = st("Low", vec![fd("v", e1.clone(), mark()), fd("a", e3.clone(), 0)]);
            let mid = st("Node", vec![fd("t", e2, 0), fd("k", low.clone(), mark()), fd("j", e3, 0)]);
            vec![fd("o", low, 0), fd("n", mid, mark()), fd("c", e1, 0)]
        }
        // five levels
        11 => {
            let mut t = st("L0", vec![fd("u", Ty::B(7), mark()), fd("e", Ty::B(1), 0)]);
            for i in 1..5 { t = st(["", "L1", "K2", "M3", "A4"][i], vec![fd(["", "z", "f", "q", "b"][i], t, if i % 2 == 1 { 0 } else { mark() }), fd("x", Ty::B(0), 0)]); }
            vec![fd("r", t, 0), fd("d", Ty::B(3), 0)]
        }
        // many fields
        12 => (0..130).map(|i| fd(&format!("{}{}", ["z", "b", "m"][i % 3], (i * 23 + 7) % 130), Ty::B(if i < 16 || i > 125 { [0, 3, 7, 1][i % 4] } else { [2, 4, 5, 6][i % 4] }), 0)).collect(),
        // twelve levels
        13 => {
            let mut t = st("T00", vec![fd("u", Ty::B(0), mark())]);
            for i in 1..12 { t = st(&format!("T{:02}", (i * 5) % 12), vec![fd(&format!("f{}", (i * 7) % 12), t, 0), fd("a", Ty::B(0), 0)]); }
            vec![fd("r", t, mark())]
        }
        // all kinds of types and marks next to each other
        14 => {
            let e = en("Kind", 9);
            let s = st("Item", vec![fd("z", Ty::B(0), 0), fd("k", en("Kind", 9), 0)]);
            vec![fd("q", e.clone(), 1), fd("c", Ty::B(0), 0), fd("p", e.clone(), 2), fd("b", s.clone(), 1), fd("o", Ty::B(3), 0), fd("a", s.clone(), 2), fd("n", Ty::B(7), 1), fd("d", s, 0), fd("m", Ty::B(7), 2), fd("e", e, 0)]
        }
        // enum sizes
        _ => { let n = 1 + sx::pick(32, "variants") as usize; vec![fd("a", en("En", n), mark())] }
    };
    Sch { name: b"Msg".to_vec(), fields }
}

// ------------------------------------------------------------ values
#[derive(Clone)]
pub enum W { Int(i64), Flt(u32), Str(Vec<u8>), Struct(Vec<W>), Arr(Vec<W>), Absent }
fn le(b: &[u8]) -> u32 { let mut x = 0u32; for i in 0..b.len() { x |= (b[i] as u32) << (8 * i) } x }
fn signed(t: usize, x: u32) -> i64 { match t { 3 => x as u8 as i8 as i64, 4 => x as u16 as i16 as i64, 5 => x as i32 as i64, _ => x as i64 } }
fn width(t: usize) -> usize { [1, 2, 4, 1, 2, 4, 4][t] }
fn ewidth(n: usize) -> usize { if n <= 8 { 1 } else if n <= 16 { 2 } else { 4 } }
fn value1(t: &Ty, items: u32) -> W {
    match t {
        Ty::B(7) => {
            let n = sx::pick(items + 1, "string length") as usize;
            let b = sx::bytes(n, "string");
            for x in &b { sx::assume(*x < 128) }
            W::Str(b)
        }
        Ty::B(6) => W::Flt(le(&sx::bytes(4, "float"))),
        Ty::B(t) => W::Int(signed(*t, le(&sx::bytes(width(*t), "number")))),
        Ty::E(_, n) => W::Int(1i64 << sx::choice(*n as u32, "variant")),
        Ty::S(_, f) => W::Struct(f.iter().map(|f| value(f, items)).collect()),
    }
}
fn value(f: &Fd, items: u32) -> W {
    if f.opt && sx::pick(2, "present") == 0 { return W::Absent; }
    if f.arr { return W::Arr((0..sx::pick(items + 1, "array length")).map(|_| value1(&f.ty, 1)).collect()); }
    value1(&f.ty, items)
}
fn to_v1(t: &Ty, w: &W) -> V {
    match (t, w) {
        (_, W::Int(n)) => V::Num(*n),
        (_, W::Flt(n)) => V::Flt(*n),
        (_, W::Str(s)) => V::Str(Rc::new(s.clone())),
        (Ty::S(_, f), W::Struct(w)) => V::Obj(Rc::new(RefCell::new(Obj { props: props(f, w, false), proto: None }))),
        _ => V::Undef,
    }
}
fn to_v(f: &Fd, w: &W, null: bool) -> V {
    match w {
        W::Absent => if null { V::Null } else { V::Undef },
        W::Arr(a) => V::Arr(Rc::new(RefCell::new(tsm::Arr { len: a.len() as i64, items: a.iter().map(|x| to_v1(&f.ty, x)).collect() }))),
        w => to_v1(&f.ty, w),
    }
}
fn props(f: &[Fd], w: &[W], null: bool) -> Vec<(N, V)> { f.iter().zip(w).map(|(f, w)| (Rc::new(f.name.clone()), to_v(f, w, null))).collect() }
/// the documented layout
fn enc(f: &[Fd], w: &[W], out: &mut Vec<u8>) {
    fn le4(n: usize, out: &mut Vec<u8>) { for i in 0..4 { out.push((n >> (8 * i)) as u8) } }
    fn one(t: &Ty, w: &W, out: &mut Vec<u8>) {
        match (t, w) {
            (Ty::B(t), W::Int(n)) => for i in 0..width(*t) { out.push((*n >> (8 * i)) as u8) },
            (Ty::E(_, k), W::Int(n)) => for i in 0..ewidth(*k) { out.push((*n >> (8 * i)) as u8) },
            (_, W::Flt(n)) => for i in 0..4 { out.push((*n >> (8 * i)) as u8) },
            (_, W::Str(s)) => { le4(s.len(), out); out.extend_from_slice(s) }
            (Ty::S(_, f), W::Struct(w)) => enc(f, w, out),
            _ => {}
        }
    }
    for (f, w) in f.iter().zip(w) {
        if f.opt { out.push(!matches!(w, W::Absent) as u8) }
        match w {
            W::Absent => {}
            W::Arr(a) => { le4(a.len(), out); for x in a { one(&f.ty, x, out) } }
            w => one(&f.ty, w, out),
        }
    }
}
/// the value the layout assigns to the bytes; Err(true): no value, Err(false): beyond the bounds
pub struct Dec<'a> { b: &'a [u8], at: usize, pub lenient: bool }
const ITEMS: usize = 6;
impl<'a> Dec<'a> {
    fn num(&mut self, n: usize) -> Result<u32, bool> {
        if self.at + n > self.b.len() { return Err(true); }
        self.at += n;
        Ok(le(&self.b[self.at - n..self.at]))
    }
    fn one(&mut self, t: &Ty) -> Result<W, bool> {
        Ok(match t {
            Ty::B(7) => {
                let n = self.num(4)? as usize;
                if n > self.b.len() - self.at { return Err(true); }
                let n = sx::conc(n as u32) as usize;
                self.at += n;
                W::Str(self.b[self.at - n..self.at].to_vec())
            }
            Ty::B(6) => W::Flt(self.num(4)?),
            Ty::B(t) => { let x = self.num(width(*t))?; W::Int(signed(*t, x)) }
            Ty::E(_, n) => {
                let x = self.num(ewidth(*n))? as i64;
                let ok = (x != 0) & (x & (x.wrapping_sub(1)) == 0) & (x < 1i64 << *n);
                if !ok { return Err(true); }
                W::Int(x)
            }
            Ty::S(_, f) => W::Struct(self.all(f)?),
        })
    }
    pub fn all(&mut self, f: &[Fd]) -> Result<Vec<W>, bool> {
        let mut out = Vec::new();
        for f in f {
            if f.opt {
                let p = self.num(1)?;
                if p == 0 { out.push(W::Absent); continue; }
                self.lenient |= p > 1;
            }
            if f.arr {
                let n = self.num(4)?;
                let mut a = Vec::new();
                while (a.len() as u32) < n {
                    if a.len() > ITEMS { return Err(false); }
                    a.push(self.one(&f.ty)?);
                }
                out.push(W::Arr(a));
            } else { out.push(self.one(&f.ty)?) }
        }
        Ok(out)
    }
}
fn same_w(f: &[Fd], a: &[W], b: &[W]) -> bool {
    fn one(t: &Ty, a: &W, b: &W) -> bool {
        match (t, a, b) {
            (_, W::Int(x), W::Int(y)) => *x == *y,
            (_, W::Flt(x), W::Flt(y)) => *x == *y,
            (_, W::Str(x), W::Str(y)) => sx::same(x, y),
            (Ty::S(_, f), W::Struct(x), W::Struct(y)) => same_w(f, x, y),
            _ => false,
        }
    }
    let mut r = a.len() == b.len();
    for ((f, x), y) in f.iter().zip(a).zip(b) {
        r &= match (x, y) {
            (W::Absent, W::Absent) => true,
            (W::Arr(x), W::Arr(y)) => { let mut q = x.len() == y.len(); for (x, y) in x.iter().zip(y) { q &= one(&f.ty, x, y) } q }
            (W::Absent, _) | (_, W::Absent) | (W::Arr(_), _) | (_, W::Arr(_)) => false,
            (x, y) => one(&f.ty, x, y),
        };
    }
    r
}
/// v is the value w, as one formula per field
fn same_value(f: &[Fd], w: &[W], v: &V, sig: &str) {
    fn one(t: &Ty, w: &W, v: &V, sig: &str) {
        match (t, w, v) {
            (_, W::Int(a), V::Num(b)) => sx::check(*a == *b, sig),
            (_, W::Flt(a), V::Flt(b)) => sx::check(*a == *b, sig),
            (_, W::Str(a), V::Str(b)) => sx::check(sx::same(a, b), sig),
            (Ty::S(_, f), W::Struct(w), v) => same_value(f, w, v, sig),
            _ => sx::fail(sig),
        }
    }
    let o = match v { V::Obj(o) => o.borrow(), _ => sx::fail(sig) };
    sx::check(o.props.len() == f.len(), sig);
    for (f, w) in f.iter().zip(w) {
        let p = match o.props.iter().find(|p| *p.0 == f.name) { Some(p) => &p.1, None => sx::fail(sig) };
        match (w, p) {
            (W::Absent, V::Undef) | (W::Absent, V::Null) => {}
            (W::Arr(a), V::Arr(b)) => {
                let b = b.borrow();
                sx::check(b.len == a.len() as i64, sig);
                sx::check(b.items.len() == a.len(), sig);
                for (x, y) in a.iter().zip(b.items.iter()) { one(&f.ty, x, y, sig) }
            }
            (W::Absent, _) | (W::Arr(_), _) => sx::fail(sig),
            (w, p) => one(&f.ty, w, p, sig),
        }
    }
}

// ------------------------------------------------------------ jobs for the real toolchain
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn json1(t: &Ty, w: &W) -> String {
    match (t, w) {
        (_, W::Int(n)) => format!("{{\"i\":{}}}", n),
        (_, W::Flt(n)) => format!("{{\"f\":{}}}", n),
        (_, W::Str(s)) => format!("{{\"s\":\"{}\"}}", hex(s)),
        (Ty::S(_, f), W::Struct(w)) => json(f, w),
        _ => "{\"u\":0}".to_string(),
    }
}
pub fn json(f: &[Fd], w: &[W]) -> String {
    let p: Vec<String> = f.iter().zip(w).map(|(f, w)| format!("[\"{}\",{}]", String::from_utf8_lossy(&f.name), match w {
        W::Arr(a) => format!("{{\"a\":[{}]}}", a.iter().map(|x| json1(&f.ty, x)).collect::<Vec<_>>().join(",")),
        w => json1(&f.ty, w),
    })).collect();
    format!("{{\"o\":[{}]}}", p.join(","))
}
pub fn job(kind: &str, s: &Sch, text: &str, value: &dyn Fn() -> String, bytes: &[u8]) {
    if sx::native() {
        sx::log(&format!("JOB {{\"kind\":\"{}\",\"class\":\"{}\",\"text\":\"{}\",\"value\":{},\"bytes\":\"{}\"}}", kind, String::from_utf8_lossy(&s.name), hex(text.as_bytes()), value(), hex(bytes)));
    }
}

/// compile a template; the module must be readable
pub fn module(s: &Sch) -> (String, Module) {
    let t = schema_text(s);
    let text = match compile(&t) { Some(t) => t, None => sx::fail("well-formed schema is not compiled") };
    job("check", s, &text, &|| "null".to_string(), b"");
    match tsm::parse(body(&text)) { Ok(m) => (text, m), Err(_) => sx::fail("generated module cannot be read") }
}
fn class(m: &Module, s: &Sch) -> usize {
    match m.classes.iter().position(|c| *c.name == s.name) { Some(c) => c, None => sx::fail("no class named after the export") }
}
/// bytes written for a value
fn written(m: &Module, s: &Sch, w: &[W], null: bool, buffer: bool) -> Vec<u8> {
    let c = class(m, s);
    let this = V::Obj(Rc::new(RefCell::new(Obj { props: props(&s.fields, w, null), proto: Some((c, true)) })));
    let arg = if buffer { V::Buf(Rc::new(vec![0; 64])) } else { V::Undef };
    match Vm::new(m).call(c, "write", false, this, vec![arg]) {
        Ok(V::Buf(b)) => b.to_vec(),
        Ok(_) => sx::fail("write returns no buffer"),
        Err(Cut::Bad(s)) => sx::fail(s),
        Err(_) => sx::fail("write loops too long"),
    }
}
/// a template, with any names if p2 > 0 (see rename), and its module
fn named() -> (Sch, String, Module) {
    let mut s = template(sx::param(0));
    if sx::param(2) == 0 {
        let (text, m) = module(&s);
        return (s, text, m);
    }
    rename(&mut s, sx::param(2) as usize);
    free(&s.fields);
    assume_free(&s.name);
    let (text, m) = module_ast(&s);
    (s, text, m)
}
/// p0 template, p1 items, p2.. names
#[no_mangle]
pub fn h_c10() {
    let (s, text, m) = named();
    let w: Vec<W> = s.fields.iter().map(|f| value(f, sx::param(1) as u32)).collect();
    let opts = sx::pick(3, "buffer passed, null for absent");
    let mut want = Vec::new();
    enc(&s.fields, &w, &mut want);
    job("write", &s, &text, &|| json(&s.fields, &w), &want);
    let got = written(&m, &s, &w, opts == 1, opts == 2);
    sx::reach(0);
    sx::check(got.len() == want.len(), "number of bytes written differs from the layout");
    sx::check(sx::same(&got, &want), "bytes written differ from the layout");
    // and the bytes say what was written
    let mut d = Dec { b: &got, at: 0, lenient: false };
    match d.all(&s.fields) { Ok(x) => sx::check((d.at == got.len()) & same_w(&s.fields, &w, &x), "bytes written hold another value"), Err(_) => sx::fail("bytes written hold no value") }
    sx::out(&got);
}
/// long strings and arrays
fn long_value(f: &Fd) -> W {
    if let Ty::B(7) = f.ty {
        let n = [255, 256, 257, 65535, 65536, 65537][sx::pick(6, "string length") as usize];
        let mut s = vec![b'l'; n];
        let b = sx::bytes(2, "string");
        for x in &b { sx::assume(*x < 128) }
        s[0] = b[0];
        s[n - 1] = b[1];
        return W::Str(s);
    }
    let n = [127, 128, 255, 256, 257, 300][sx::pick(6, "array length") as usize];
    let x = value1(&f.ty, 1);
    let mut a = vec![x.clone(); n];
    a[n - 1] = value1(&f.ty, 1);
    W::Arr(a)
}
/// a long string or array, then another field
#[no_mangle]
pub fn h_c10_long() {
    unsafe { tsm::LOOPS = 400 }
    let f = match sx::pick(4, "kind") {
        0 => fd("q", Ty::B(7), 0),
        1 => fd("q", Ty::B(1), 1),
        2 => fd("q", en("En", 9), 1),
        _ => fd("q", st("In", vec![fd("d", Ty::B(0), 0)]), 1),
    };
    let s = Sch { name: b"Msg".to_vec(), fields: vec![f, fd("b", Ty::B(0), 0)] };
    let (text, m) = module(&s);
    let w = vec![long_value(&s.fields[0]), value1(&s.fields[1].ty, 1)];
    let mut want = Vec::new();
    enc(&s.fields, &w, &mut want);
    job("write", &s, &text, &|| json(&s.fields, &w), &want);
    job("trip", &s, &text, &|| json(&s.fields, &w), b"");
    let got = written(&m, &s, &w, false, false);
    sx::check(got.len() == want.len(), "number of bytes written differs from the layout");
    sx::check(sx::same(&got, &want), "bytes written differ from the layout");
    let c = class(&m, &s);
    match Vm::new(&m).call(c, "read", true, V::Class(c), vec![V::Buf(Rc::new(got))]) {
        Ok(V::Null) => sx::fail("reading back a written value fails"),
        Ok(v) => { sx::reach(0); same_value(&s.fields, &w, &v, "reading back a written value gives another value") }
        Err(Cut::Bad(s)) => sx::fail(s),
        Err(_) => sx::fail("reading back a written value loops too long"),
    }
}
/// p0 template, p1 items, p2.. names
#[no_mangle]
pub fn h_c11() {
    let (s, text, m) = named();
    let w: Vec<W> = s.fields.iter().map(|f| value(f, sx::param(1) as u32)).collect();
    job("trip", &s, &text, &|| json(&s.fields, &w), b"");
    let b = written(&m, &s, &w, false, sx::pick(2, "buffer passed") == 1);
    let c = class(&m, &s);
    match Vm::new(&m).call(c, "read", true, V::Class(c), vec![V::Buf(Rc::new(b))]) {
        Ok(V::Null) => sx::fail("reading back a written value fails"),
        Ok(v) => { sx::reach(0); same_value(&s.fields, &w, &v, "reading back a written value gives another value") }
        Err(Cut::Bad(s)) => sx::fail(s),
        Err(_) => sx::fail("reading back a written value loops too long"),
    }
}
/// a field of any name, in the export or in a nested struct; p1 length of the name
#[no_mangle]
pub fn h_c11_names() {
    let x = ident(sx::param(1) as usize, "name");
    assume_plain(&x);
    assume_free(&x);
    let f = match sx::pick(3, "where") {
        0 => { sx::assume(!sx::same(&x, b"z")); vec![Fd { name: x, ty: Ty::B(0), arr: false, opt: false }, fd("z", Ty::B(7), 0)] }
        1 => { sx::assume(!sx::same(&x, b"m")); vec![fd("a", st("In", vec![fd("m", Ty::B(0), 0), Fd { name: x, ty: Ty::B(0), arr: true, opt: false }]), 0)] }
        _ => vec![Fd { name: x, ty: st("In", vec![fd("m", Ty::B(0), 2)]), arr: true, opt: false }],
    };
    let s = Sch { name: b"Msg".to_vec(), fields: f };
    let (text, m) = module_ast(&s);
    let w: Vec<W> = s.fields.iter().map(|f| value(f, 1)).collect();
    job("trip", &s, &text, &|| json(&s.fields, &w), b"");
    let b = written(&m, &s, &w, false, false);
    let c = class(&m, &s);
    match Vm::new(&m).call(c, "read", true, V::Class(c), vec![V::Buf(Rc::new(b))]) {
        Ok(V::Null) => sx::fail("reading back a written value fails"),
        Ok(v) => { sx::reach(0); same_value(&s.fields, &w, &v, "reading back a written value gives another value") }
        Err(Cut::Bad(s)) => sx::fail(s),
        Err(_) => sx::fail("reading back a written value loops too long"),
    }
}
/// p0 template, p1 number of bytes (up to), p2.. names
#[no_mangle]
pub fn h_c12() {
    let (s, text, m) = named();
    let n = sx::pick(sx::param(1) as u32 + 1, "bytes") as usize;
    let b = sx::bytes(n, "data");
    let mut d = Dec { b: &b, at: 0, lenient: false };
    let want = d.all(&s.fields);
    if let Err(false) = want { sx::assume(false) }
    job("read", &s, &text, &|| match &want { Ok(w) => json(&s.fields, w), Err(_) => "null".to_string() }, &b);
    let c = class(&m, &s);
    let mut vm = Vm::new(&m);
    match (vm.call(c, "read", true, V::Class(c), vec![V::Buf(Rc::new(b.clone()))]), want) {
        (Ok(V::Null), Ok(_)) => { sx::reach(2); sx::check(d.lenient, "read returns null for valid bytes") }
        (Ok(V::Null), Err(_)) => sx::reach(1),
        (Ok(V::Undef), _) => sx::fail("read returns nothing"),
        (Ok(_), Err(_)) => sx::fail("read accepts bytes that hold no value"),
        (Ok(v), Ok(w)) => { sx::reach(0); same_value(&s.fields, &w, &v, "read returns another value than the bytes hold") }
        (Err(Cut::Bad(s)), _) => sx::fail(s),
        (Err(Cut::FailedLoop(left)), Err(_)) => { sx::reach(3); sx::assume((left <= 1 << 16) | (left >= 1 << 24)); sx::check(left <= 1 << 16, "reading goes on long after the data ended") }
        (Err(Cut::FailedLoop(_)), Ok(_)) => sx::fail("read fails on valid bytes"),
        (Err(Cut::TooLong), Ok(_)) => sx::fail("read loops longer than the data allows"),
        (Err(Cut::TooLong), Err(_)) => sx::assume(false),
    }
}
/// bytes that hold a value are read, written and read again; p0 template, p1 number of bytes (up to), p2.. names
#[no_mangle]
pub fn h_c21() {
    let (s, text, m) = named();
    let n = sx::pick(sx::param(1) as u32 + 1, "bytes") as usize;
    let b = sx::bytes(n, "data");
    let mut d = Dec { b: &b, at: 0, lenient: false };
    let w = match d.all(&s.fields) { Ok(w) => w, Err(_) => { sx::reach(1); return } };
    if d.lenient { sx::reach(2); return }
    let used = &b[..d.at];
    job("rewrite", &s, &text, &|| json(&s.fields, &w), used);
    let c = class(&m, &s);
    let read = |b: &[u8]| match Vm::new(&m).call(c, "read", true, V::Class(c), vec![V::Buf(Rc::new(b.to_vec()))]) {
        Ok(v) => v,
        Err(Cut::Bad(s)) => sx::fail(s),
        Err(_) => sx::fail("read loops too long"),
    };
    let v = read(&b);
    if let V::Null = v { sx::fail("bytes that hold a value cannot be read") }
    // other data in between
    read(&vec![0; n]);
    sx::reach(0);
    let again = match Vm::new(&m).call(c, "write", false, v.clone(), vec![V::Undef]) {
        Ok(V::Buf(b)) => b.to_vec(),
        Ok(_) => sx::fail("write returns no buffer"),
        Err(Cut::Bad(s)) => sx::fail(s),
        Err(_) => sx::fail("write loops too long"),
    };
    sx::check(again.len() == used.len(), "writing what was read gives another number of bytes");
    sx::check(sx::same(&again, used), "writing what was read gives other bytes");
    same_value(&s.fields, &w, &v, "a value that was read changes afterwards");
    match read(&again) { V::Null => sx::fail("what was read and written cannot be read"), v => same_value(&s.fields, &w, &v, "what was read and written is read as another value") }
}
/// what read returns can be asked to write itself
#[no_mangle]
pub fn h_c21_method() {
    let s = template(sx::param(0));
    let (text, m) = module(&s);
    let b = vec![1; 64];
    let c = class(&m, &s);
    let v = match Vm::new(&m).call(c, "read", true, V::Class(c), vec![V::Buf(Rc::new(b.clone()))]) { Ok(v) => v, Err(_) => return };
    if let V::Obj(o) = v {
        sx::reach(0);
        job("method", &s, &text, &|| "null".to_string(), &b);
        sx::check(o.borrow().proto == Some((c, true)), "what read returns has no write method");
    }
}
/// a value is written, asked for its fields, and written again; p0 template, p1 items, p2.. names
#[no_mangle]
pub fn h_c22() {
    let (s, text, m) = named();
    let w: Vec<W> = s.fields.iter().map(|f| value(f, sx::param(1) as u32)).collect();
    job("twice", &s, &text, &|| json(&s.fields, &w), b"");
    let opts = sx::pick(3, "buffer passed");
    let c = class(&m, &s);
    let this = V::Obj(Rc::new(RefCell::new(Obj { props: props(&s.fields, &w, false), proto: Some((c, true)) })));
    let write = |buffer: bool| {
        let arg = if buffer { V::Buf(Rc::new(vec![0xa5; 64])) } else { V::Undef };
        match Vm::new(&m).call(c, "write", false, this.clone(), vec![arg]) {
            Ok(V::Buf(b)) => b.to_vec(),
            Ok(_) => sx::fail("write returns no buffer"),
            Err(Cut::Bad(s)) => sx::fail(s),
            Err(_) => sx::fail("write loops too long"),
        }
    };
    let a = write(opts == 1);
    same_value(&s.fields, &w, &this, "writing changes the value");
    let b = write(opts == 2);
    sx::reach(0);
    sx::check(a.len() == b.len(), "writing a value again gives another number of bytes");
    sx::check(sx::same(&a, &b), "writing a value again gives other bytes");
    same_value(&s.fields, &w, &this, "writing changes the value");
    sx::out(&a);
}
/// the first lines of a module; p0 template, p2.. names
#[no_mangle]
pub fn h_c24() {
    let (s, text, m) = named();
    let t = text.as_bytes();
    let head: &[u8] = b"// Generated by packetc v";
    sx::check(t.len() > head.len() && &t[..head.len()] == head, "module does not start with its origin");
    let line = &t[head.len()..t.iter().position(|c| *c == b'\n').unwrap_or(t.len())];
    let at = match line.windows(4).position(|w| w == b" at ") { Some(i) => i, None => sx::fail("origin line holds no time") };
    let version = &line[..at];
    sx::check(version.split(|c| *c == b'.').count() == 3 && version.iter().all(|c| *c == b'.' || (*c >= b'0' && *c <= b'9')), "origin line holds no version");
    sx::check(utc(&line[at + 4..]), "origin line holds no time in UTC");
    sx::check(m.imports.len() == 2 && m.imports.iter().any(|i| tsm::is(i, "Reader")) && m.imports.iter().any(|i| tsm::is(i, "Writer")), "module does not import exactly its reader and writer");
    sx::check(m.from.len() == 1 && tsm::is(&m.from[0], "packet"), "module does not import from its runtime library once");
    sx::check(m.classes.len() == 1 && m.spaces.len() == 1, "module is not one namespace and one class");
    sx::check(sx::same(&m.classes[0].name, &s.name) & sx::same(&m.spaces[0].0, &s.name), "namespace or class is not named after the export");
    sx::check(t[t.len() - 1] == b'\n', "module does not end with a line end");
    sx::reach(0);
}
/// "Sun, 06 Nov 1994 08:49:37 +0000", a real date
fn utc(t: &[u8]) -> bool {
    let s: Vec<&[u8]> = t.split(|c| *c == b' ').collect();
    if s.len() != 6 { return false; }
    let num = |b: &[u8]| if !b.is_empty() && b.iter().all(|c| *c >= b'0' && *c <= b'9') { b.iter().fold(0i64, |n, c| n * 10 + (*c - b'0') as i64) } else { -1 };
    let days: [&[u8]; 7] = [b"Thu,", b"Fri,", b"Sat,", b"Sun,", b"Mon,", b"Tue,", b"Wed,"];
    let months: [&[u8]; 12] = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"];
    let month = match months.iter().position(|m| *m == s[2]) { Some(m) => m as i64, None => return false };
    let (day, year) = (num(s[1]), num(s[3]));
    if day < 1 || day > 31 || year < 1970 { return false; }
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut n = 0;
    for y in 1970..year { n += 365 + leap(y) as i64; }
    for m in 0..month { n += [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize] + (m == 1 && leap(year)) as i64; }
    n += day - 1;
    let h: Vec<i64> = s[4].split(|c| *c == b':').map(|x| if x.len() == 2 { num(x) } else { -1 }).collect();
    days[(n % 7) as usize] == s[0] && h.len() == 3 && h[0] >= 0 && h[0] < 24 && h[1] >= 0 && h[1] < 60 && h[2] >= 0 && h[2] < 61 && s[5] == b"+0000"
}

// ------------------------------------------------------------ from text to module
/// the schema a text says, by the reference reader
fn said(t: &[u8], items: &[RItem]) -> types::M {
    let w = |r: &(usize, usize)| t[r.0..r.1].to_vec();
    let mut m = types::M::default();
    for i in items {
        match i {
            RItem::Export(e) => m.exports.push(w(e)),
            RItem::Enum(n, v) => m.decls.push(types::D { name: w(n), k: types::K::E(v.iter().map(w).collect()) }),
            RItem::Struct(n, f) => m.decls.push(types::D { name: w(n), k: types::K::S(f.iter().map(|f| types::F { name: w(&f.name), ty: w(&f.ty), arr: f.array, opt: f.optional }).collect()) }),
        }
    }
    m
}
/// a well-formed schema with the types in place
fn placed(m: &types::M, f: &[types::F]) -> Vec<Fd> {
    f.iter().map(|f| {
        let ty = match m.decls.iter().find(|d| d.name == f.ty) {
            Some(d) => match &d.k { types::K::S(g) => Ty::S(d.name.clone(), placed(m, g)), types::K::E(v) => Ty::E(d.name.clone(), v.len()) },
            None => Ty::B(B.iter().position(|b| b.as_bytes() == &f.ty[..]).unwrap()),
        };
        Fd { name: f.name.clone(), ty, arr: f.arr, opt: f.opt }
    }).collect()
}
fn c23(t: Vec<u8>) {
    let text = match std::str::from_utf8(&t) { Ok(s) => s, Err(_) => return };
    let said = match crate::refparse::parse(&t) { Ok(r) => Some(said(&t, &r)), Err(_) => None };
    let got = packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(text);
    let m = match (&said, &got) {
        (None, Err(packetc_lib::Error::Parse(e))) => {
            sx::reach(1);
            return shown(&got, "Parsing failed with:\n", e);
        }
        (None, Err(_)) => sx::fail("text outside the syntax is reported as a type error"),
        (None, Ok(_)) => sx::fail("text outside the syntax is compiled"),
        (Some(_), Err(packetc_lib::Error::Parse(_))) => sx::fail("valid text is reported as a syntax error"),
        (Some(m), _) => m,
    };
    let faults = types::faults(m);
    let mut bad = false;
    for (c, _) in &faults { bad |= *c }
    match &got {
        Err(packetc_lib::Error::Check(e)) => {
            sx::reach(2);
            let mut ok = false;
            for (c, b) in &faults { ok |= *c & sx::same(b, e.as_bytes()); }
            sx::check(bad, "well-formed text is reported as a type error");
            sx::check(ok, "type error describes no broken rule");
            shown(&got, "One or more type errors:\n", e);
        }
        Ok(text) => {
            sx::check(!bad, "ill-formed text is compiled");
            if bad { return; }
            let e = match m.decls.iter().find(|d| d.name == m.exports[0]) { Some(d) => d, None => sx::fail("ill-formed text is compiled") };
            let s = match &e.k { types::K::S(f) => Sch { name: e.name.clone(), fields: placed(m, f) }, _ => sx::fail("ill-formed text is compiled") };
            free(&s.fields);
            assume_free(&s.name);
            job("check", &s, text, &|| "null".to_string(), b"");
            let code = match tsm::parse(body(text)) { Ok(m) => m, Err(_) => sx::fail("generated module cannot be read") };
            declared(&code, &s, &|n, i| match m.decls.iter().find(|d| d.name == n) { Some(types::D { k: types::K::E(v), .. }) => v[i].clone(), _ => Vec::new() });
        }
        Err(_) => {}
    }
}
/// the error says its kind, then its message
fn shown(got: &Result<String, packetc_lib::Error>, head: &str, e: &str) {
    if let Err(x) = got { sx::check(sx::same(format!("{}", x).as_bytes(), [head, e].concat().as_bytes()), "error is not shown as its kind and message") }
}
#[no_mangle]
pub fn h_c23_edit() { c23(crate::text::edited(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c23_win() { c23(crate::text::window(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c23_raw() { c23(sx::bytes(sx::param(0) as usize, "text")) }
/// a schema text compiled twice, with other hash seeds and at another time; p0 template
#[no_mangle]
pub fn h_c15_text() {
    // names in capitals are those whose hash order varies
    unsafe { VARIANTS = (0..32).map(|i| format!("v{:02}", (i * 19 + 5) % 32).into_bytes()).collect() }
    let s = template(sx::param(0));
    let t = schema_text(&s);
    let a = compile(&t);
    sx::epoch(1);
    sx::order(4);
    let b = compile(&t);
    match (a, b) {
        (Some(a), Some(b)) => { sx::reach(0); sx::check(body(&a) == body(&b), "one and the same schema gives different modules") }
        _ => sx::fail("well-formed schema is not compiled"),
    }
}
/// two texts compiled in turn, twice each; p0 window, p1 free bytes at its end
#[no_mangle]
pub fn h_c27_win() { c27(crate::text::window(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c27_edit() { c27(crate::text::edited(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c27_gen() {
    unsafe { VARIANTS = (0..32).map(|i| format!("v{:02}", (i * 19 + 5) % 32).into_bytes()).collect() }
    let s = template(sx::param(0));
    c27(schema_text(&s))
}
fn c27(t: Vec<u8>) {
    let t = match std::str::from_utf8(&t) { Ok(t) => t, Err(_) => return };
    let other = [
        "A: struct { x: B[], y?: E } B: struct { z: string } E: enum { P, Q, R } export A",
        "export b b: struct { y: a, x?: a, w: string[] } a: struct { len: uint8, x: float[] }",
        "A: struct { x: B } B: struct { y?: A } export A",
        "A: struct { x uint8 }",
    ][sx::pick(4, "other text") as usize];
    // without the line that states the time
    let result = |t: &str| match packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(t) {
        Ok(m) => (0, body(&m).as_bytes().to_vec()),
        Err(packetc_lib::Error::Parse(m)) => (1, m.into_bytes()),
        // which of several broken rules is named may depend on the hash order
        Err(packetc_lib::Error::Check(_)) => (2, Vec::new()),
    };
    let (a, b) = (result(t), result(other));
    let (c, d) = (result(t), result(other));
    sx::reach(a.0);
    sx::check((a.0 == c.0) & (a.1.len() == c.1.len()) & sx::same(&a.1, &c.1), "compiling another text changes the result of a text");
    sx::check((b.0 == d.0) & (b.1 == d.1), "compiling a text changes the result of another one");
}
/// enum values and widths; p0 most variants, p1 of them with any names of p2 bytes and more
#[no_mangle]
pub fn h_c09() {
    let n = 1 + sx::pick(sx::param(0) as u32, "variants") as usize;
    let free = sx::param(1) as usize;
    any_variants(if free < n { free } else { n }, sx::param(2) as usize);
    let s = Sch { name: b"Msg".to_vec(), fields: vec![fd("a", en("En", n), 0)] };
    let (text, m) = if free > 0 { module_ast(&s) } else { module(&s) };
    let vs = m.spaces.iter().flat_map(|s| s.1.iter()).find_map(|d| match d { Decl::Enum(n, _, v) if tsm::is(n, "En") => Some(v), _ => None });
    let vs = match vs { Some(v) => v, None => sx::fail("enum is not declared") };
    sx::check(vs.len() == n, "number of declared variants is wrong");
    let mut next = 0i64;
    let mut vals = Vec::new();
    for (i, (name, e)) in vs.iter().enumerate() {
        sx::check(sx::same(name, &variant(i)), "variants are not in source order");
        let v = match e { Some(e) => match tsm::constant(&m, e) { Some(v) => v, None => sx::fail("variant value is no constant") }, None => next };
        next = v + 1;
        vals.push(v);
    }
    // any variant
    let k = sx::choice(n as u32, "variant");
    let mut v = 0i64;
    for i in 0..n { v = sx::select(k == i as u32, vals[i] as u64, v as u64) as i64; }
    job("enum", &s, &text, &|| "null".to_string(), b"");
    let w = [W::Int(1i64 << k)];
    let mut want = Vec::new();
    enc(&s.fields, &w, &mut want);
    job("write", &s, &text, &|| json(&s.fields, &w), &want);
    job("trip", &s, &text, &|| json(&s.fields, &w), b"");
    sx::check(v == 1i64 << k, "declared variant value is not its single bit");
    sx::reach(0);
    // the declared value on the wire
    let c = class(&m, &s);
    let this = V::Obj(Rc::new(RefCell::new(Obj { props: vec![(nm("a"), V::Num(v))], proto: Some((c, true)) })));
    let b = match Vm::new(&m).call(c, "write", false, this, vec![V::Undef]) { Ok(V::Buf(b)) => b, _ => sx::fail("enum cannot be written") };
    sx::check(b.len() == ewidth(n), "enum takes a wrong number of bytes");
    let mut x = 0i64;
    for i in 0..b.len() { x |= (b[i] as i64) << (8 * i); }
    sx::check(x == 1i64 << k, "enum is written as another value");
    match Vm::new(&m).call(c, "read", true, V::Class(c), vec![V::Buf(b)]) {
        Ok(V::Obj(o)) => match o.borrow().props.first() { Some((_, V::Num(x))) => sx::check(*x == v, "a declared variant is read as another value"), _ => sx::fail("a declared variant is lost on reading") },
        _ => sx::fail("a declared variant cannot be read"),
    }
}

// ------------------------------------------------------------ declarations and scopes
fn ident(n: usize, label: &str) -> Vec<u8> {
    let b = sx::bytes(n, label);
    for (i, x) in b.iter().enumerate() {
        let l = ((*x >= b'a') & (*x <= b'z')) | ((*x >= b'A') & (*x <= b'Z')) | (*x == b'_');
        sx::assume(if i == 0 { l } else { l | ((*x >= b'0') & (*x <= b'9')) });
    }
    b
}
fn ts_type(f: &Fd, prefix: Option<&[u8]>) -> (Vec<Vec<u8>>, u32) {
    let p = match &f.ty {
        Ty::B(7) => vec![b"string".to_vec()],
        Ty::B(_) => vec![b"number".to_vec()],
        t => match prefix { Some(p) => vec![p.to_vec(), tname(t)], None => vec![tname(t)] },
    };
    (p, f.arr as u32)
}
/// does the declared TypeScript type say exactly `want`, optionally or'ed with undefined?
fn same_ts(t: &TsTy, want: &(Vec<Vec<u8>>, u32), opt: bool, marked: bool) -> bool {
    let mut main = false;
    let mut undef = false;
    for (path, arr) in &t.0 {
        if path.len() == 1 && *arr == 0 && tsm::is(&path[0], "undefined") { undef = true; continue; }
        if main || path.len() != want.0.len() || *arr != want.1 { return false; }
        let mut q = true;
        for (a, b) in path.iter().zip(want.0.iter()) { q &= sx::same(a, b); }
        if !q { return false; }
        main = true;
    }
    main && opt == (undef | marked)
}
fn check_fields(got: &[(N, bool, TsTy)], want: &[Fd], prefix: Option<&[u8]>, what: &str) {
    sx::check(got.len() == want.len(), what);
    for (g, w) in got.iter().zip(want) {
        sx::check(sx::same(&g.0, &w.name), what);
        sx::check(same_ts(&g.2, &ts_type(w, prefix), w.opt, g.1), what);
    }
}
fn collect<'a>(f: &'a [Fd], out: &mut Vec<&'a Ty>) {
    for x in f {
        if let Ty::B(_) = x.ty { continue; }
        if !out.iter().any(|t| tname(t) == tname(&x.ty)) {
            out.push(&x.ty);
            if let Ty::S(_, f) = &x.ty { collect(f, out) }
        }
    }
}
/// replace the names of a template by symbolic ones of p2 bytes; p3 = 1: types start with a capital, fields do not;
/// p4 = 1: names have different lengths
fn rename(s: &mut Sch, n: usize) {
    fn cap(n: &[u8], want: bool) { if sx::param(3) == 1 { let c = (n[0] >= b'A') & (n[0] <= b'Z'); sx::assume(c == want) } }
    fn fields(f: &mut Vec<Fd>, n: usize, map: &mut Vec<(Vec<u8>, Vec<u8>)>, done: &mut Vec<(Vec<u8>, Ty)>) {
        for i in 0..f.len() {
            f[i].name = ident(if sx::param(4) == 1 { n + (i + 1) % 2 } else { n }, "field name");
            cap(&f[i].name, false);
            for j in 0..i { sx::assume(!sx::same(&f[i].name, &f[j].name)); }
            assume_plain(&f[i].name);
            if let Ty::B(_) = f[i].ty { continue; }
            let old = tname(&f[i].ty);
            if let Some(k) = done.iter().position(|d| d.0 == old) { f[i].ty = done[k].1.clone(); continue; }
            match &mut f[i].ty {
                Ty::B(_) => {}
                Ty::E(t, _) | Ty::S(t, _) => {
                    let k = match map.iter().position(|m| m.0 == *t) {
                        Some(k) => k,
                        None => {
                            let x = ident(if sx::param(4) == 1 { n + map.len() % 3 } else { n }, "type name");
                            cap(&x, true);
                            assume_plain(&x);
                            for m in map.iter() { sx::assume(!sx::same(&m.1, &x)); }
                            map.push((t.clone(), x));
                            map.len() - 1
                        }
                    };
                    *t = map[k].1.clone();
                }
            }
            if let Ty::S(_, g) = &mut f[i].ty { fields(g, n, map, done) }
            done.push((old, f[i].ty.clone()));
        }
    }
    let e = ident(n, "export name");
    cap(&e, true);
    assume_plain(&e);
    let mut map = vec![(s.name.clone(), e.clone())];
    s.name = e;
    fields(&mut s.fields, n, &mut map, &mut Vec::new());
}
/// not a word the schema language reserves
fn assume_plain(n: &[u8]) {
    for w in ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "enum", "struct", "export"].iter() { sx::assume(!sx::same(n, w.as_bytes())); }
}
/// p0 template, p2 length of names (0: as in the template)
#[no_mangle]
pub fn h_c13() {
    let mut s = template(sx::param(0));
    if sx::param(2) > 0 { rename(&mut s, sx::param(2) as usize); }
    any_variants(sx::param(5) as usize, sx::param(6) as usize);
    free(&s.fields);
    assume_free(&s.name);
    let (_, m) = module_ast(&s);
    declared(&m, &s, &|_, i| variant(i));
}
/// the module declares exactly the class and the types of the schema
fn declared(m: &Module, s: &Sch, variant: &dyn Fn(&[u8], usize) -> Vec<u8>) {
    sx::check(m.classes.len() == 1, "number of classes is wrong");
    let c = &m.classes[class(m, s)];
    check_fields(&c.fields, &s.fields, Some(&s.name), "constructor differs from the declared fields");
    sx::check(m.spaces.len() == 1, "number of namespaces is wrong");
    let (n, ds) = &m.spaces[0];
    sx::check(sx::same(n, &s.name), "namespace is not named after the export");
    let mut used = Vec::new();
    collect(&s.fields, &mut used);
    sx::check(ds.len() == used.len(), "number of declared types is wrong");
    sx::reach(0);
    for t in used {
        let n = tname(t);
        let d = ds.iter().find(|d| match d { Decl::Interface(x, _) => **x == n, Decl::Enum(x, _, _) => **x == n });
        match (t, d) {
            (Ty::S(_, f), Some(Decl::Interface(_, g))) => { sx::reach(1); check_fields(g, f, None, "interface differs from the declared fields") }
            (Ty::E(_, k), Some(Decl::Enum(_, _, v))) => {
                sx::reach(2);
                sx::check(v.len() == *k, "number of declared variants is wrong");
                for (i, x) in v.iter().enumerate() { sx::check(sx::same(&x.0, &variant(&n, i)), "declared variants differ"); }
            }
            _ => sx::fail("a used type is not declared"),
        }
    }
}

const RESERVED: [&str; 49] = ["break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "extends", "false", "finally", "for", "function", "if", "import", "in",
    "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "implements", "interface", "let", "package", "private", "protected",
    "public", "static", "yield", "await", "eval", "arguments", "enum", "export", "undefined"];
const TYPES: [&str; 10] = ["any", "unknown", "never", "number", "bigint", "boolean", "string", "symbol", "object", "void"];
fn among(n: &[u8], l: &[&str]) -> bool {
    let mut r = false;
    for w in l { if w.len() == n.len() { r |= sx::same(n, w.as_bytes()) } }
    r
}
/// scopes with the names declared so far and those a later statement declares
struct Sc { scopes: Vec<Vec<N>>, later: Vec<Vec<N>>, globals: Vec<N> }
impl Sc {
    fn declare(&mut self, n: &N) {
        sx::check(!among(n, &RESERVED), "a local variable is named by a reserved word");
        let mut dup = false;
        for x in self.scopes.last().unwrap() { dup |= sx::same(x, n) }
        sx::check(!dup, "a name is declared twice in one scope");
        self.scopes.last_mut().unwrap().push(n.clone());
    }
    fn used(&self, n: &N) {
        let (mut ok, mut early) = (false, false);
        for x in &self.globals { ok |= sx::same(x, n) }
        for (s, l) in self.scopes.iter().zip(self.later.iter()) {
            let (mut d, mut p) = (false, false);
            for x in s { d |= sx::same(x, n) }
            for x in l { p |= sx::same(x, n) }
            ok |= d | p;
            early = (early & !d) | (p & !d);
        }
        sx::check(ok, "a variable is used that is not declared");
        sx::check(!early, "a variable is used before its declaration");
    }
    fn push(&mut self, names: Vec<N>) { self.scopes.push(names); self.later.push(vec![]) }
    fn pop(&mut self) { self.scopes.pop(); self.later.pop(); }
    fn expr(&mut self, e: &E) {
        match e {
            E::Id(n) => self.used(n),
            E::Mem(a, _) | E::Un(_, a) | E::Inc(a, _, _) => self.expr(a),
            E::Idx(a, b) | E::Bin(_, a, b) | E::And(a, b) | E::Or(a, b) | E::Nul(a, b) | E::Assign(_, a, b) => { self.expr(a); self.expr(b) }
            E::Call(f, a) | E::New(f, a) => { self.expr(f); for x in a { self.expr(x) } }
            E::Cond(a, b, c) => { self.expr(a); self.expr(b); self.expr(c) }
            E::Obj(p) => for x in p { self.expr(&x.1) },
            E::Arr(p) => for x in p { self.expr(x) },
            _ => {}
        }
    }
    fn stmts(&mut self, b: &[S]) {
        for s in b { if let S::Let(n, _) = s { self.later.last_mut().unwrap().push(n.clone()) } }
        for s in b { self.stmt(s) }
    }
    fn inner(&mut self, b: &[S]) { self.push(vec![]); self.stmts(b); self.pop(); }
    fn stmt(&mut self, s: &S) {
        match s {
            S::Let(n, e) => {
                if let Some(e) = e { self.expr(e) }
                self.declare(n);
            }
            S::Expr(e) | S::Throw(e) => self.expr(e),
            S::If(c, a, b) => { self.expr(c); self.inner(std::slice::from_ref(a)); if let Some(b) = b { self.inner(std::slice::from_ref(b)) } }
            S::Block(b) => self.inner(b),
            S::For(i, c, st, b) => {
                self.push(vec![]);
                if let Some(i) = i { self.stmts(std::slice::from_ref(&**i)) }
                if let Some(c) = c { self.expr(c) }
                if let Some(c) = st { self.expr(c) }
                self.stmt(b);
                self.pop();
            }
            S::ForOf(n, e, b) => { self.expr(e); self.push(vec![n.clone()]); self.stmt(b); self.pop(); }
            S::While(c, b) => { self.expr(c); self.inner(std::slice::from_ref(b)) }
            S::Switch(c, cs) => {
                self.expr(c);
                self.push(vec![]);
                for (e, b) in cs { if let Some(e) = e { self.expr(e) } self.stmts(b) }
                self.pop();
            }
            S::Return(Some(e)) => self.expr(e),
            _ => {}
        }
    }
}
fn scoped(m: &Module) {
    let mut globals: Vec<N> = m.imports.clone();
    for g in ["Object", "Array", "Reader", "Writer"].iter() { if m.imports.iter().any(|i| tsm::is(i, g)) || *g == "Object" || *g == "Array" { globals.push(nm(g)) } }
    for c in &m.classes {
        sx::check(!among(&c.name, &RESERVED), "a type is named by a reserved word");
        sx::check(!among(&c.name, &TYPES), "a type is named by a predefined type");
        sx::check(!among(&c.name, &["Reader", "Writer", "Object", "Array", "ArrayBuffer"]), "the export is named like something the generated code uses");
        globals.push(c.name.clone());
    }
    for (_, ds) in &m.spaces {
        let mut seen: Vec<N> = vec![];
        for d in ds {
            let n = match d { Decl::Interface(n, _) | Decl::Enum(n, _, _) => n };
            sx::check(!among(n, &RESERVED), "a type is named by a reserved word");
            sx::check(!among(n, &TYPES), "a type is named by a predefined type");
            for x in &seen { sx::check(!sx::same(x, n), "a type is declared twice") }
            seen.push(n.clone());
        }
        let known = |t: &TsTy| for (p, _) in &t.0 {
            let mut ok = among(&p[0], &["number", "string", "undefined", "null"]);
            for x in &seen { ok |= sx::same(x, &p[0]) }
            sx::check(ok, "a type is used that is not declared");
        };
        for d in ds { if let Decl::Interface(_, f) = d { for x in f { known(&x.2) } } }
        for c in &m.classes {
            for f in &c.fields {
                for (p, _) in &f.2 .0 {
                    let mut ok = (p.len() == 1) & among(&p[0], &["number", "string", "undefined", "null"]);
                    if p.len() == 2 { for x in &seen { ok |= sx::same(x, &p[1]) & sx::same(&p[0], &c.name) } }
                    sx::check(ok, "a type is used that is not declared");
                }
            }
        }
    }
    for c in &m.classes {
        for (i, f) in c.fields.iter().enumerate() {
            sx::check(!among(&f.0, &RESERVED), "a constructor parameter is named by a reserved word");
            sx::check(!among(&f.0, &["constructor"]), "a field is named constructor");
            let mut dup = false;
            for g in &c.fields[..i] { dup |= sx::same(&g.0, &f.0) }
            sx::check(!dup, "a class member is declared twice");
            let mut dup = false;
            for g in &c.methods { if !g.stat { dup |= sx::same(&g.name, &f.0) } }
            sx::check(!dup, "a field has the name of a method");
        }
        for x in &c.methods {
            let mut s = Sc { scopes: vec![vec![]], later: vec![vec![]], globals: globals.clone() };
            for p in &x.params { s.declare(&p.0) }
            s.stmts(&x.body);
        }
    }
}
/// names that are no business of the scope rules: reserved words and fixed members have a run of their own
fn assume_free(n: &[u8]) { sx::assume(!among(n, &RESERVED) & !among(n, &TYPES) & !among(n, &OTHERS)); }
const OTHERS: [&str; 7] = ["Reader", "Writer", "Object", "Array", "ArrayBuffer", "write", "constructor"];
/// p0 template, p2 length of all names
#[no_mangle]
pub fn h_c14() {
    let mut s = template(sx::param(0));
    if sx::param(2) > 0 { rename(&mut s, sx::param(2) as usize); }
    free(&s.fields);
    assume_free(&s.name);
    let (_, m) = module_ast(&s);
    sx::reach(0);
    scoped(&m);
}
fn free(f: &[Fd]) {
    for x in f {
        assume_free(&x.name);
        assume_free(&tname(&x.ty)[..if let Ty::B(_) = x.ty { 0 } else { tname(&x.ty).len() }]);
        if let Ty::S(_, f) = &x.ty { free(f) }
    }
}
/// any one name of a schema is anything; p1 its length
#[no_mangle]
pub fn h_c14_names() {
    let n = sx::param(1) as usize;
    let x = ident(n, "name");
    assume_plain(&x);
    let mut s = Sch { name: b"Msg".to_vec(), fields: vec![fd("a", st("In", vec![fd("b", Ty::B(7), 0), fd("c", Ty::B(0), 2)]), 0), fd("d", en("En", 3), 1), fd("e", st("Low", vec![]), 2)] };
    match sx::pick(6, "which name") {
        0 => s.name = x,
        1 => s.fields[0].name = x,
        2 => if let Ty::S(t, _) = &mut s.fields[0].ty { *t = x },
        3 => if let Ty::S(_, f) = &mut s.fields[0].ty { f[0].name = x },
        4 => if let Ty::E(t, _) = &mut s.fields[1].ty { *t = x },
        _ => s.fields[1].name = x,
    }
    // still well-formed
    for i in 0..s.fields.len() { for j in 0..i { sx::assume(!sx::same(&s.fields[i].name, &s.fields[j].name)) } }
    let mut t: Vec<Vec<u8>> = s.fields.iter().map(|f| tname(&f.ty)).collect();
    t.push(s.name.clone());
    for i in 0..t.len() { for j in 0..i { sx::assume(!sx::same(&t[i], &t[j])) } }
    if let Ty::S(_, f) = &s.fields[0].ty { sx::assume(!sx::same(&f[0].name, &f[1].name)) }
    let (_, m) = module_ast(&s);
    sx::reach(0);
    scoped(&m);
}
/// two fields whose generated helper names may clash: p1, p2 lengths of their names, p3 length of the inner name
#[no_mangle]
pub fn h_c14_pair() {
    let (n1, n2, n3) = (sx::param(1) as usize, sx::param(2) as usize, sx::param(3) as usize);
    let mut f = Vec::new();
    for (k, n) in [n1, n2].iter().enumerate() {
        let name = ident(*n, "field name");
        assume_plain(&name);
        assume_free(&name);
        let t = match sx::pick(7, "type") {
            0 => Ty::B(0),
            1 => Ty::B(7),
            2 => en("En", 2),
            x => {
                let inner = ident(n3, "inner name");
                assume_plain(&inner);
                let it = match x { 3 => Ty::B(7), 4 => Ty::B(1), 5 => en("En", 2), _ => st("Low", vec![fd("m", Ty::B(0), 0)]) };
                Ty::S(vec![b'S', b'0' + k as u8], vec![Fd { name: inner, ty: it, arr: false, opt: x == 4 }])
            }
        };
        let mk = mark();
        f.push(Fd { name, ty: t, arr: mk & 1 == 1, opt: mk & 2 == 2 });
    }
    if n1 == n2 { sx::assume(!sx::same(&f[0].name, &f[1].name)); }
    let s = Sch { name: b"Msg".to_vec(), fields: f };
    let (_, m) = module_ast(&s);
    sx::reach(0);
    scoped(&m);
}
