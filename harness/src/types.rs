//! C05-C08: symbolic schemas (as parse results) through the real type checker.
use crate::sx;
use packetc_lib::ast::{Enum, Node, Struct, Type, Unresolved};
use packetc_lib::check::{self, type_check, Resolved, ResolvedType};

pub type Name = Vec<u8>;
#[derive(Clone)]
pub struct F { pub name: Name, pub ty: Name, pub arr: bool, pub opt: bool }
#[derive(Clone)]
pub enum K { S(Vec<F>), E(Vec<Name>) }
#[derive(Clone)]
pub struct D { pub name: Name, pub k: K }
/// a schema: declarations in source order, exports
#[derive(Clone, Default)]
pub struct M { pub decls: Vec<D>, pub exports: Vec<Name> }

pub fn leak(b: &[u8]) -> &'static str {
    let s: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
    unsafe { std::str::from_utf8_unchecked(s) }
}
pub fn ast(m: &M) -> Vec<Node<'static>> {
    let mut out = Vec::new();
    for d in &m.decls {
        let t = match &d.k {
            K::S(f) => Type::Struct(Struct(f.iter().map(|f| (leak(&f.name), Unresolved(leak(&f.ty), f.arr, f.opt))).collect())),
            K::E(v) => Type::Enum(Enum(v.iter().map(|v| leak(v)).collect())),
        };
        out.push(Node::Decl(leak(&d.name), t));
    }
    for e in &m.exports { out.push(Node::Export(leak(e))); }
    out
}
/// any one-letter name
pub fn letter(label: &str) -> Name {
    let b = sx::bytes(1, label);
    sx::assume(((b[0] >= b'a') & (b[0] <= b'z')) | ((b[0] >= b'A') & (b[0] <= b'Z')) | (b[0] == b'_'));
    b
}
/// any one-letter name, small letters only
pub fn small(label: &str) -> Name {
    let b = sx::bytes(1, label);
    sx::assume((b[0] >= b'a') & (b[0] <= b'z'));
    b
}
/// any one-letter name, capitals only
pub fn capital(label: &str) -> Name {
    let b = sx::bytes(1, label);
    sx::assume((b[0] >= b'A') & (b[0] <= b'Z'));
    b
}
/// any name of n letters, the first one capital or small
pub fn word(n: usize, cap: bool, label: &str) -> Name {
    let b = sx::bytes(n, label);
    for (i, x) in b.iter().enumerate() {
        let up = (*x >= b'A') & (*x <= b'Z');
        let lo = ((*x >= b'a') & (*x <= b'z')) | (*x == b'_');
        sx::assume(if i > 0 { up | lo | ((*x >= b'0') & (*x <= b'9')) } else if cap { up } else { lo });
    }
    b
}
const BUILTINS: [&str; 8] = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"];
pub fn is_builtin(n: &[u8]) -> bool { BUILTINS.iter().any(|b| b.as_bytes() == n) }

/// basic type or any one-letter name
fn any_type(label: &str) -> Name {
    if sx::pick(2, "basic?") == 1 { b"uint8".to_vec() } else { letter(label) }
}
fn flags(mode: u32) -> (bool, bool) {
    match mode {
        0 => (false, false),
        1 => {
            let (a, o) = (sx::flag("array"), sx::flag("optional"));
            sx::assume(!(a & o));
            (a, o)
        }
        2 => (sx::flag("array"), sx::flag("optional")),
        // one path per value
        _ => match sx::pick(3, "array or optional") { 0 => (false, false), 1 => (true, false), _ => (false, true) },
    }
}

/// params: scenario, then sizes
pub fn scenario() -> M {
    let p = |k: u32| sx::param(k) as usize;
    let mut m = M::default();
    match p(0) {
        // reference graph: p1 structs with p2 fields each (the last one p3), p4: an enum e declared, p5: flag mode, p6: undeclared names too
        0 => {
            let (d, f, l, e, fm, und) = (p(1), p(2), p(3), p(4), p(5) as u32, p(6));
            for i in 0..d {
                let n = if i + 1 == d { l } else { f };
                let fs = (0..n).map(|j| { let (arr, opt) = flags(fm); F { name: vec![b'p' + j as u8], ty: any_type("type"), arr, opt } }).collect::<Vec<F>>();
                if und == 0 { for f in &fs { if f.ty.len() == 1 { sx::assume(((f.ty[0] >= b'A') & (f.ty[0] < b'A' + d as u8)) | ((f.ty[0] == b'e') & (e == 1))) } } }
                m.decls.push(D { name: vec![b'A' + i as u8], k: K::S(fs) });
            }
            if e == 1 {
                m.decls.insert(d / 2, D { name: vec![b'e'], k: K::E(vec![vec![b'x'], vec![b'y']]) });
            }
            m.exports.push(letter("export"));
            sx::order(d as u32);
        }
        // one struct with p1 fields of symbolic name, basic or user type; p2: flag mode
        1 => {
            let fs = (0..p(1)).map(|_| { let (arr, opt) = flags(p(2) as u32); F { name: small("field"), ty: any_type("type"), arr, opt } }).collect::<Vec<F>>();
            for f in &fs { if f.ty.len() == 1 { sx::assume((f.ty[0] == b'B') | (f.ty[0] == b'E') | (f.ty[0] == b'_')) } }
            m.decls.push(D { name: b"A".to_vec(), k: K::S(fs) });
            m.decls.push(D { name: b"B".to_vec(), k: K::S(vec![F { name: b"a".to_vec(), ty: b"E".to_vec(), arr: false, opt: false }]) });
            m.decls.push(D { name: b"E".to_vec(), k: K::E(vec![b"x".to_vec()]) });
            m.exports.push(b"A".to_vec());
            sx::order(3);
        }
        // p1 declarations with symbolic names and kinds, 0..2 exports anywhere
        2 => {
            for _ in 0..p(1) {
                let name = capital("name");
                let k = match sx::pick(3, "kind") {
                    0 => K::S(vec![]),
                    1 => K::S(vec![F { name: b"f".to_vec(), ty: any_type("type"), arr: false, opt: false }]),
                    _ => K::E(vec![b"v".to_vec()]),
                };
                m.decls.push(D { name, k });
            }
            for _ in 0..sx::pick(3, "exports") { m.exports.push(letter("export")); }
            sx::order(p(1) as u32);
        }
        // an enum of 0..p1 variants, one of them with a symbolic name
        3 => {
            let n = sx::pick(p(1) as u32 + 1, "variants") as usize;
            let mut v: Vec<Name> = (0..n).map(|i| vec![b'v', b'0' + (i / 10) as u8, b'0' + (i % 10) as u8]).collect();
            if n > 0 {
                let at = sx::pick(n as u32, "which") as usize;
                let b = sx::bytes(2, "digits");
                for x in &b { sx::assume((*x >= b'0') & (*x <= b'9')); }
                v[at][1] = b[0];
                v[at][2] = b[1];
            }
            m.decls.push(D { name: b"E".to_vec(), k: K::E(v) });
            m.decls.push(D { name: b"A".to_vec(), k: K::S(vec![F { name: b"e".to_vec(), ty: b"E".to_vec(), arr: false, opt: false }]) });
            m.exports.push(b"A".to_vec());
        }
        // names of different lengths: p1 structs with fields of any type (two, then p4 each), an enum, any export; p2: flag mode, p3: basic types; one hash order
        5 => {
            const LEN: [usize; 4] = [2, 1, 3, 2];
            for i in 0..p(1) {
                let name = word(LEN[i % 4], true, "name");
                let fs = (0..if i == 0 { 2 } else { p(4) }).map(|j| {
                    let ty = match sx::pick(4, "type") { 0 => BUILTINS[sx::pick(p(3) as u32, "basic") as usize].as_bytes().to_vec(), k => word(k as usize, true, "type") };
                    let (arr, opt) = flags(p(2) as u32);
                    F { name: word(1 + (i + j) % 2, false, "field"), ty, arr, opt }
                }).collect();
                m.decls.push(D { name, k: K::S(fs) });
            }
            m.decls.push(D { name: word(3, true, "name"), k: K::E((0..3).map(|j| word(1 + j, false, "variant")).collect()) });
            m.exports.push(word(1 + sx::pick(3, "export length") as usize, true, "export"));
        }
        // one field of any basic type, the names around it of different lengths
        6 => {
            let fs = (0..p(1)).map(|j| {
                let (arr, opt) = flags(p(2) as u32);
                F { name: word(1 + j % 3, false, "field"), ty: BUILTINS[sx::pick(8, "basic") as usize].as_bytes().to_vec(), arr, opt }
            }).collect();
            m.decls.push(D { name: word(2, true, "name"), k: K::S(fs) });
            m.exports.push(word(2, true, "export"));
        }
        // an enum of up to p1 variants with symbolic names of different lengths
        7 => {
            let n = sx::pick(p(1) as u32 + 1, "variants") as usize;
            let v = (0..n).map(|i| word(1 + (i + 1) % 2, false, "variant")).collect();
            m.decls.push(D { name: b"E".to_vec(), k: K::E(v) });
            m.decls.push(D { name: b"A".to_vec(), k: K::S(vec![F { name: b"e".to_vec(), ty: b"E".to_vec(), arr: true, opt: false }]) });
            m.exports.push(b"A".to_vec());
        }
        // a chain of p1 structs declared in a mixed order, each with a basic field before and after the link; one more field of any declared type at any place;
        // p2: first name of the chain that is exported, p3: names whose hash order varies
        8 => {
            let d = p(1);
            let at = sx::pick(d as u32, "extra field at") as usize;
            let extra = capital("extra type");
            sx::assume(extra[0] < b'A' + d as u8);
            let first = sx::pick(2, "extra field first") == 1;
            let (arr, opt) = flags(3);
            for k in 0..d {
                let i = (k * 7 + 3) % d;
                let f = |n: &[u8], ty: &[u8]| F { name: n.to_vec(), ty: ty.to_vec(), arr: false, opt: false };
                let mut fs = vec![f(b"z", b"uint8")];
                if i + 1 < d { fs.push(f(b"y", &[b'A' + i as u8 + 1])) }
                fs.push(f(b"x", if i % 2 == 0 { b"e" } else { b"string" }));
                if i == at { let e = F { name: b"w".to_vec(), ty: extra.clone(), arr, opt }; if first { fs.insert(0, e) } else { fs.push(e) } }
                m.decls.push(D { name: vec![b'A' + i as u8], k: K::S(fs) });
            }
            m.decls.push(D { name: b"e".to_vec(), k: K::E(vec![b"q".to_vec(), b"p".to_vec()]) });
            let e = capital("export");
            sx::assume(e[0] < b'A' + d as u8);
            m.exports.push(e);
            sx::order(p(3) as u32);
        }
        // p1 (at most 26) fields of all kinds of type, one of them at any place with any name, type and marks; two structs and p2 enums declared around; the exported name is free
        9 => {
            let (n, es) = (p(1), p(2));
            let at = sx::pick(n as u32, "free field") as usize;
            let mut fs: Vec<F> = (0..n).map(|i| {
                let mut name = vec![b'a' + ((i * 7 + 3) % 26) as u8];
                if i % 3 == 1 { name.push(b'x') }
                let ty = match i % 4 { 1 => b"S".to_vec(), 3 if es > 0 => vec![b'e', b'0' + ((i * 5) % es) as u8], _ => BUILTINS[(i * 3) % 8].as_bytes().to_vec() };
                F { name, ty, arr: i % 5 == 1, opt: i % 5 == 3 }
            }).collect();
            let (arr, opt) = flags(2);
            let ty = any_type("type");
            if ty.len() == 1 { sx::assume((ty[0] == b'S') | (ty[0] == b'T') | (ty[0] == b'W') | (ty[0] == b'U')) }
            fs[at] = F { name: small("field"), ty, arr, opt };
            let f = |n: &[u8], ty: &[u8]| F { name: n.to_vec(), ty: ty.to_vec(), arr: false, opt: false };
            for k in 0..es / 2 { m.decls.push(D { name: vec![b'e', b'0' + k as u8], k: K::E(vec![b"q".to_vec(), b"p".to_vec()]) }) }
            m.decls.push(D { name: b"W".to_vec(), k: K::S(fs) });
            m.decls.push(D { name: b"T".to_vec(), k: K::S(vec![f(b"y", b"float"), f(b"x", b"S")]) });
            for k in es / 2..es { m.decls.push(D { name: vec![b'e', b'0' + k as u8], k: K::E((0..=k as u8).map(|i| vec![b'z' - i]).collect()) }) }
            m.decls.push(D { name: b"S".to_vec(), k: K::S(vec![f(b"s", b"string")]) });
            let e = capital("export");
            sx::assume((e[0] == b'S') | (e[0] == b'T') | (e[0] == b'W'));
            m.exports.push(e);
        }
        // an enum of up to p1 variants with symbolic names
        _ => {
            let n = sx::pick(p(1) as u32 + 1, "variants");
            let v = (0..n).map(|_| small("variant")).collect();
            m.decls.push(D { name: b"E".to_vec(), k: K::E(v) });
            m.decls.push(D { name: b"A".to_vec(), k: K::S(vec![F { name: b"e".to_vec(), ty: b"E".to_vec(), arr: true, opt: false }]) });
            m.exports.push(b"A".to_vec());
        }
    }
    m
}

fn eq(a: &[u8], b: &[u8]) -> bool { a == b }
fn find<'a>(m: &'a M, n: &[u8]) -> Option<&'a D> { m.decls.iter().find(|d| eq(&d.name, n)) }
fn index(m: &M, n: &[u8]) -> Option<usize> { m.decls.iter().position(|d| eq(&d.name, n)) }

/// c[i][j]: declaration i contains j through one or more fields, as formulas
fn closure(m: &M) -> Vec<Vec<bool>> {
    let n = m.decls.len();
    let mut r = vec![vec![false; n]; n];
    for (i, d) in m.decls.iter().enumerate() {
        if let K::S(fs) = &d.k { for f in fs { for j in 0..n { r[i][j] |= sx::same(&f.ty, &m.decls[j].name); } } }
    }
    for k in 0..n { for i in 0..n { for j in 0..n { r[i][j] |= r[i][k] & r[k][j]; } } }
    r
}

/// every message that could describe a broken rule and name a culprit, with the condition (a formula) under which it does
pub fn faults(m: &M) -> Vec<(bool, Vec<u8>)> {
    let mut out: Vec<(bool, Vec<u8>)> = Vec::new();
    let cat = |v: &[&[u8]]| v.concat();
    out.push((m.exports.is_empty(), b"Schema has no export".to_vec()));
    out.push((m.exports.len() > 1, b"Schema has more than one export".to_vec()));
    for (i, d) in m.decls.iter().enumerate() {
        let mut c = false;
        for x in &m.decls[..i] { c |= sx::same(&x.name, &d.name) }
        out.push((c, cat(&[b"Schema has duplicate declaration: ", &d.name])));
    }
    let c = closure(m);
    for (i, d) in m.decls.iter().enumerate() {
        match &d.k {
            K::E(v) => {
                out.push((v.is_empty(), cat(&[b"Enum '", &d.name, b"' must have at least one variant"])));
                out.push((v.len() > 32, cat(&[b"Enum '", &d.name, format!("' has too many variants ({}/32)", v.len()).as_bytes()])));
                for (i, x) in v.iter().enumerate() {
                    let mut c = false;
                    for y in &v[..i] { c |= sx::same(x, y) }
                    out.push((c, cat(&[b"Duplicate variant '", x, b"' on enum '", &d.name, b"'"])));
                }
            }
            K::S(fs) => {
                for (i, f) in fs.iter().enumerate() {
                    let mut c = false;
                    for g in &fs[..i] { c |= sx::same(&g.name, &f.name) }
                    out.push((c, cat(&[b"Duplicate field '", &f.name, b"' on struct '", &d.name, b"'"])));
                    out.push((f.arr & f.opt, cat(&[b"Field '", &f.name, b"' in struct '", &d.name, b"' cannot be optional and array at once"])));
                    if !is_builtin(&f.ty) {
                        let mut known = false;
                        for x in &m.decls { known |= sx::same(&x.name, &f.ty) }
                        out.push((!known, cat(&[b"Declaration for type '", &f.ty, b"' does not exist"])));
                    }
                }
                let mut cyclic = c[i][i];
                for j in 0..m.decls.len() { cyclic |= c[i][j] & c[j][j] }
                out.push((cyclic, cat(&[b"Found a cycle between two or more top level definitions in type '", &d.name, b"'"])));
            }
        }
    }
    if m.exports.len() == 1 {
        let e = &m.exports[0];
        let (mut known, mut is_enum) = (false, false);
        for d in &m.decls {
            let q = sx::same(&d.name, e);
            known |= q;
            if let K::E(_) = d.k { is_enum |= q }
        }
        out.push((!known, cat(&[b"Export '", e, b"' could not be resolved"])));
        // a basic type is known, but no struct
        if is_builtin(e) { is_enum = true }
        out.push((is_enum, cat(&[b"Attempted to export '", e, b"', which is not a struct"])));
    }
    out
}

#[no_mangle]
pub fn h_c05() {
    let m = scenario();
    let got = type_check(ast(&m));
    let mut bad = false;
    for (c, _) in faults(&m) { bad |= c }
    match got {
        Ok(_) => { sx::reach(0); sx::check(!bad, "ill-formed schema is accepted") }
        Err(_) => { sx::reach(1); sx::check(bad, "well-formed schema is rejected") }
    }
}
#[no_mangle]
pub fn h_c06() {
    let m = scenario();
    if let Err(e) = type_check(ast(&m)) {
        let bad = faults(&m);
        sx::reach(1);
        let mut ok = false;
        for (c, b) in &bad { ok |= *c & sx::same(b, e.as_bytes()); }
        let b = e.as_bytes();
        let kind = if e.starts_with("Found a cycle") { sx::reach(2); "cycle reported for a struct that reaches no cycle" }
            else if e.ends_with("does not exist") { sx::reach(3); "a declared type is reported as missing" }
            else if e.starts_with("Duplicate") { sx::reach(4); "wrong duplicate reported" }
            else if b.len() > 6 && &b[..6] == b"Export" { sx::reach(5); "wrong export reported" }
            else { sx::reach(6); "message describes no broken rule" };
        sx::check(ok, kind);
    }
}

/// the resolved type must be the declared one, all the way down
fn same_type(m: &M, name: &str, t: &ResolvedType, deep: bool) {
    let d = match find(m, name.as_bytes()) {
        Some(d) => d,
        None => {
            let b = match t {
                ResolvedType::Builtin(b) => b,
                _ => sx::fail("undeclared type in the result"),
            };
            let want = match b {
                check::Builtin::Uint8 => "uint8", check::Builtin::Uint16 => "uint16", check::Builtin::Uint32 => "uint32",
                check::Builtin::Int8 => "int8", check::Builtin::Int16 => "int16", check::Builtin::Int32 => "int32",
                check::Builtin::Float => "float", check::Builtin::String => "string",
            };
            sx::check(name == want, "basic type differs from the declared one");
            return;
        }
    };
    match (t, &d.k) {
        (ResolvedType::Struct(s), K::S(fs)) => same_struct(m, s, fs, deep),
        (ResolvedType::Enum(e), K::E(vs)) => {
            sx::check(e.variants.len() == vs.len(), "number of variants changed");
            for (i, (v, w)) in e.variants.iter().zip(vs.iter()).enumerate() {
                sx::check(sx::same(v.name.as_bytes(), w), "variant changed");
                sx::check(v.value == i, "variant position changed");
            }
            let w = match e.repr { check::EnumRepr::U8 => 8, check::EnumRepr::U16 => 16, check::EnumRepr::U32 => 32 };
            let want = if vs.len() <= 8 { 8 } else if vs.len() <= 16 { 16 } else { 32 };
            sx::check(w == want, "enum width is not the smallest");
        }
        _ => sx::fail("kind of type changed"),
    }
}
fn same_struct(m: &M, s: &check::Struct, fs: &[F], deep: bool) {
    sx::check(s.fields.len() == fs.len(), "number of fields changed");
    for (a, b) in s.fields.iter().zip(fs.iter()) {
        sx::check(sx::same(a.name.as_bytes(), &b.name), "field order or name changed");
        sx::check(a.array == b.arr, "array mark changed");
        sx::check(a.optional == b.opt, "optional mark changed");
        let t = &*a.r#type.borrow();
        sx::check(sx::same(t.0.as_bytes(), &b.ty), "field type changed");
        if deep { same_type(m, t.0, &t.1, true); }
    }
}
#[no_mangle]
pub fn h_c07() {
    let m = scenario();
    if let Ok(r) = type_check(ast(&m)) {
        sx::reach(0);
        let d = match find(&m, &m.exports[0]) { Some(d) => d, None => sx::fail("undeclared export accepted") };
        sx::check(sx::same(r.export.name.as_bytes(), &m.exports[0]), "exported name changed");
        match &d.k { K::S(fs) => same_struct(&m, &r.export.r#struct, fs, true), _ => sx::fail("enum exported") }
        for (n, t) in r.types.iter() {
            let t = &*t.borrow();
            sx::check(*n == t.0, "type stored under another name");
            same_type(&m, t.0, &t.1, false);
        }
        if r.export.r#struct.fields.iter().any(|f| matches!(f.r#type.borrow().1, ResolvedType::Struct(_))) { sx::reach(1) }
    }
}

fn reachable(m: &M) -> Vec<bool> {
    let c = closure(m);
    let e = index(m, &m.exports[0]).unwrap();
    (0..m.decls.len()).map(|i| i == e || c[e][i]).collect()
}
pub fn kept(m: &M, r: &Resolved) {
    let want = reachable(m);
    let mut n = 0;
    for (i, d) in m.decls.iter().enumerate() {
        let has = r.types.keys().any(|k| eq(k.as_bytes(), &d.name));
        if want[i] { n += 1; sx::check(has, "a needed type is missing") } else { sx::reach(1); sx::check(!has, "an unneeded type is kept") }
    }
    let users = r.types.iter().filter(|(_, t)| !matches!(t.borrow().1, ResolvedType::Builtin(_))).count();
    sx::check(users == n, "number of kept types is wrong");
}
#[no_mangle]
pub fn h_c08() {
    let m = scenario();
    if let Ok(r) = type_check(ast(&m)) {
        sx::reach(0);
        kept(&m, &r);
        let full = packetc_lib::gen::generate::<packetc_lib::gen::ts::TypeScript>(&r);
        let text = body(&full);
        let want = reachable(&m);
        for (i, d) in m.decls.iter().enumerate() {
            let head: &[u8] = match d.k { K::S(_) => b"interface ", K::E(_) => b"enum " };
            let is_export = eq(&d.name, &m.exports[0]);
            let n = count(text.as_bytes(), &[head, &d.name, b" {"].concat());
            sx::check(n == (want[i] && !is_export) as usize, "generated code declares a wrong set of types");
        }
        // the same schema without the unneeded declarations
        let mut s = M { decls: Vec::new(), exports: m.exports.clone() };
        for (i, d) in m.decls.iter().enumerate() { if want[i] { s.decls.push(d.clone()) } }
        if s.decls.len() < m.decls.len() {
            match type_check(ast(&s)) {
                Ok(q) => {
                    sx::reach(2);
                    let t = packetc_lib::gen::generate::<packetc_lib::gen::ts::TypeScript>(&q);
                    sx::check(body(&t) == text, "unneeded declarations change the generated code");
                }
                Err(_) => sx::fail("schema rejected without its unneeded declarations"),
            }
        }
    }
}
/// number of names whose hash order is varied
fn slots() -> u32 { match sx::param(0) { 0 | 2 => sx::param(1) as u32, 1 => 3, 5 | 9 => 0, 6 => 1, 8 => sx::param(3) as u32, _ => 2 } }
/// the generated module of a schema, if it is accepted
fn generated(nodes: Vec<Node<'static>>) -> Option<String> {
    type_check(nodes).ok().map(|r| packetc_lib::gen::generate::<packetc_lib::gen::ts::TypeScript>(&r))
}
fn same_result(a: &Option<String>, b: &Option<String>, accept: &str, text: &str) {
    match (a, b) {
        (Some(a), Some(b)) => { sx::reach(0); sx::check(sx::same(body(a).as_bytes(), body(b).as_bytes()), text) }
        (None, None) => sx::reach(1),
        _ => sx::fail(accept),
    }
}
/// the same schema compiled twice with other hash seeds, another schema in between
#[no_mangle]
pub fn h_c15() {
    let m = scenario();
    sx::order(0);
    let first = generated(ast(&m));
    sx::epoch(2);
    let other = M { decls: vec![D { name: b"Z".to_vec(), k: K::S(vec![F { name: b"q".to_vec(), ty: b"string".to_vec(), arr: true, opt: false }]) }], exports: vec![b"Z".to_vec()] };
    generated(ast(&other));
    sx::epoch(1);
    sx::order(slots());
    let second = generated(ast(&m));
    same_result(&first, &second, "one and the same schema is accepted or rejected by chance", "one and the same schema gives different modules");
}
/// the same schema with its statements in another order; p9: all hash orders too
#[no_mangle]
pub fn h_c16() {
    let m = scenario();
    sx::order(0);
    let first = generated(ast(&m));
    let mut nodes = ast(&m);
    let mut other = Vec::new();
    while nodes.len() > 1 { let k = sx::pick(nodes.len() as u32, "next statement") as usize; other.push(nodes.remove(k)); }
    other.append(&mut nodes);
    sx::epoch(1);
    if sx::param(9) == 1 { sx::order(slots()) }
    let second = generated(other);
    same_result(&first, &second, "the order of statements decides whether a schema is accepted", "the order of statements changes the generated module");
}
/// generated text without the line with the timestamp
pub fn body(s: &str) -> &str { match s.find('\n') { Some(i) => &s[i + 1..], None => s } }
/// occurrences of w in t
pub fn count(t: &[u8], w: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i + w.len() <= t.len() { if &t[i..i + w.len()] == w { n += 1 } i += 1; }
    n
}
