//! C01, C02, C03, C04: symbolic schema text through the real parser.
use crate::refparse::*;
use crate::sx;
use packetc_lib::ast::{Node, Type};
use packetc_lib::gen::ts::TypeScript;
use packetc_lib::parser::pkt;

/// Text windows: '\x01' = any byte, '\x02' = any ASCII byte, '\x03' = word character,
/// '\x04' = blank, tab, CR or LF, '\x05' = blank or tab, '\x06' = any ASCII byte but LF, '\x07' = letter or '_'
pub const WINDOWS: [&str; 20] = [
    "A: struct { \x02\x02\x02\x02\x02 }",                                   // 0 inside a struct
    "A: enum { \x02\x02\x02\x02\x02 }",                                     // 1 inside an enum
    "A: \x02\x02\x02\x02\x02\x02{ }",                                       // 2 keyword
    "A\x02\x02 struct\x02{\x02}\x02",                                       // 3 around the punctuation
    "A: struct { a\x02\x02\x02uint8\x02\x02\x02b:c }",                      // 4 around a field
    "\x03\x03\x03\x03\x03\x03\x03\x03: enum { X }",                         // 5 declaration names incl. reserved words
    "A: struct { \x03\x03\x03\x03\x03\x03\x03: B }",                        // 6 field names incl. reserved words
    "A: enum {\x03\x03\x03\x03\x03\x03\x03}",                               // 7 variant names incl. reserved words
    "A: struct { }\x02\x02\x02\x02export A",                                // 8 between items
    "export\x02\x02\x02\x02\x02",                                           // 9 export statement
    "\x02\x02exp\x02rt\x02A\x02",                                           // 10
    "A: struct { a?\x02 B\x02\x02, b: \x02[\x02\x02",                       // 11 marks, truncated text
    "#\x02\x02\x02\nA: enum { X }\x02#\x02\x02",                            // 12 comments
    "A: struct { #\x02\x02\n x: y #\x02\n\x02 # }\n}",                      // 13 comments in a struct
    "A: enum { X\x02\x02Y\x02\x02}\x02\x02",                                // 14 separators between variants
    "A:struct{x:y\x02\x02\x02z:w[]\x02\x02t:u}",                            // 15 separators between fields
    "# \x01\x01\x01\x01\nA: struct { \x01\x01\x01\x01",                        // 16 non-ASCII comment, then an error
    "A: struct {\r\n\tx: \x01\x01\x01\x01\x01\r\n}",                          // 17 CRLF
    "\x01\x01\x01 A: enum {\n\x01\x01}",                                         // 18
    "A: struct { a: uint8,\n b: string[],\n\n c?: A \x01\x01\x01 }\n export A",     // 19 later lines
];

/// windows in longer texts
fn long_window(k: usize) -> String {
    let r = |s: &str, n: usize| s.repeat(n);
    let list = |n: usize, t: &str| (0..n).map(|i| t.replace('%', &format!("{:03}", i))).collect::<String>();
    match k {
        20 => format!("A{}\x03\x03: struct {{ f{}\x03: T{}\x03\x02] }}", r("a", 90), r("b", 70), r("c", 300)),
        21 => format!("A:{}struct {{{}\x02x:{}\x02y\x02{}}}", r(" ", 70), r("\n", 60), r("\t", 70), r("\r\n ", 60)),
        22 => format!("A: struct {{ {}\x02\x02\x02 }}\nexport A", list(70, "f%: uint8, ")),
        23 => format!("{}\x02\x02export\x02A", list(40, "E%: enum { X }\n") + "A: struct { e: E000 }"),
        24 => format!("# {}\x02\x02\nA: struct {{ x: string }} # {}\x02\x02 export A", r("c #:{", 70), r("\u{e9}", 140)),
        25 => format!("{}A: struct {{\n\tx\x01\x01", r("# c\n", 120)),
        26 => format!("A: struct {{ {}\x02\x02\x02 }}", r("x: y, ", 45)),
        _ => format!("A: enum {{ {}\x02\x02\x02 }} B: struct {{ a: A }} export B", list(31, "v%,")),
    }
}
pub fn window(k: usize, extra: usize) -> Vec<u8> {
    let long = if k < WINDOWS.len() { WINDOWS[k].to_string() } else { long_window(k) };
    let src = long.as_bytes();
    let mut n = 0;
    for c in src { if *c < 8 { n += 1 } }
    let h = sx::bytes(n + extra, "window");
    let mut t = Vec::new();
    let mut i = 0;
    for c in src {
        if *c >= 8 { t.push(*c); continue; }
        let b = h[i];
        i += 1;
        let ok = match *c {
            1 => true,
            2 => b < 128,
            3 => wc(b),
            4 => (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r'),
            5 => (b == b' ') | (b == b'\t'),
            6 => (b < 128) & (b != b'\n'),
            _ => al(b),
        };
        sx::assume(ok);
        t.push(b);
    }
    for j in 0..extra { sx::assume(h[i + j] < 128); t.push(h[i + j]); }
    t
}
/// complete schemas whose text is edited at every position
pub const BASES: [&str; 5] = [
    "# c1\nA: struct {\n\tx: uint8,\n\ty?: B # c2\n\tz: string[]\n}\n\nB: enum { P, Q }\nexport A\n",
    "export Msg\r\nE1: enum {One two_,\r\n_3}\r\nEmpty: struct {}\r\nMsg: struct { a: E1[] b?:Empty, c : float ,}",
    "structA: struct { enumx: float exportz?: int32, struct_: enumB[] } enumB: enum { export1,\n\n Z , }\nexport structA # end",
    "A:struct{a?:int8,b:int16[]}\n#\nexport A\nB:struct{ # \u{e9}\n a:A # \u{20ac}\n b:A # }\n}",
    "\n  \n\t# \u{e9}\n  A : struct {  } export\tA  \n \n",
];
/// a base schema in which, at any position, up to two bytes are replaced by n arbitrary bytes
pub fn edited(base: usize, n: usize) -> Vec<u8> {
    let src = BASES[base].as_bytes();
    let at = sx::pick(src.len() as u32 + 1, "position") as usize;
    let cut = sx::pick(3, "replaced bytes") as usize;
    let end = if at + cut > src.len() { src.len() } else { at + cut };
    let mut t = Vec::new();
    t.extend_from_slice(&src[..at]);
    t.extend_from_slice(&sx::bytes(n, "edit"));
    t.extend_from_slice(&src[end..]);
    t
}
fn al(b: u8) -> bool { ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_') }
fn wc(b: u8) -> bool { al(b) | ((b >= b'0') & (b <= b'9')) }

fn slice_is(t: &[u8], r: (usize, usize), s: &str) -> bool { sx::same(&t[r.0..r.1], s.as_bytes()) }

/// the parse result must be exactly the reference result
pub fn compare(t: &[u8], ast: &[Node], r: &[RItem]) {
    sx::check(ast.len() == r.len(), "number of items differs from the text");
    for (n, x) in ast.iter().zip(r.iter()) {
        match (n, x) {
            (Node::Export(e), RItem::Export(w)) => sx::check(slice_is(t, *w, e), "export name differs from the text"),
            (Node::Decl(d, Type::Enum(v)), RItem::Enum(w, rv)) => {
                sx::check(slice_is(t, *w, d), "declaration name differs from the text");
                sx::check(v.0.len() == rv.len(), "number of variants differs from the text");
                for (a, b) in v.0.iter().zip(rv.iter()) { sx::check(slice_is(t, *b, a), "variant name differs from the text"); }
            }
            (Node::Decl(d, Type::Struct(v)), RItem::Struct(w, rv)) => {
                sx::check(slice_is(t, *w, d), "declaration name differs from the text");
                sx::check(v.0.len() == rv.len(), "number of fields differs from the text");
                for (a, b) in v.0.iter().zip(rv.iter()) {
                    sx::check(slice_is(t, b.name, a.0), "field name differs from the text");
                    sx::check(slice_is(t, b.ty, (a.1).0), "field type differs from the text");
                    sx::check((a.1).1 == b.array, "array mark differs from the text");
                    sx::check((a.1).2 == b.optional, "optional mark differs from the text");
                }
            }
            _ => sx::fail("kind of item differs from the text"),
        }
    }
}

fn c01(t: Vec<u8>) {
    let s = match std::str::from_utf8(&t) { Ok(s) => s, Err(_) => return };
    let got = pkt::schema(s);
    let want = parse(&t);
    match (&got, &want) {
        (Ok(a), Ok(r)) => {
            if r.is_empty() { sx::reach(1) } else { sx::reach(0) }
            compare(&t, a, r);
            sx::out(format!("{:?}", r.len()).as_bytes());
        }
        (Err(_), Err(_)) => sx::reach(2),
        (Ok(_), Err(_)) => sx::fail("text outside the syntax is accepted"),
        (Err(_), Ok(_)) => sx::fail("valid text is rejected"),
    }
}
#[no_mangle]
pub fn h_c01_raw() {
    let t = sx::bytes(sx::param(0) as usize, "text");
    if sx::param(1) == 1 { for b in &t { sx::assume(*b < 128); } }
    c01(t)
}
#[no_mangle]
pub fn h_c01_edit() { c01(edited(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c01_win() { c01(window(sx::param(0) as usize, sx::param(1) as usize)) }

#[no_mangle]
pub fn h_c03_raw() {
    let t = sx::bytes(sx::param(0) as usize, "text");
    c03(t)
}
#[no_mangle]
pub fn h_c03_edit() { c03(edited(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c03_win() { c03(window(sx::param(0) as usize, sx::param(1) as usize)) }
fn c03(t: Vec<u8>) {
    if let Ok(s) = std::str::from_utf8(&t) {
        match packetc_lib::compile::<TypeScript>(s) {
            Ok(o) => { sx::reach(0); sx::check(o.len() > 0, "empty output") }
            Err(packetc_lib::Error::Parse(m)) => { sx::reach(1); sx::check(m.len() > 0, "empty message") }
            Err(packetc_lib::Error::Check(m)) => { sx::reach(2); sx::check(m.len() > 0, "empty message") }
        }
    }
}

// ---------------------------------------------------------------- C02
/// token text and the kind of gap after it:
/// b blank*, B blank+, w ws*, s separator between variants, S separator between fields,
/// e end of variants, E end of fields, t between items, T between items after a word, z end of text
const LAYOUTS: [&[(&str, u8)]; 3] = [
    &[
        ("", b't'), ("A", b'b'), (":", b'b'), ("struct", b'b'), ("{", b'F'), ("x", b'b'), (":", b'b'), ("uint8", b'S'), ("y", b'b'), ("?:", b'b'), ("B", b'S'),
        ("z", b'b'), (":", b'b'), ("string[]", b'E'), ("}", b't'), ("B", b'b'), (":", b'b'), ("enum", b'b'), ("{", b'w'), ("P", b's'), ("Q", b'e'), ("}", b't'),
        ("export", b'B'), ("A", b'z'),
    ],
    &[
        ("", b't'), ("export", b'B'), ("Msg", b'T'), ("E1", b'b'), (":", b'b'), ("enum", b'b'), ("{", b'w'), ("One", b's'), ("two_", b's'), ("_3", b'e'), ("}", b't'),
        ("Empty", b'b'), (":", b'b'), ("struct", b'b'), ("{", b'F'), ("}", b't'), ("Msg", b'b'), (":", b'b'), ("struct", b'b'), ("{", b'F'),
        ("a", b'b'), (":", b'b'), ("E1[]", b'S'), ("b", b'b'), ("?:", b'b'), ("Empty", b'E'), ("}", b'z'),
    ],
    &[
        ("", b't'), ("structA", b'b'), (":", b'b'), ("struct", b'b'), ("{", b'F'), ("enumx", b'b'), (":", b'b'), ("float", b'S'), ("exportz", b'b'), ("?:", b'b'), ("int32", b'E'), ("}", b't'),
        ("export", b'B'), ("structA", b'z'),
    ],
];

fn blanks(t: &mut Vec<u8>, n: usize) {
    for b in sx::bytes(n, "blank") { sx::assume((b == b' ') | (b == b'\t')); t.push(b); }
}
fn white(t: &mut Vec<u8>, n: usize) {
    for b in sx::bytes(n, "white") { sx::assume((b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r')); t.push(b); }
}
/// a comment of n arbitrary bytes up to and including its line end
fn remark(t: &mut Vec<u8>, n: usize, end: bool) {
    t.push(b'#');
    for b in sx::bytes(n, "comment") { sx::assume((b < 128) & (b != b'\n')); t.push(b); }
    if end { t.push(b'\n'); }
}
fn gap(t: &mut Vec<u8>, kind: u8, vary: bool) {
    if !vary {
        match kind { b'B' | b's' | b'S' | b'T' => t.push(b' '), _ => {} }
        return;
    }
    match kind {
        b'b' => { let n = sx::pick(4, "gap"); if n == 3 { for i in 0..70 { t.push(b" \t"[i % 2]) } } else { blanks(t, n as usize) } }
        b'B' => { let n = 1 + sx::pick(2, "gap"); blanks(t, n as usize) }
        b'w' => { let n = sx::pick(5, "gap"); if n == 4 { for i in 0..70 { t.push(b"\n \r\t"[i % 4]) } } else { white(t, n as usize) } }
        b's' | b'S' => {
            match sx::pick(6, "gap") {
                0 => white(t, 1),
                1 => white(t, 2),
                2 => t.push(b','),
                3 => { t.push(b','); white(t, 2) }
                4 => { white(t, 1); t.push(b','); white(t, 1) }
                _ => { white(t, 2); t.push(b',') }
            }
            if kind == b'S' { maybe_remark(t) }
        }
        b'e' | b'E' => {
            match sx::pick(5, "gap") {
                0 => {}
                1 => white(t, 2),
                2 => t.push(b','),
                3 => { t.push(b','); white(t, 1) }
                _ => { white(t, 1); t.push(b','); white(t, 1) }
            }
            if kind == b'E' { maybe_remark(t) }
        }
        b'F' => { let n = sx::pick(3, "gap"); white(t, n as usize); maybe_remark(t) }
        b't' => { let n = sx::pick(3, "gap"); white(t, n as usize); maybe_remark(t) }
        b'T' => { let n = 1 + sx::pick(2, "gap"); white(t, n as usize); maybe_remark(t) }
        _ => {
            let n = sx::pick(3, "gap");
            white(t, n as usize);
            match sx::pick(3, "tail") { 0 => {} 1 => { t.push(b'\n'); remark(t, 2, false) } _ => { t.push(b' '); remark(t, 1, true); white(t, 1) } }
        }
    }
}
fn maybe_remark(t: &mut Vec<u8>) {
    match sx::pick(5, "comment?") {
        0 => {}
        1 => remark(t, 2, true),
        2 => { remark(t, 0, true); white(t, 1) }
        3 => { remark(t, 1, true); remark(t, 1, true) }
        // a long one
        _ => {
            t.push(b'#');
            for i in 0..300 { t.push(b"c #:{},?[] "[i % 11]) }
            t.extend_from_slice("\u{e9}\u{20ac}\u{1f600}".as_bytes());
            remark(t, 1, true)
        }
    }
}
/// params: layout, number of gaps varied together, first gap from..to
#[no_mangle]
pub fn h_c02() {
    let l = LAYOUTS[sx::param(0) as usize];
    let w = sx::param(1) as usize;
    let first = sx::pick((l.len() - w + 1) as u32, "first gap") as usize;
    let (mut t, mut plain) = (Vec::new(), Vec::new());
    for (i, (tok, kind)) in l.iter().enumerate() {
        t.extend_from_slice(tok.as_bytes());
        plain.extend_from_slice(tok.as_bytes());
        gap(&mut t, *kind, i >= first && i < first + w);
        gap(&mut plain, *kind, false);
    }
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let p = unsafe { std::str::from_utf8_unchecked(&plain) };
    let want = match pkt::schema(p) { Ok(a) => a, Err(_) => sx::fail("plain layout is rejected") };
    match pkt::schema(s) {
        Ok(got) => {
            sx::reach(0);
            sx::check(got == want, "layout changes the parse result");
            sx::out(format!("{:?}", got).as_bytes());
        }
        Err(_) => sx::fail("layout makes a valid schema rejected"),
    }
}

// ---------------------------------------------------------------- C04
fn c04(t: Vec<u8>) {
    let s = match std::str::from_utf8(&t) { Ok(s) => s, Err(_) => return };
    let pos = match parse(&t) { Err(p) => p, Ok(_) => { sx::reach(2); return } };
    // line, column, line bounds
    let (mut line, mut col, mut start) = (1usize, 1usize, 0usize);
    for i in 0..pos {
        if t[i] == b'\n' { line += 1; col = 1; start = i + 1; }
        else if t[i] & 0xC0 != 0x80 { col += 1; }
    }
    let mut end = start;
    while end < t.len() && t[end] != b'\n' { end += 1; }
    let mut want: Vec<u8> = Vec::new();
    want.extend_from_slice(b"\nUnexpected token '");
    if pos < t.len() {
        let mut e = pos + 1;
        while e < t.len() && t[e] & 0xC0 == 0x80 { e += 1; }
        want.extend_from_slice(&t[pos..e]);
        sx::reach(3);
    } else {
        want.push(0);
        sx::reach(4);
    }
    want.extend_from_slice(format!("' at line {}, column {}\n|\n|  ", line, col).as_bytes());
    let head = want.len();
    want.extend_from_slice(&t[start..end]);
    want.extend_from_slice(b"\n|~~");
    for _ in 1..col { want.push(b'~'); }
    want.extend_from_slice(b"^\n");
    let msg = match packetc_lib::compile::<TypeScript>(s) {
        Err(packetc_lib::Error::Parse(m)) => m,
        _ => { sx::reach(1); return }
    };
    let m = msg.as_bytes();
    sx::out(m);
    sx::check(m.len() >= head && sx::same(&m[..head], &want[..head]), "error message has the wrong token or position");
    sx::check(sx::same(m, &want), "error message shows the wrong line or caret");
}
#[no_mangle]
pub fn h_c04_raw() { c04(sx::bytes(sx::param(0) as usize, "text")) }
#[no_mangle]
pub fn h_c04_edit() { c04(edited(sx::param(0) as usize, sx::param(1) as usize)) }
#[no_mangle]
pub fn h_c04_win() { c04(window(sx::param(0) as usize, sx::param(1) as usize)) }
