//! C17-C20, C25, C26: what the command-line program does to the file system.
use crate::host;
use crate::world::*;
use harness::sx;
use packetc_lib as pkt;
use std::cell::UnsafeCell;

/// what the oracle needs to know when the program has ended
struct Ctx {
    world: World,
    single: bool,
    /// node named by the second argument, 0 if it does not exist
    input: usize,
    out: Vec<u8>,
    mode: Mode,
    /// an output cannot be written because of what is already there
    blocked: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode { Plain, Fault, Lang(bool), Told, Args(Line) }
/// what a command line is: refused, a question for help or version, something that may be either, a complete one
#[derive(Clone, Copy, PartialEq)]
enum Line { Bad, Help, Unsure, Good }
struct Cell(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Cell {}
static CTX: Cell = Cell(UnsafeCell::new(None));

const TEXTS: [&[u8]; 6] = [
    b"P: struct { x: uint8 } export P",
    b"E: enum { A, B } T: struct { x: uint8[] } Q: struct { e: E, t?: T } export Q",
    b"A: struct { x: uint8 }",
    b"A: struct { x: Nope } export A",
    b"A: struct { x uint8 } export A",
    b"A: struct { x: uint8 } export A # \xff\n",
];
fn text(k: u32) -> &'static [u8] { TEXTS[k as usize] }

/// the code the compiler generates for a text, None if it refuses it
fn generated(t: &[u8]) -> Option<String> {
    let s = std::str::from_utf8(t).ok()?;
    pkt::compile::<pkt::gen::ts::TypeScript>(s).ok()
}
/// generated code without the time in its first line
fn undated(s: &[u8]) -> Vec<u8> {
    let nl = match s.iter().position(|b| *b == b'\n') { Some(n) => n, None => return s.to_vec() };
    let at = match s[..nl].windows(4).position(|w| w == b" at ") { Some(n) => n, None => return s.to_vec() };
    let mut v = s[..at].to_vec();
    v.extend_from_slice(&s[nl..]);
    v
}
/// position of the dot that starts the extension
fn ext_at(name: &[u8]) -> Option<usize> {
    let mut i = name.len();
    while i > 1 {
        i -= 1;
        if name[i] == b'.' { return Some(i); }
    }
    None
}
fn is_pkt(name: &[u8]) -> bool { match ext_at(name) { Some(d) => name.len() - d == 4 && sx::same(&name[d + 1..], b"pkt"), None => false } }
fn output_name(name: &[u8]) -> Vec<u8> {
    let stem = match ext_at(name) { Some(d) => &name[..d], None => name };
    let mut v = stem.to_vec();
    v.extend_from_slice(b".ts");
    v
}
/// node a link leads to (links in the worlds used here are plain paths from their directory, and lead to no other link)
fn target(nodes: &[Node], i: usize) -> usize {
    let l = match &nodes[i].link { Some(l) => l, None => return i };
    let mut at = nodes[i].parent;
    for c in l.split(|b| *b == b'/') {
        if c == b".." { at = nodes[at].parent; continue; }
        let mut hit = 0;
        for k in 1..nodes.len() { if nodes[k].parent == at && nodes[k].name == c { hit = k; } }
        at = hit;
    }
    at
}
/// (path below d, node) of the files below d
fn files(nodes: &[Node], d: usize, at: &[u8], out: &mut Vec<(Vec<u8>, usize)>) {
    for i in 1..nodes.len() {
        if nodes[i].parent != d || i == d { continue; }
        let p = if at.is_empty() { nodes[i].name.clone() } else { join(at, &nodes[i].name) };
        let k = target(nodes, i);
        if nodes[k].dir { files(nodes, k, &p, out) } else { out.push((p, i)) }
    }
}
fn join(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    while v.last() == Some(&b'/') { v.pop(); }
    v.push(b'/');
    v.extend_from_slice(b);
    v
}

/// (output path, code) for every input, and whether all inputs compile
fn expected(c: &Ctx) -> (Vec<(Vec<u8>, Option<Vec<u8>>)>, bool) {
    let n = &c.world.nodes;
    let mut out = Vec::new();
    let mut good = c.input != 0;
    let mut inputs = Vec::new();
    if c.single { inputs.push((n[c.input].name.clone(), c.input)); } else if c.input != 0 { files(n, target(n, c.input), b"", &mut inputs); }
    for (rel, i) in inputs {
        if !c.single && !is_pkt(&n[i].name) { continue; }
        let mut p = rel[..rel.len() - n[i].name.len()].to_vec();
        p.extend_from_slice(&output_name(&n[i].name));
        let g = generated(&n[target(n, i)].data);
        good &= g.is_some();
        out.push((join(&c.out, &p), g.map(|s| undated(s.as_bytes()))));
    }
    (out, good)
}
fn all(c: &Ctx, o: &Outcome, want: &[(Vec<u8>, Option<Vec<u8>>)]) -> bool {
    let mut ok = true;
    for (p, g) in want {
        let mut hit = false;
        for i in 1..o.nodes.len() {
            if o.nodes[i].dir || o.nodes[i].link.is_some() || o.nodes[i].parent == usize::MAX { continue; }
            let q = path(&o.nodes, i);
            if q.len() != p.len() { continue; }
            let same = sx::same(&q, p);
            let code = match g { Some(g) => sx::same(g, &undated(&o.nodes[i].data)), None => false };
            hit = hit | (same & code);
        }
        ok = ok & hit;
    }
    let _ = c;
    ok
}
/// files that were there are unchanged, unless they are an expected output; nothing else was made
/// (a run that failed may leave unfinished files)
fn rest(c: &Ctx, o: &Outcome, want: &[(Vec<u8>, Option<Vec<u8>>)], written: bool, leftovers: bool) -> bool {
    let mut ok = true;
    let old = &c.world.nodes;
    for i in 1..o.nodes.len() {
        if o.nodes[i].parent == usize::MAX { continue; }
        let q = path(&o.nodes, i);
        // a file that was not there before
        let mut fine = leftovers;
        if leftovers { for j in 1..old.len() { fine = fine & !sx::same(&q, &path(old, j)); } }
        for (p, _) in want { fine = fine | (written & !o.nodes[i].dir & sx::same(&q, p)); }
        for j in 1..old.len() {
            if old[j].dir != o.nodes[i].dir || old[j].link != o.nodes[i].link { continue; }
            fine = fine | (sx::same(&q, &path(old, j)) & sx::same(&old[j].data, &o.nodes[i].data));
        }
        // directories on the way to an output
        if o.nodes[i].dir {
            let mut dir = q.clone();
            dir.push(b'/');
            for (p, _) in want { if p.len() > dir.len() { fine = fine | (written & sx::same(&dir, &p[..dir.len()])); } }
        }
        ok = ok & fine;
    }
    for j in 1..old.len() {
        let p = path(old, j);
        let mut kept = false;
        for i in 1..o.nodes.len() { if o.nodes[i].parent != usize::MAX { kept = kept | ((o.nodes[i].dir == old[j].dir) & sx::same(&p, &path(&o.nodes, i))); } }
        ok = ok & kept;
    }
    ok
}

/// does some line end with p
fn line_ends(t: &[u8], p: &[u8]) -> bool {
    let mut hit = false;
    for i in 0..t.len() {
        if t[i] == b'\n' && i >= p.len() { hit = hit | sx::same(&t[i - p.len()..i], p); }
    }
    hit
}
fn contains(t: &[u8], p: &[u8]) -> bool {
    let mut hit = false;
    for i in p.len()..t.len() + 1 { hit = hit | sx::same(&t[i - p.len()..i], p); }
    hit
}
/// what the program says about the files it wrote and the inputs it refused
fn told(c: &Ctx, o: &Outcome) {
    let (want, good) = expected(c);
    let n = &c.world.nodes;
    if good {
        sx::reach(1);
        sx::check(o.status == 0, "nonzero exit status although every input compiles");
        for (p, _) in &want { sx::check(line_ends(&o.stdout, p), "a file that was written is not announced"); }
        let mut lines = 0;
        for i in 10..o.stdout.len() { if sx::same(&o.stdout[i - 10..i], b"Writing to") { lines += 1; } }
        sx::check(lines == want.len(), "something else is announced as written");
        sx::check(o.stderr.is_empty(), "complaint although every input compiles");
        return;
    }
    sx::reach(2);
    sx::check(o.status != 0, "zero exit status although an input fails");
    for (p, _) in &want { sx::check(!line_ends(&o.stdout, p), "a file is announced although an input fails"); }
    // the reason why one of the inputs is refused
    let mut reason = false;
    let mut inputs = Vec::new();
    if c.single { inputs.push((Vec::new(), c.input)); } else { files(n, c.input, b"", &mut inputs); }
    for (_, i) in inputs {
        match std::str::from_utf8(&n[i].data) {
            Ok(s) => if let Err(e) = pkt::compile::<pkt::gen::ts::TypeScript>(s) { sx::reach(3); reason = reason | contains(&o.stderr, e.to_string().as_bytes()); },
            Err(_) => { sx::reach(4); reason = reason | contains(&o.stderr, b"UTF-8"); }
        }
    }
    sx::check(reason, "the reason why an input is refused is not given");
}

pub fn judge(o: &Outcome) {
    let c = unsafe { (*CTX.0.get()).as_ref().unwrap() };
    sx::out(&[(o.status != 0) as u8, o.complained as u8, o.faulted as u8]);
    if c.mode == Mode::Told { return told(c, o); }
    if let Mode::Args(l) = c.mode {
        let (want, _) = expected(c);
        sx::reach(l as u32);
        match l {
            Line::Bad => { sx::check(o.status != 0, "wrong command line accepted"); sx::check(o.complained, "no error message"); }
            Line::Help => { sx::check(o.status == 0, "question for help refused"); sx::check(!o.stdout.is_empty(), "no help given"); }
            Line::Unsure => {}
            Line::Good => { sx::check(o.status == 0, "complete command line refused"); sx::check(all(c, o, &want), "output missing or wrong"); }
        }
        sx::check(rest(c, o, &want, l == Line::Good, false), "other file created or changed");
        return;
    }
    if let Mode::Lang(ok) = c.mode {
        sx::check((o.status == 0) == ok, if ok { "supported language refused" } else { "unsupported language accepted" });
        let (want, _) = expected(c);
        if ok { sx::check(all(c, o, &want), "output missing or wrong"); } else { sx::check(o.complained, "no error message"); sx::check(o.calls == 0, "file touched before the language was refused"); }
        sx::check(rest(c, o, &want, ok, false), "other file created or changed");
        sx::reach(ok as u32);
        return;
    }
    let (want, good) = expected(c);
    // names that are not text may be refused
    let mut odd = false;
    for (p, _) in &want { odd |= std::str::from_utf8(p).is_err(); }
    for a in &c.world.args { odd |= std::str::from_utf8(a).is_err(); }
    if c.mode == Mode::Fault {
        let done = all(c, o, &want);
        if o.faulted {
            sx::reach(1);
            sx::check((o.status != 0) | done, "success reported after an I/O failure");
        } else if odd {
            sx::reach(5);
            sx::check((o.status != 0) | done, "success reported without the outputs");
        } else {
            sx::reach(2);
            if c.blocked { sx::reach(3); }
            if c.input == 0 { sx::reach(4); }
            sx::check((o.status == 0) == (good && !c.blocked), if o.status == 0 { "success reported after an I/O failure" } else { "failure reported without a reason" });
            sx::check((o.status != 0) | done, "success reported without the outputs");
        }
        sx::check((o.status == 0) | o.complained, "no error message");
        sx::check(rest(c, o, &want, true, o.faulted), "other file created or changed");
        return;
    }
    let good = if odd && good {
        sx::reach(5);
        o.status == 0
    } else { good };
    sx::reach(if good { 1 } else { 2 });
    if want.is_empty() { sx::reach(3); }
    if want.len() > 1 { sx::reach(4); }
    if good {
        sx::check(o.status == 0, "nonzero exit status although every input compiles");
        sx::check(all(c, o, &want), "output missing or wrong");
        for i in 0..want.len() { for j in 0..i { sx::check(!sx::same(&want[i].0, &want[j].0), "two inputs share an output path"); } }
    } else {
        sx::check(o.status != 0, "zero exit status although an input fails");
        sx::check(o.complained, "no error message");
    }
    sx::check(rest(c, o, &want, good, false), if good { "other file created or changed" } else { "file created or changed although an input fails" });
}

/// n bytes that can be a file name: no slash, no zero, not "." or ".."
fn name(n: usize, label: &str) -> Vec<u8> {
    let v = sx::bytes(n, label);
    let mut ok = true;
    let mut dots = true;
    for b in &v { ok = ok & (*b != 0) & (*b != b'/'); dots = dots & (*b == b'.'); }
    if n <= 2 { ok = ok & !dots; }
    sx::assume(ok);
    v
}
fn start(c: Ctx) {
    let w = c.world.clone();
    unsafe { *CTX.0.get() = Some(c) };
    host::run(&w);
}

/// params: kind of tree, free bytes per name, fixed tail (0 none, 1 ".pkt")
#[no_mangle] pub fn h_c17() {
    let (kind, free, tail) = (sx::param(0), sx::param(1) as usize, sx::param(2));
    let mk = |l: &str| { let mut v = name(free, l); if tail == 1 { v.extend_from_slice(b".pkt"); } v };
    let mut w = World::new();
    let mut out = b"out".to_vec();
    let (mut single, mut input, mut arg) = (false, 0, Vec::new());
    match kind {
        // one entry of a directory, a file with any name
        0 => {
            input = w.dir(0, b"in");
            w.file(input, &mk("name"), text(0));
        }
        // single file with any name the command line takes for a file
        1 => {
            single = true;
            let n = mk("name");
            sx::assume(n[0] != b'-');
            input = w.file(0, &n, text(0));
        }
        // sub-directory with any name
        2 => {
            input = w.dir(0, b"in");
            let d = w.dir(input, &mk("directory"));
            w.file(d, b"x.pkt", text(1));
        }
        // two files with any different names
        3 => {
            input = w.dir(0, b"in");
            let (a, b) = (mk("name"), mk("other"));
            sx::assume(!sx::same(&a, &b));
            w.file(input, &a, text(0));
            w.file(input, &b, text(1));
        }
        // file below two directories, all with any names
        4 => {
            input = w.dir(0, b"in");
            let (a, b, n) = (name(free, "outer"), name(free, "inner"), mk("name"));
            let d = w.dir(input, &a);
            let e = w.dir(d, &b);
            w.file(e, &n, text(0));
        }
        // single file inside a directory, any directory name
        5 => {
            single = true;
            let (d, n) = (name(free, "directory"), mk("name"));
            sx::assume(d[0] != b'-');
            let d = w.dir(0, &d);
            input = w.file(d, &n, text(1));
        }
        // any names for the input and output directories; the same tree, or one inside the other
        6 => {
            let (a, b) = (name(free, "input directory"), name(free, "output directory"));
            sx::assume(a[0] != b'-' && b[0] != b'-');
            input = w.dir(0, &a);
            w.file(input, b"x.pkt", text(0));
            w.file(input, b"y.ts", b"keep");
            out = b;
            match sx::pick(3, "relation") { 0 => {} 1 => { out = join(&a, &out); w.dir(input, b"d"); } _ => { out = a.clone(); } }
        }
        // links to a file and to a directory, with any names
        8 => {
            input = w.dir(0, b"in");
            let (a, b) = (mk("link"), name(free, "directory link"));
            sx::assume(!sx::same(&a, &b));
            let far = w.dir(0, b"far");
            w.file(far, b"f", text(0));
            let sub = w.dir(far, b"sub");
            w.file(sub, b"x.pkt", text(1));
            w.file(sub, b"y.txt", b"keep");
            w.link(input, &a, b"../far/f");
            w.link(input, &b, b"../far/sub");
        }
        // a single file, or the input directory, given as a link
        9 => {
            let n = mk("link");
            sx::assume((n[0] != b'-') & !sx::same(&n, b"far") & !sx::same(&n, b"out"));
            single = sx::pick(2, "single") == 1;
            let far = w.dir(0, b"far");
            w.file(far, b"x.pkt", text(1));
            input = w.link(0, &n, if single { b"far/x.pkt" } else { b"far" });
        }
        // many files, deep directories
        10 => {
            input = w.dir(0, b"in");
            let mut d = input;
            for k in 0..free as u8 {
                w.file(d, &[b'f', b'0' + k, b'.', b'p', b'k', b't'], text((k & 1) as u32));
                w.file(d, b"g.pkt", text(0));
                d = w.dir(d, &[b'd', b'0' + k]);
            }
            let n = name(2, "name");
            w.file(d, &n, b"not a schema");
            w.file(d, b"end.pkt", text(1));
        }
        // many files in one directory, long names
        11 => {
            input = w.dir(0, b"in");
            let long = |n: &[u8], tail: &[u8]| { let mut v = vec![b'n'; 90]; v.extend_from_slice(n); v.extend_from_slice(tail); v };
            for k in 0..free as u8 { w.file(input, &[b'f', b'0' + k / 10, b'0' + k % 10, b'.', b'p', b'k', b't'], text((k & 1) as u32)); }
            let n = name(2, "name");
            let d = w.dir(input, &long(&n, b""));
            w.file(d, &long(&n, b".pkt"), text(1));
            w.file(input, &long(&n, b".pkt"), text(0));
        }
        // ways of writing the same directory
        _ => {
            let d = w.dir(0, b"dir");
            input = w.dir(d, b"in");
            let sub = w.dir(input, b"sub");
            let n = mk("name");
            w.file(input, b"a.pkt", text(0));
            w.file(sub, &n, text(1));
            w.file(input, b"other.txt", b"keep");
            arg = [&b"dir/in"[..], b"dir/in/", b"./dir/in", b"dir//in", b"dir/./in", b"dir/in/.", b"dir/in/../in", b"dir/in/sub/.."][sx::pick(8, "spelling") as usize].to_vec();
            let o = sx::pick(7, "output spelling") as usize;
            out = [&b"out"[..], b"out", b"out", b"deep/er", b"dir/in", b"o.pkt/x.y", b"out"][o].to_vec();
            let written = [&b"out"[..], b"out/", b"./out", b"deep/er", b"dir/in", b"o.pkt//x.y/.", b"dir/../out"][o].to_vec();
            w.args = vec![b"ts".to_vec(), arg.clone(), written];
        }
    }
    if w.args.is_empty() { w.args = vec![b"ts".to_vec(), path(&w.nodes, input), out.clone()]; }
    if sx::param(3) == 1 {
        // the output directory is there already, with other files
        let o = w.dir(0, b"out");
        w.file(o, b"old.ts", b"keep");
        w.file(o, b"x.pkt", b"keep");
    }
    let _ = arg;
    start(Ctx { world: w, single, input, out, mode: Mode::Plain, blocked: false });
}

/// params: kind of tree, bytes of free text
#[no_mangle] pub fn h_c18() {
    let (kind, free) = (sx::param(0), sx::param(1) as usize);
    let mut w = World::new();
    let out = b"out".to_vec();
    let input;
    let mut single = false;
    let stale = |w: &mut World, names: &[&[u8]], t: &[u8]| {
        let k = sx::pick(if kind == 0 || kind == 1 { 5 } else { 3 }, "old output");
        if k == 0 { return; }
        let code = generated(t).unwrap_or_default().into_bytes();
        // longer, shorter, as long as the new code, the code with one byte changed
        let old = match k { 1 => vec![b'o'; 4000], 2 => b"old".to_vec(), 3 => vec![b'o'; code.len()], _ => { let mut c = code; c.push(b' '); let n = c.len(); if n > 9 { c[n - 9] ^= 1; } c } };
        let o = w.dir(0, b"out");
        for n in names { w.file(o, n, &old); }
    };
    if kind < 4 { w.faults.chunk = [0, 1, 7][sx::pick(if kind == 0 { 2 } else { 3 }, "transfer size") as usize]; }
    match kind {
        // three files in two directories, any contents of the list
        0 => {
            input = w.dir(0, b"in");
            let t: Vec<u32> = (0..3).map(|i| sx::pick(6, ["first", "second", "third"][i])).collect();
            let first = sx::pick(2, "directory first") == 1;
            if !first { w.file(input, b"a.pkt", text(t[0])); }
            let d = w.dir(input, b"d");
            w.file(d, b"b.pkt", text(t[1]));
            if first { w.file(input, b"a.pkt", text(t[0])); }
            w.file(input, b"c.pkt", text(t[2]));
            stale(&mut w, &[b"a.ts"], text(t[0]));
        }
        // single file
        1 => {
            single = true;
            let k = sx::pick(6, "text");
            input = w.file(0, b"a.pkt", text(k));
            stale(&mut w, &[b"a.ts"], text(k));
        }
        // a free text next to a good one
        2 => {
            input = w.dir(0, b"in");
            let t = sx::bytes(free, "text");
            let first = sx::pick(2, "free text first") == 1;
            if first { w.file(input, b"a.pkt", &t); }
            w.file(input, b"b.pkt", text(0));
            if !first { w.file(input, b"a.pkt", &t); }
            stale(&mut w, &[b"a.ts", b"b.ts"], text(0));
        }
        // a long text
        4 => {
            single = sx::pick(2, "single") == 1;
            let mut t = b"P: struct { x: uint8 }\n# ".to_vec();
            t.resize(free, b'-');
            t.extend_from_slice(b"\n");
            t.extend_from_slice(&sx::bytes(2, "end"));
            t.extend_from_slice(b"export P");
            if single { input = w.file(0, b"a.pkt", &t); } else { input = w.dir(0, b"in"); w.file(input, b"a.pkt", &t); }
            w.faults.chunk = [0, 4096][sx::pick(2, "long transfer") as usize];
        }
        // a schema with many fields, which makes a long module
        5 => {
            single = sx::pick(2, "single") == 1;
            let mut t = b"P: struct {".to_vec();
            for i in 0..free { t.extend_from_slice(format!(" f{}: {}", i, ["uint8", "string", "float[]"][i % 3]).as_bytes()); }
            t.extend_from_slice(b"}");
            t.extend_from_slice(&sx::bytes(1, "end"));
            t.extend_from_slice(b"export P");
            if single { input = w.file(0, b"a.pkt", &t); } else { input = w.dir(0, b"in"); w.file(input, b"a.pkt", &t); }
            stale(&mut w, &[b"a.ts"], text(0));
            w.faults.chunk = [0, 4096][sx::pick(2, "long transfer") as usize];
        }
        // single file with a free window in a schema
        _ => {
            single = true;
            let place = if kind == 6 { 2 * sx::pick(2, "place") } else { 1 };
            let mut t = Vec::new();
            for (i, s) in [&b""[..], b"P: struct { x: uint8 } ", b"export P"].iter().enumerate() {
                t.extend_from_slice(s);
                if i as u32 == place { t.extend_from_slice(&sx::bytes(free, "window")); }
            }
            input = w.file(0, b"a.pkt", &t);
            stale(&mut w, &[b"a.ts"], text(0));
        }
    }
    w.args = vec![b"ts".to_vec(), path(&w.nodes, input), out.clone()];
    start(Ctx { world: w, single, input, out, mode: Mode::Plain, blocked: false });
}

/// params: kind of tree, calls that may fail, free bytes in names
#[no_mangle] pub fn h_c19() {
    let (kind, calls) = (sx::param(0), sx::param(1) as u32);
    let mut w = World::new();
    let mut out = b"out".to_vec();
    let mut input = 0;
    let mut single = false;
    let mut blocked = false;
    let mut arg = None;
    let free = sx::param(2) as usize;
    let pkt = |mut v: Vec<u8>| { v.extend_from_slice(b".pkt"); v };
    match kind {
        0 => {
            input = w.dir(0, b"in");
            w.file(input, &pkt(name(free, "file")), text(0));
            let d = w.dir(input, &name(free, "directory"));
            w.file(d, b"b.pkt", text(1));
            if sx::pick(2, "output directory") == 1 { w.dir(0, b"out"); }
        }
        1 => {
            single = true;
            let n = pkt(name(free, "file"));
            sx::assume(n[0] != b'-');
            input = w.file(0, &n, text(0));
            if sx::pick(2, "output directory") == 1 { w.dir(0, b"out"); } else { out = b"x/y".to_vec(); }
        }
        // nothing at the input path
        2 => {
            let n = name(free, "path");
            sx::assume(n[0] != b'-');
            w.file(0, b"f.pkt", text(0));
            let d = w.dir(0, b"in");
            w.file(d, b"f.pkt", text(0));
            arg = Some(match sx::pick(4, "place") { 0 => n, 1 => join(b"in", &n), 2 => join(b"f.pkt", &n), _ => join(&n, b"f.pkt") });
            // not one of the names that are there
            let a = arg.clone().unwrap();
            sx::assume(!sx::same(&a, b"in") & !sx::same(&a, b"in/f.pkt") & !sx::same(&a, b"f.pkt"));
        }
        // something in the way of an output
        _ => {
            input = w.dir(0, b"in");
            let d = w.dir(input, b"d");
            w.file(d, b"b.pkt", text(0));
            w.file(input, b"a.pkt", text(1));
            blocked = true;
            match sx::pick(5, "obstacle") {
                0 => { w.file(0, b"out", b"keep"); }
                1 => { let o = w.dir(0, b"out"); w.dir(o, b"a.ts"); }
                2 => { let o = w.dir(0, b"out"); w.file(o, b"d", b"keep"); }
                3 => { let o = w.dir(0, b"out"); let d = w.dir(o, b"d"); w.dir(d, b"b.ts"); }
                _ => { w.file(0, b"x", b"keep"); out = b"x/out".to_vec(); }
            }
        }
    }
    let arg = arg.unwrap_or_else(|| path(&w.nodes, input));
    w.args = vec![b"ts".to_vec(), arg, out.clone()];
    if calls > 0 {
        w.faults.on = true;
        w.faults.at = sx::choice(calls, "failing call");
        w.faults.errno = sx::choice(133, "error") as i32 + 1;
    }
    w.faults.chunk = [0, 40][sx::pick(2, "transfer size") as usize];
    start(Ctx { world: w, single, input, out, mode: Mode::Fault, blocked });
}

/// params: length of the language argument, directory input, ASCII only
#[no_mangle] pub fn h_c20() {
    let n = sx::param(0) as usize;
    let lang = sx::bytes(n, "language");
    let mut ok = true;
    for b in &lang { ok = ok & (*b != 0); }
    if sx::param(2) == 1 { for b in &lang { ok = ok & (*b < 128); } }
    // options are not values
    if n > 0 { ok = ok & (lang[0] != b'-'); }
    sx::assume(ok);
    let good = n == 2 && { let mut y = true; for i in 0..2 { y = y & ((lang[i] == b"ts"[i]) | (lang[i] == b"TS"[i])); } y };
    let mut w = World::new();
    let out = b"out".to_vec();
    let single = sx::param(1) == 0;
    let input;
    if single { input = w.file(0, b"a.pkt", text(0)); } else { input = w.dir(0, b"in"); w.file(input, b"a.pkt", text(0)); }
    w.args = vec![lang, path(&w.nodes, input), out.clone()];
    // one path per answer
    start(Ctx { world: w, single, input, out, mode: Mode::Lang(sx::conc(good as u32) == 1), blocked: false });
}

/// printable name
fn plain(n: usize, label: &str) -> Vec<u8> {
    let v = name(n, label);
    for b in &v { sx::assume((*b > b' ') & (*b < 127)) }
    v
}
/// params: kind, free bytes
#[no_mangle] pub fn h_c25() {
    let (kind, free) = (sx::param(0), sx::param(1) as usize);
    let mut w = World::new();
    let out = b"out".to_vec();
    let pkt = |mut v: Vec<u8>| { v.extend_from_slice(b".pkt"); v };
    let (input, single);
    match kind {
        // three files in two directories, any contents of the list
        0 => {
            single = false;
            input = w.dir(0, b"in");
            let t: Vec<u32> = (0..3).map(|i| sx::pick(6, ["first", "second", "third"][i])).collect();
            w.file(input, &pkt(plain(free, "name")), text(t[0]));
            let d = w.dir(input, &plain(free, "directory"));
            w.file(d, b"b.pkt", text(t[1]));
            w.file(input, b"other.pkt", text(t[2]));
        }
        // single file
        1 => {
            single = true;
            let n = pkt(plain(free, "name"));
            sx::assume(n[0] != b'-');
            input = w.file(0, &n, text(sx::pick(6, "text")));
        }
        // a text with free bytes at its start, between two statements or at the end
        _ => {
            single = sx::pick(2, "single") == 1;
            let place = sx::pick(3, "place");
            let f = sx::bytes(free, "text");
            let mut t = Vec::new();
            if place == 0 { t.extend_from_slice(&f); }
            t.extend_from_slice(b"P: struct { x: uint8 }\n");
            if place == 1 { t.extend_from_slice(&f); }
            t.extend_from_slice(b"export P");
            if place == 2 { t.extend_from_slice(&f); }
            if single { input = w.file(0, b"a.pkt", &t); } else { input = w.dir(0, b"in"); w.file(input, b"z.pkt", text(0)); w.file(input, b"a.pkt", &t); }
        }
    }
    w.args = vec![b"ts".to_vec(), path(&w.nodes, input), out.clone()];
    start(Ctx { world: w, single, input, out, mode: Mode::Told, blocked: false });
}

/// params: number of arguments, bytes of the free one, 1: it starts with a dash, 2: it is close to an option
#[no_mangle] pub fn h_c26() {
    let (n, free, mode) = (sx::param(0) as usize, sx::param(1) as usize, sx::param(2));
    let dash = mode > 0;
    let mut w = World::new();
    let input = w.dir(0, b"in");
    w.file(input, b"a.pkt", text(0));
    let mut args: Vec<Vec<u8>> = [&b"ts"[..], b"in", b"out", b"in", b"out"][..n].iter().map(|a| a.to_vec()).collect();
    let mut line = Line::Bad;
    if n > 0 {
        let k = sx::pick(n as u32, "free argument") as usize;
        let mut a = if mode == 2 {
            // an option with one byte replaced or inserted
            let mut a = [&b"-help"[..], b"-version"][sx::pick(2, "option") as usize].to_vec();
            let at = sx::pick(a.len() as u32 + 1, "place") as usize;
            let b = sx::bytes(1, "argument")[0];
            if at < a.len() && sx::pick(2, "insert") == 0 { a[at] = b } else { a.insert(at, b) }
            a
        } else { sx::bytes(free, "argument") };
        let mut ok = true;
        for b in &a { ok = ok & (*b != 0); }
        sx::assume(ok);
        if dash {
            a.insert(0, b'-');
            let is = |s: &[u8]| a.len() == s.len() && sx::same(&a, s);
            let starts = |s: &[u8]| a.len() >= s.len() && sx::same(&a[..s.len()], s);
            if is(b"--") {
                // the rest are values
                let mut rest = args.clone();
                rest.remove(k);
                if rest.len() == 3 { line = Line::Good; }
                args = rest;
                args.insert(k, a);
                // the three words in their order
                if line == Line::Good { args = [&b"ts"[..], b"in", b"out"].iter().map(|a| a.to_vec()).collect(); args.insert(k, b"--".to_vec()); }
            } else {
                if k > 3 { line = Line::Bad } else if is(b"-h") || is(b"-V") || is(b"--help") || is(b"--version") { line = Line::Help } else if starts(b"-h") || starts(b"-V") || starts(b"--help") || starts(b"--version") || starts(b"---") { line = Line::Unsure }
                args[k] = a;
            }
        } else {
            if free > 0 { sx::assume(a[0] != b'-') }
            args[k] = a;
        }
    }
    w.args = args;
    start(Ctx { world: w, single: false, input, out: b"out".to_vec(), mode: Mode::Args(line), blocked: false });
}
