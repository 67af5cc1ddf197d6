//! File system, standard streams and process exit as the program sees them through the C library.
use crate::props;
use crate::world::*;
use harness::sx;
use std::cell::UnsafeCell;

struct Open { node: usize, pos: usize, write: bool }
struct Sys {
    nodes: Vec<Node>,
    open: Vec<Open>,
    lists: Vec<List>,
    faults: Faults,
    calls: u32,
    faulted: bool,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    argv: Vec<*const u8>,
}
struct List { node: usize, at: usize, ent: [u64; 36] }
struct Cell(UnsafeCell<Option<Sys>>);
unsafe impl Sync for Cell {}
static S: Cell = Cell(UnsafeCell::new(None));
fn sys() -> &'static mut Sys { unsafe { (*S.0.get()).as_mut().unwrap() } }

extern "C" {
    fn sx_std_args_init(n: i32, argv: *const *const u8, env: *const *const u8);
    fn sx_done();
    fn __errno_location() -> *mut i32;
    fn malloc(n: usize) -> *mut u8;
}

/// run the program; the oracle is called when it ends
pub fn run(w: &World) {
    let mut argv: Vec<*const u8> = Vec::new();
    for a in std::iter::once(&b"packetc".to_vec()).chain(w.args.iter()) {
        let mut a = a.clone();
        a.push(0);
        argv.push(Box::leak(a.into_boxed_slice()).as_ptr());
    }
    argv.push(std::ptr::null());
    let n = argv.len() as i32 - 1;
    unsafe {
        *S.0.get() = Some(Sys { nodes: w.nodes.clone(), open: Vec::new(), lists: Vec::new(), faults: w.faults, calls: 0, faulted: false, stdout: Vec::new(), stderr: Vec::new(), argv });
        let p = sys().argv.as_ptr();
        sx_std_args_init(n, p, p.add(n as usize));
    }
    let st = crate::tool::sx_main();
    end(st)
}
fn end(status: i32) -> ! {
    let s = sys();
    let o = Outcome { status, complained: !s.stderr.is_empty(), faulted: s.faulted, calls: s.calls, nodes: std::mem::take(&mut s.nodes), stdout: std::mem::take(&mut s.stdout), stderr: std::mem::take(&mut s.stderr) };
    props::judge(&o);
    unsafe { sx_done() };
    loop {}
}
#[no_mangle] pub extern "C" fn sxl_exit(code: i32) -> ! { end(code) }

fn set(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
/// counts a call; does it fail?
fn fault() -> bool {
    let s = sys();
    let k = s.calls;
    s.calls += 1;
    if s.faults.on && !s.faulted && s.faults.at == k {
        s.faulted = true;
        set(s.faults.errno);
        return true;
    }
    false
}
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 { n += 1; }
    std::slice::from_raw_parts(p, n)
}
fn child(d: usize, name: &[u8]) -> Option<usize> {
    for i in 1..sys().nodes.len() {
        let n = &sys().nodes[i];
        if n.parent == d && n.name.len() == name.len() && sx::same(&n.name, name) { return Some(i); }
    }
    None
}
/// path of the working directory
const CWD: &[u8] = b"/w";
/// directories opened for listing, as file descriptors
const DIRFD: i32 = 0x1000;
type Found = Result<usize, Result<(usize, Vec<u8>), i32>>;
/// Ok(node) or Err(Ok((directory, last name))) when only the last name is missing, or Err(Err(errno))
fn walk(from: usize, p: &[u8], follow: bool, depth: u32) -> Found {
    if p.is_empty() { return Err(Err(2)); }
    if depth > 8 { return Err(Err(40)); }
    let mut at = from;
    let mut p = p;
    if p[0] == b'/' {
        // nothing outside the working directory exists in the model
        if p.len() < CWD.len() || !sx::same(&p[..CWD.len()], CWD) || (p.len() > CWD.len() && p[CWD.len()] != b'/') { sx::fail("the tool touches a path outside its arguments"); }
        p = &p[CWD.len()..];
        at = 0;
    }
    let mut missing: Option<Vec<u8>> = None;
    let n = p.split(|b| *b == b'/').count();
    for (k, c) in p.split(|b| *b == b'/').enumerate() {
        if c.is_empty() || c == b"." {
            if missing.is_none() && !sys().nodes[at].dir { return Err(Err(20)); }
            continue;
        }
        if missing.is_some() { return Err(Err(2)); }
        if !sys().nodes[at].dir { return Err(Err(20)); }
        if c == b".." { at = sys().nodes[at].parent; continue; }
        match child(at, c) {
            Some(i) => {
                let link = sys().nodes[i].link.clone();
                at = match link { Some(l) if follow || k + 1 < n => walk(at, &l, true, depth + 1)?, _ => i };
            }
            None => missing = Some(c.to_vec()),
        }
    }
    match missing { Some(n) => Err(Ok((at, n))), None => Ok(at) }
}
fn resolve(p: &[u8]) -> Found { walk(0, p, true, 0) }
fn flat(r: Found) -> Result<usize, i32> { match r { Ok(i) => Ok(i), Err(Ok(_)) => Err(2), Err(Err(e)) => Err(e) } }
fn find(p: &[u8]) -> Result<usize, i32> { flat(resolve(p)) }
/// relative to an open directory; flag 0x100: the link itself
fn find_at(fd: i32, p: &[u8], flags: i32) -> Result<usize, i32> { flat(walk(fd_dir(fd), p, flags & 0x100 == 0, 0)) }
fn fd_dir(fd: i32) -> usize { if fd >= DIRFD { sys().lists[(fd - DIRFD) as usize].node } else { 0 } }
unsafe fn put<T: Copy>(p: *mut u8, at: usize, v: T) { (p.add(at) as *mut T).write_unaligned(v) }
fn mode(i: usize) -> u32 { if sys().nodes[i].link.is_some() { 0o120777 } else if sys().nodes[i].dir { 0o040755 } else { 0o100644 } }

unsafe fn fill_statx(i: usize, b: *mut u8) {
    for k in 0..32 { put::<u64>(b, k * 8, 0); }
    put::<u32>(b, 0, 0x7ff);
    put::<u32>(b, 16, 1);
    put::<u16>(b, 28, mode(i) as u16);
    put::<u64>(b, 32, i as u64 + 1);
    put::<u64>(b, 40, sys().nodes[i].data.len() as u64);
}
unsafe fn fill_stat(i: usize, b: *mut u8) {
    for k in 0..18 { put::<u64>(b, k * 8, 0); }
    put::<u64>(b, 8, i as u64 + 1);
    put::<u64>(b, 16, 1);
    put::<u32>(b, 24, mode(i));
    put::<u64>(b, 48, sys().nodes[i].data.len() as u64);
}
fn fd_node(fd: i32) -> Option<usize> { if fd >= DIRFD { return Some(fd_dir(fd)); } if fd < 3 { return None; } sys().open.get(fd as usize - 3).map(|o| o.node) }

#[no_mangle] pub unsafe extern "C" fn sxl_statx(fd: i32, p: *const u8, flags: i32, _mask: u32, b: *mut u8) -> i32 {
    // probe made by the standard library
    if b.is_null() || p.is_null() { return set(14); }
    if fault() { return -1; }
    let path = cstr(p);
    if path.is_empty() {
        return match fd_node(fd) { Some(i) => { fill_statx(i, b); 0 } None => set(9) };
    }
    match find_at(fd, path, flags) { Ok(i) => { fill_statx(i, b); 0 } Err(e) => set(e) }
}
#[no_mangle] pub unsafe extern "C" fn sxl_stat64(p: *const u8, b: *mut u8) -> i32 {
    if fault() { return -1; }
    match find(cstr(p)) { Ok(i) => { fill_stat(i, b); 0 } Err(e) => set(e) }
}
#[no_mangle] pub unsafe extern "C" fn sxl_lstat64(p: *const u8, b: *mut u8) -> i32 { sxl_fstatat64(-100, p, b, 0x100) }
#[no_mangle] pub unsafe extern "C" fn sxl_fstatat64(fd: i32, p: *const u8, b: *mut u8, flags: i32) -> i32 {
    if fault() { return -1; }
    match find_at(fd, cstr(p), flags) { Ok(i) => { fill_stat(i, b); 0 } Err(e) => set(e) }
}
#[no_mangle] pub unsafe extern "C" fn sxl_fstat64(fd: i32, b: *mut u8) -> i32 {
    if fault() { return -1; }
    match fd_node(fd) { Some(i) => { fill_stat(i, b); 0 } None => set(9) }
}
#[no_mangle] pub unsafe extern "C" fn sxl_access(p: *const u8, _m: i32) -> i32 {
    if fault() { return -1; }
    match find(cstr(p)) { Ok(_) => 0, Err(e) => set(e) }
}
#[no_mangle] pub unsafe extern "C" fn sxl_open64(p: *const u8, flags: i32, _mode: i32) -> i32 {
    if fault() { return -1; }
    let (acc, creat, excl, trunc, append) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    let i = match resolve(cstr(p)) {
        Ok(i) => {
            if creat && excl { return set(17); }
            if sys().nodes[i].dir && acc != 0 { return set(21); }
            i
        }
        Err(Ok((d, name))) => {
            if !creat { return set(2); }
            sys().nodes.push(Node { parent: d, name, dir: false, data: Vec::new(), link: None });
            sys().nodes.len() - 1
        }
        Err(Err(e)) => return set(e),
    };
    if trunc && acc != 0 { sys().nodes[i].data = Vec::new(); }
    let pos = if append { sys().nodes[i].data.len() } else { 0 };
    sys().open.push(Open { node: i, pos, write: acc != 0 });
    sys().open.len() as i32 + 2
}
#[no_mangle] pub unsafe extern "C" fn sxl_open(p: *const u8, flags: i32, mode: i32) -> i32 { sxl_open64(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn sxl_close(_fd: i32) -> i32 { 0 }
fn amount(n: usize) -> usize { let c = sys().faults.chunk as usize; if c != 0 && n > c { c } else { n } }
#[no_mangle] pub unsafe extern "C" fn sxl_read(fd: i32, b: *mut u8, n: usize) -> isize {
    if fault() { return -1; }
    if fd < 3 || fd as usize - 3 >= sys().open.len() { return set(9) as isize; }
    let o = &mut sys().open[fd as usize - 3];
    let d = &sys().nodes[o.node];
    if d.dir { return set(21) as isize; }
    let left = d.data.len() - o.pos;
    let k = amount(if n < left { n } else { left });
    std::ptr::copy_nonoverlapping(d.data.as_ptr().add(o.pos), b, k);
    o.pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn sxl_write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd == 1 || fd == 2 {
        let t = if fd == 1 { &mut sys().stdout } else { &mut sys().stderr };
        t.extend_from_slice(std::slice::from_raw_parts(b, n));
        return n as isize;
    }
    if fault() { return -1; }
    if fd < 3 || fd as usize - 3 >= sys().open.len() || !sys().open[fd as usize - 3].write { return set(9) as isize; }
    let o = &mut sys().open[fd as usize - 3];
    let k = amount(n);
    let d = &mut sys().nodes[o.node].data;
    let src = std::slice::from_raw_parts(b, k);
    while d.len() < o.pos { d.push(0); }
    let over = if d.len() - o.pos < k { d.len() - o.pos } else { k };
    d[o.pos..o.pos + over].copy_from_slice(&src[..over]);
    d.extend_from_slice(&src[over..]);
    o.pos += k;
    k as isize
}
#[repr(C)] pub struct IoVec { p: *const u8, n: usize }
#[no_mangle] pub unsafe extern "C" fn sxl_writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    let mut t = 0;
    for i in 0..n as usize {
        let k = sxl_write(fd, (*v.add(i)).p, (*v.add(i)).n);
        if k < 0 { return if t > 0 { t } else { k }; }
        t += k;
        if (k as usize) < (*v.add(i)).n { break; }
    }
    t
}
#[no_mangle] pub unsafe extern "C" fn sxl_lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if fd < 3 || fd as usize - 3 >= sys().open.len() { return set(9) as i64; }
    let o = &mut sys().open[fd as usize - 3];
    let base = match whence { 0 => 0, 1 => o.pos as i64, _ => sys().nodes[o.node].data.len() as i64 };
    o.pos = (base + off) as usize;
    o.pos as i64
}
#[no_mangle] pub unsafe extern "C" fn sxl_fsync(_fd: i32) -> i32 { if fault() { -1 } else { 0 } }
#[no_mangle] pub unsafe extern "C" fn sxl_fdatasync(_fd: i32) -> i32 { if fault() { -1 } else { 0 } }
#[no_mangle] pub unsafe extern "C" fn sxl_ftruncate64(fd: i32, n: i64) -> i32 {
    if fault() { return -1; }
    if fd < 3 || fd as usize - 3 >= sys().open.len() || !sys().open[fd as usize - 3].write { return set(9); }
    let i = sys().open[fd as usize - 3].node;
    sys().nodes[i].data.resize(n as usize, 0);
    0
}
#[no_mangle] pub unsafe extern "C" fn sxl_getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if n <= CWD.len() { set(34); return std::ptr::null_mut(); }
    for k in 0..CWD.len() { *b.add(k) = CWD[k]; }
    *b.add(CWD.len()) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn sxl_realpath(p: *const u8, b: *mut u8) -> *mut u8 {
    if fault() { return std::ptr::null_mut(); }
    let i = match find(cstr(p)) { Ok(i) => i, Err(e) => { set(e); return std::ptr::null_mut(); } };
    let mut v = CWD.to_vec();
    let q = path(&sys().nodes, i);
    if !q.is_empty() { v.push(b'/'); v.extend_from_slice(&q); }
    let b = if b.is_null() { malloc(v.len() + 1) } else { b };
    for k in 0..v.len() { *b.add(k) = v[k]; }
    *b.add(v.len()) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn sxl_readlink(p: *const u8, b: *mut u8, n: usize) -> isize {
    if fault() { return -1; }
    match find_at(-100, cstr(p), 0x100) {
        Ok(i) => match &sys().nodes[i].link {
            Some(l) => { let k = if n < l.len() { n } else { l.len() }; for j in 0..k { *b.add(j) = l[j]; } k as isize }
            None => set(22) as isize,
        },
        Err(e) => set(e) as isize,
    }
}
#[no_mangle] pub unsafe extern "C" fn sxl_chmod(p: *const u8, _m: u32) -> i32 {
    if fault() { return -1; }
    match find(cstr(p)) { Ok(_) => 0, Err(e) => set(e) }
}
#[no_mangle] pub unsafe extern "C" fn sxl_fchmod(_fd: i32, _m: u32) -> i32 { if fault() { -1 } else { 0 } }
#[no_mangle] pub unsafe extern "C" fn sxl_isatty(_fd: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn sxl_getpid() -> i32 { 4242 }
#[no_mangle] pub unsafe extern "C" fn sxl_mkdir(p: *const u8, _mode: u32) -> i32 {
    if fault() { return -1; }
    match resolve(cstr(p)) {
        Ok(_) => set(17),
        Err(Ok((d, name))) => { sys().nodes.push(Node { parent: d, name, dir: true, data: Vec::new(), link: None }); 0 }
        Err(Err(e)) => set(e),
    }
}
unsafe fn remove(p: *const u8, dir: bool) -> i32 {
    if fault() { return -1; }
    match find_at(-100, cstr(p), 0x100) {
        Ok(i) => {
            if sys().nodes[i].dir != dir { return set(if dir { 20 } else { 21 }); }
            // a removed node hangs below nothing
            sys().nodes[i].parent = usize::MAX;
            0
        }
        Err(e) => set(e),
    }
}
#[no_mangle] pub unsafe extern "C" fn sxl_unlink(p: *const u8) -> i32 { remove(p, false) }
#[no_mangle] pub unsafe extern "C" fn sxl_rmdir(p: *const u8) -> i32 { remove(p, true) }
#[no_mangle] pub unsafe extern "C" fn sxl_rename(a: *const u8, b: *const u8) -> i32 {
    if fault() { return -1; }
    let i = match find_at(-100, cstr(a), 0x100) { Ok(i) => i, Err(e) => return set(e) };
    match walk(0, cstr(b), false, 0) {
        Ok(j) if i == j => 0,
        Ok(j) if sys().nodes[j].dir != sys().nodes[i].dir => set(if sys().nodes[j].dir { 21 } else { 20 }),
        Ok(j) => {
            let (p, n) = (sys().nodes[j].parent, sys().nodes[j].name.clone());
            sys().nodes[j].parent = usize::MAX;
            sys().nodes[i].parent = p;
            sys().nodes[i].name = n;
            0
        }
        Err(Ok((d, name))) => { sys().nodes[i].parent = d; sys().nodes[i].name = name; 0 }
        Err(Err(e)) => set(e),
    }
}
#[no_mangle] pub unsafe extern "C" fn sxl_opendir(p: *const u8) -> *mut u8 {
    if fault() { return std::ptr::null_mut(); }
    match find(cstr(p)) {
        Ok(i) if sys().nodes[i].dir => {
            sys().lists.push(List { node: i, at: 0, ent: [0; 36] });
            sys().lists.len() as *mut u8
        }
        Ok(_) => { set(20); std::ptr::null_mut() }
        Err(e) => { set(e); std::ptr::null_mut() }
    }
}
#[no_mangle] pub unsafe extern "C" fn sxl_readdir64(d: *mut u8) -> *mut u8 {
    if fault() { return std::ptr::null_mut(); }
    let l = &mut sys().lists[d as usize - 1];
    let e = l.ent.as_mut_ptr() as *mut u8;
    // "." and ".." come first
    let (name, i): (Vec<u8>, usize) = if l.at < 2 { l.at += 1; (vec![b'.'; l.at], l.node) } else {
        let mut i = l.at - 1;
        while i < sys().nodes.len() && sys().nodes[i].parent != l.node { i += 1; }
        if i >= sys().nodes.len() { return std::ptr::null_mut(); }
        l.at = i + 2;
        (sys().nodes[i].name.clone(), i)
    };
    put::<u64>(e, 0, i as u64 + 1);
    put::<i64>(e, 8, l.at as i64);
    put::<u16>(e, 16, 280);
    put::<u8>(e, 18, if sys().nodes[i].link.is_some() { 10 } else if sys().nodes[i].dir { 4 } else { 8 });
    for k in 0..name.len() { *e.add(19 + k) = name[k]; }
    *e.add(19 + name.len()) = 0;
    e
}
#[no_mangle] pub unsafe extern "C" fn sxl_closedir(_d: *mut u8) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn sxl_dirfd(d: *mut u8) -> i32 { DIRFD + d as i32 - 1 }
#[no_mangle] pub unsafe extern "C" fn sxl___xpg_strerror_r(_e: i32, b: *mut u8, n: usize) -> i32 {
    let t = b"failed\0";
    for k in 0..t.len() { if k < n { *b.add(k) = t[k]; } }
    0
}
