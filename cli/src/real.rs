//! The real program, run by an unprivileged user in a scratch directory that is removed afterwards.
use crate::props;
use crate::world::*;
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{lchown, symlink, MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const NOBODY: u32 = 65534;
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

fn read(dir: &Path, parent: usize, out: &mut Vec<Node>) {
    let mut v: Vec<_> = fs::read_dir(dir).expect("scratch").map(|e| e.expect("scratch").path()).collect();
    v.sort();
    for p in v {
        let m = fs::symlink_metadata(&p).expect("scratch");
        let link = if m.is_symlink() { Some(fs::read_link(&p).expect("scratch").as_os_str().as_bytes().to_vec()) } else { None };
        let data = if m.is_dir() || link.is_some() { Vec::new() } else { fs::read(&p).expect("scratch") };
        out.push(Node { parent, name: p.file_name().unwrap().as_bytes().to_vec(), dir: m.is_dir(), data, link });
        if m.is_dir() { let k = out.len() - 1; read(&p, k, out); }
    }
}

pub fn run(w: &World) {
    let o = execute(w);
    props::judge(&o);
}
fn execute(w: &World) -> Outcome {
    let tool = std::env::var_os("SX_TOOL").expect("SX_TOOL");
    let shim = std::env::var_os("SX_SHIM").expect("SX_SHIM");
    let top = Scratch(std::env::temp_dir().join(format!("packetc-replay-{}", std::process::id())));
    let _ = fs::remove_dir_all(&top.0);
    let work = top.0.join("w");
    fs::create_dir_all(&work).expect("scratch");
    let root = fs::metadata(&work).expect("scratch").uid() == 0;
    let mut order = Vec::new();
    let mut made = vec![top.0.clone(), work.clone()];
    for i in 1..w.nodes.len() {
        let p = path(&w.nodes, i);
        order.extend_from_slice(&p);
        order.push(0);
        let p = work.join(OsStr::from_bytes(&p));
        if let Some(l) = &w.nodes[i].link { symlink(OsStr::from_bytes(l), &p).expect("scratch") } else if w.nodes[i].dir { fs::create_dir(&p).expect("scratch") } else { fs::write(&p, &w.nodes[i].data).expect("scratch") }
        made.push(p);
    }
    let (report, list) = (top.0.join("report"), top.0.join("order"));
    fs::write(&report, vec![0u8; 4096]).expect("scratch");
    fs::write(&list, &order).expect("scratch");
    made.push(report.clone());
    if root { for p in &made { lchown(p, Some(NOBODY), Some(NOBODY)).expect("scratch"); } }
    // where the unprivileged user can reach them
    let (exe, lib) = (top.0.join("packetc"), top.0.join("shim.so"));
    fs::copy(tool, &exe).expect("scratch");
    fs::copy(shim, &lib).expect("scratch");
    for p in [&exe, &lib] { fs::set_permissions(p, fs::Permissions::from_mode(0o755)).expect("scratch"); }
    let mut c = Command::new(&exe);
    c.args(w.args.iter().map(|a| OsStr::from_bytes(a))).current_dir(&work).env_clear();
    c.env("LD_PRELOAD", &lib).env("SX_REPORT", &report).env("SX_ORDER", &list);
    if w.faults.on { c.env("SX_AT", w.faults.at.to_string()).env("SX_ERRNO", w.faults.errno.to_string()); }
    if w.faults.chunk != 0 { c.env("SX_CHUNK", w.faults.chunk.to_string()); }
    if root { c.uid(NOBODY).gid(NOBODY); }
    let r = c.stdin(Stdio::null()).output().expect("the program cannot be started");
    let rep = fs::read(&report).expect("scratch");
    let word = |k: usize| u32::from_le_bytes([rep[k], rep[k + 1], rep[k + 2], rep[k + 3]]);
    let mut nodes = vec![w.nodes[0].clone()];
    read(&work, 0, &mut nodes);
    if std::env::var_os("SX_SHOW").is_some() { eprintln!("status {:?} calls {} faulted {} stdout {:?} stderr {:?}", r.status, word(0), word(4), String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr)); }
    drop(top);
    if r.status.code() == Some(101) || r.status.signal().is_some() { std::panic::panic_any("the program crashed".to_string()); }
    Outcome { status: r.status.code().unwrap(), complained: !r.stderr.is_empty(), faulted: word(4) != 0, calls: word(0), nodes, stdout: r.stdout, stderr: r.stderr }
}
