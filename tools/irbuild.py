#!/usr/bin/env python3
"""Build the LLVM IR of harness + packetc (from /repo's current working tree) + std.

  irbuild.py std                      extract std bitcode once (setup)
  irbuild.py ll OUT ENTRY[,ENTRY..] [CRATE]   build IR containing only what the entries reach
  irbuild.py native [CRATE]           build the native replay runner
"""
import glob, re, hashlib, json, os, shutil, subprocess, sys, time, fcntl
import sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import clisrc
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(V, "work")
TC = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
SYSROOT = os.path.join(os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup")), "toolchains", TC)
BIN = os.path.join(SYSROOT, "lib/rustlib", TRIPLE, "bin")
REPO = os.environ.get("VERIF_REPO", "/repo")

def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",): del e[k]
    e.pop("RUSTFLAGS", None)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    if extra: e.update(extra)
    return e

def run(cmd, stderr_too=True, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if stderr_too else subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), (p.stdout + (p.stderr or ""))[-6000:]))
        raise SystemExit(2)
    return p.stdout

class lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def std():
    d = os.path.join(WORK, "std")
    ok = os.path.join(d, "std.bc")
    if os.path.exists(ok): return ok
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(SYSROOT, "lib/rustlib", TRIPLE, "lib")
    bcs = []
    for c in "core alloc std hashbrown memchr libc unwind panic_abort std_detect rustc_demangle cfg_if miniz_oxide adler2 object gimli addr2line".split():
        for r in glob.glob(os.path.join(lib, "lib%s-*.rlib" % c)):
            dd = os.path.join(d, c)
            os.makedirs(dd, exist_ok=True)
            run([os.path.join(BIN, "llvm-ar"), "x", r], cwd=dd)
            for o in sorted(glob.glob(os.path.join(dd, "*.o"))):
                bc = o[:-2] + ".bc"
                p = subprocess.run([os.path.join(BIN, "llvm-objcopy"), "--dump-section=.llvmbc=" + bc, o, "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if p.returncode == 0 and os.path.exists(bc): bcs.append(bc)
    run([os.path.join(BIN, "llvm-link")] + bcs + ["-o", ok + ".tmp"])
    os.rename(ok + ".tmp", ok)
    return ok

def sync_crate(name):
    """harness crates are built in place; only the lock file comes from /repo"""
    src = os.path.join(V, name)
    lock_src = os.path.join(REPO, "Cargo.lock")
    dst = os.path.join(src, "Cargo.lock")
    stamp = os.path.join(WORK, name + ".lockhash")
    h = hashlib.sha256(open(lock_src, "rb").read()).hexdigest()
    if not os.path.exists(dst) or not os.path.exists(stamp) or open(stamp).read() != h:
        shutil.copyfile(lock_src, dst)
        os.makedirs(WORK, exist_ok=True)
        open(stamp, "w").write(h)
    return src

def bitcode(name="harness"):
    if name == "cli": clisrc.make(REPO, os.path.join(WORK, "cli-src"))
    src = sync_crate(name)
    td = os.path.join(WORK, "ir-" + name)
    o = run(["cargo", "build", "--offline", "--target", TRIPLE, "--message-format=json-render-diagnostics"], cwd=src, stderr_too=False,
        env=env({"CARGO_TARGET_DIR": td, "RUSTFLAGS": "--emit=llvm-bc,link -C embed-bitcode=no -C relocation-model=static -A warnings"}))
    bcs = set()
    for l in o.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact" or "lib" not in m["target"]["kind"]: continue
        for f in m["filenames"]:
            if "/" + TRIPLE + "/" not in f or not f.endswith(".rlib"): continue
            stem = os.path.basename(f)[3:-5]
            for d in (os.path.dirname(f), os.path.join(os.path.dirname(f), "deps")):
                bcs.update(glob.glob(os.path.join(d, m["target"]["name"].replace("-", "_") + "-*.bc")))
    if not any("packetc" in b for b in bcs): raise SystemExit("no bitcode found for packetc")
    return td, sorted(bcs)

def ll(out, entries, name="harness"):
    with lock():
        s = std()
        td, bcs = bitcode(name)
        t = out + ".tmp"
        for f in glob.glob(os.path.join(V, name, "src", "*.rs")):
            entries += "".join("," + n for n in re.findall(r"fn (sxl_\w+)", open(f).read()))
        run([os.path.join(BIN, "llvm-link")] + bcs + [s, "-o", t + ".all.bc"])
        run([os.path.join(BIN, "opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + entries, t + ".all.bc", "-o", t + ".bc"])
        run([os.path.join(BIN, "llvm-dis"), t + ".bc", "-o", out])
        os.remove(t + ".all.bc"); os.remove(t + ".bc")

def native(crate="harness"):
    """replay runner for the entries of a crate, and the environment it needs"""
    name = {"harness": "native", "cli": "cli-native"}[crate]
    extra = {}
    with lock():
        sync_crate("harness")
        if crate == "cli":
            sync_crate("cli")
            td = os.path.join(WORK, "cli-bin")
            run(["cargo", "build", "--offline", "--bin", "packetc"], cwd=REPO, env=env({"CARGO_TARGET_DIR": td, "RUSTFLAGS": "-A warnings"}))
            shim = os.path.join(WORK, "shim.so")
            run(["cc", "-O1", "-fno-delete-null-pointer-checks", "-w", "-shared", "-fPIC", "-o", shim, os.path.join(V, "cli-native/shim.c"), "-ldl"])
            extra = {"SX_TOOL": os.path.join(td, "debug", "packetc"), "SX_SHIM": shim}
        src = sync_crate(name)
        run(["cargo", "build", "--offline"], cwd=src, env=env({"CARGO_TARGET_DIR": os.path.join(WORK, name), "RUSTFLAGS": "-A warnings"}))
    return os.path.join(WORK, name, "debug", name), extra

if __name__ == "__main__":
    t = time.time()
    if sys.argv[1] == "std": print(std())
    elif sys.argv[1] == "ll": ll(sys.argv[2], sys.argv[3], *(sys.argv[4:5]))
    elif sys.argv[1] == "native": print(native(*sys.argv[2:3]))
    print("%.1f s" % (time.time() - t))
