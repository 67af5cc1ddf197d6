"""Copy of the program's sources in which the main function can be called from a library."""
import os, re
def make(repo, dst):
    src = os.path.join(repo, "src")
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            want[os.path.relpath(p, src)] = open(p, "rb").read()
    # its crate is a module here
    for r in want:
        if not r.startswith("lib"): want[r] = re.sub(rb"(?<![$\w:])crate::", b"crate::tool::", want[r])
    want["main.rs"] += b"\npub fn sx_main() -> i32 {\n    let code = std::process::Termination::report(main());\n    if code == std::process::ExitCode::SUCCESS { 0 } else { 1 }\n}\n"
    have = {}
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            have[os.path.relpath(p, dst)] = p
    for r, p in have.items():
        if r not in want: os.remove(p)
    for r, b in want.items():
        p = os.path.join(dst, r)
        if r in have and open(p, "rb").read() == b: continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(b)
