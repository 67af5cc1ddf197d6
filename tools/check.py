#!/usr/bin/env python3
"""check.py ID  -- decide one property on /repo's current working tree.

exit 0 held, 1 violated (VIOLATION line), 2 error of the check."""
import json, os, re, resource, signal, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild
from specs import SPECS, TRUSTED
V = irbuild.V
WORK = irbuild.WORK
UNREADABLE = "generated module cannot be read"
LIMIT = {"quick": 800, "thorough": 6 * 3600}
SYMX = os.path.join(V, "engine/target/release/symx")

def known():
    out = []
    p = os.path.join(V, "known-findings.jsonl")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("{"): out.append(json.loads(l))
    return [k for k in out if k.get("status") == "open"]

def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
    return p.stdout.split("\n")

def show(inputs):
    r = []
    for l, k, h in inputs:
        if k == 2: r.append([l, "hash order slot"]); continue
        b = bytes.fromhex(h)
        r.append([l, b.decode("latin-1") if k == 0 else b[0]])
    return r

def toolchain(jobs):
    """run generated modules on the real TypeScript compiler and node"""
    p = subprocess.run(["node", os.path.join(V, "tools/tsrun.js")], input="".join(j + "\n" for j in jobs), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) != len(jobs): raise RuntimeError("node run failed: " + p.stderr[-500:])
    return out

def bad(res, kind):
    """does the real toolchain show a defect in these results?"""
    for r in res:
        if r["diags"]: return "TypeScript reports " + r["diags"][0]
        if kind == "run" and (r.get("ok") is False): return "node: " + (r.get("throws") or json.dumps(r)[:300])
    return None

class Native:
    def __init__(s, crate="harness"): s.bin, s.crate = None, crate
    def run(s, entry, params, inputs, repeat=1, want=None, jobs=None):
        if s.bin is None: s.bin, s.env = irbuild.native(s.crate)
        f = os.path.join(WORK, "inputs-%d.txt" % os.getpid())
        with open(f, "w") as o:
            for l, k, h in inputs: o.write("%d %s\n" % (k, h))
        cmd = [s.bin, entry, ",".join(map(str, params)), f, str(repeat)] + ([want] if want else [])
        # a run that should not end gets less time and memory
        endless = want == "does not end"
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, **s.env, **({} if jobs is None else {"SX_LOG": "1"})), start_new_session=True,
                             preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))) if endless else None)
        try:
            p.stdout, p.stderr = p.communicate(timeout=40 if endless else 180)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return {"status": "violation", "sig": want, "panic_at": "no answer within 40 s", "outs": [], "reach": 0} if endless else {"status": "timeout"}
        finally:
            os.remove(f)
        if jobs is not None: jobs += [l[8:] for l in p.stderr.splitlines() if l.startswith("LOG JOB ")]
        lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
        if p.returncode != 0 or not lines:
            # process died: abort / stack overflow
            return {"status": "violation", "sig": want if endless else "panic", "panic_at": "process ended with status %s: %s" % (p.returncode, p.stderr[-300:]), "outs": [], "reach": 0}
        return json.loads(lines[-1])

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time()
    spec = SPECS[pid]
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    if only: runs = [r for r in runs if only in r["name"]]
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    entries = sorted(set(r["entry"] for r in runs))
    groups = {}
    for r in runs: groups.setdefault(r.get("crate", "harness"), set()).add(r["entry"])
    lls = {}
    for crate, es in groups.items():
        ll = os.path.join(WORK, "%s-%s.ll" % (pid, crate))
        irbuild.ll(ll, ",".join(sorted(es)), crate)
        lls[crate] = ll
    build_s = time.time() - t0
    natives = {c: Native(c) for c in groups}
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev_runs, samples_out, viols, funcs = [], [], [], {}
    tot = dict(paths=0, steps=0, queries=0, unsat=0, sat=0, dom=0, solver_s=0.0, checks=0, checks_smt=0, validated=0, cache=0, node=0)
    errors, node_jobs = [], []
    kf = [k for k in known() if k["property"] == pid]
    seen_known = {}
    nviol = 0
    for r in runs:
        # answer in time, whatever a change does to the number of paths
        left = LIMIT[tier] - (time.time() - t0)
        if viols and ("--first" in sys.argv or left < LIMIT[tier] - 120): break
        if viols: left = min(left, 40)
        if left < 5:
            errors.append("%s: no time left" % r["name"])
            break
        nat = natives[r.get("crate", "harness")]
        params = r.get("thorough", r.get("params", [])) if tier == "thorough" else r.get("params", [])
        out = os.path.join(WORK, "%s-%s.json" % (pid, r["name"]))
        cmd = [SYMX, lls[r.get("crate", "harness")], r["entry"], "--params", ",".join(map(str, params)), "--out", out,
               "--time", str(int(min(r.get("time", 600 if tier == "quick" else 7200), left))), "--steps", str(r.get("steps", 300_000_000 if tier == "quick" else 3_000_000_000)), "--samples", str(r.get("samples", 6))]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            errors.append("%s: engine ended with %s: %s" % (r["name"], p.returncode, p.stdout[-1500:]))
            continue
        j = json.load(open(out))
        os.remove(out)
        for e in j["errors"]: errors.append("%s: %s" % (r["name"], e))
        tot["paths"] += j["paths"]; tot["steps"] += j["steps"]; tot["checks"] += j["checks"]; tot["checks_smt"] += j["checks_smt"]
        s = j["smt"]
        tot["queries"] += s["queries"]; tot["unsat"] += s["unsat"]; tot["sat"] += s["sat"]; tot["dom"] += s["domain_decided"]; tot["solver_s"] += s["solver_s"]; tot["cache"] += s["cache_hits"]
        for f, n in j["functions"]: funcs[f] = funcs.get(f, 0) + n
        # vacuity: every expected situation was reached
        miss = [k for k in r.get("reach", []) if str(k) not in j["reach"]]
        if miss and not j["errors"] and not j["violations"]:
            errors.append("%s: situations %s never reached (vacuous run)" % (r["name"], miss))
        # violations
        bysig = {}
        for v in j["violations"]: bysig.setdefault(v["sig"], []).append(v)
        for sig, vs in sorted(bysig.items()):
            rep = None
            for v in vs:
                m = re.match(r"panic at (src/(?!\.\./)[^ ]*)", v["detail"])
                if sig == "panic" and m:
                    errors.append("%s: panic inside the harness: %s" % (r["name"], v["detail"][:300]))
                    break
                n = nat.run(r["entry"], params, v["inputs"], repeat=r.get("repeat", 1), want=sig)
                if n["status"] == "violation" and n["sig"] == sig:
                    rep = (v, n)
                    break
                last = (v, n)
            else:
                errors.append("%s: counterexample for '%s' did not reproduce natively: %s inputs %s" % (r["name"], sig, last[1], json.dumps(show(last[0]["inputs"]))[:600]))
            if rep is None: continue
            hit = [k for k in kf if re.fullmatch(k["signature"], sig) and (not k.get("run") or k["run"] == r["name"])]
            if hit and hit[0]["id"] in seen_known: continue
            if r.get("node") and sig not in ("panic", "memory", "does not end", "well-formed schema is not compiled") and (r["node"] != "text" or sig == UNREADABLE):
                # the model of TypeScript must agree with the real toolchain
                jobs = []
                nat.run(r["entry"], params, rep[0]["inputs"], jobs=jobs)
                why = bad(toolchain(jobs), r["node"])
                if why is None:
                    errors.append("%s: counterexample for '%s' is not confirmed by the real toolchain: inputs %s" % (r["name"], sig, json.dumps(show(rep[0]["inputs"]))[:400]))
                    continue
                rep[1]["toolchain"] = why
            v, n = rep
            path = os.path.join(V, "evidence", "replay", "%s-%s-%d.json" % (pid, r["name"], nviol))
            nviol += 1
            json.dump({"property": pid, "signature": sig, "crate": r.get("crate", "harness"), "entry": r["entry"], "params": params, "inputs": v["inputs"], "decoded": show(v["inputs"]),
                       "paths_with_this_signature": v["count"], "engine_detail": v["detail"][:2000], "native": n,
                       "replay_cmd": "python3 /verif/tools/replay.py " + path}, open(path, "w"), indent=1)
            if hit:
                seen_known.setdefault(hit[0]["id"], (hit[0], path))
            else:
                viols.append((sig, path, v))
        # validation of sampled paths against the native build
        nval = 0
        jobs = [] if r.get("node") else None
        for smp in j["samples"][:r.get("validate", 6)]:
            n = nat.run(r["entry"], params, smp["inputs"], jobs=jobs)
            ordered = any(k == 2 for _, k, _ in smp["inputs"])
            ok = n["status"] == "done" and (ordered or (n["outs"] == smp["outs"] and n["reach"] == smp["reach"]))
            if not ok and ordered and n["status"] == "violation": continue
            if not ok:
                errors.append("%s: native run disagrees with symbolic path: native %s, engine outs %s reach %s, inputs %s" % (r["name"], n, smp["outs"], smp["reach"], json.dumps(show(smp["inputs"]))[:400]))
                break
            nval += 1
            if len(samples_out) < 12: samples_out.append({"run": r["name"], "inputs": show(smp["inputs"])})
        tot["validated"] += nval
        for jb in jobs or []: node_jobs.append((r["name"], jb))
        ev_runs.append({"run": r["name"], "entry": r["entry"], "params": params, "bounds": r["bounds"], "paths": j["paths"], "infeasible_pruned": j["infeasible"], "ir_instructions": j["steps"],
                        "symbolic_bytes": j["symbolic_bytes_max"], "assertions": j["checks"], "assertions_by_smt": j["checks_smt"], "smt_queries": s["queries"], "smt_unsat": s["unsat"], "solver_s": s["solver_s"],
                        "wall_s": j["wall_s"], "reach": j["reach"], "native_validated": nval, "violations": sorted(set(v["sig"] for v in j["violations"]))})
        if "-v" in sys.argv:
            print(json.dumps(ev_runs[-1]))
    if node_jobs:
        for (name, _), res in zip(node_jobs, toolchain([jb for _, jb in node_jobs])):
            why = bad([res], "run")
            if why: errors.append("%s: real toolchain disagrees with a path that holds: %s" % (name, why))
        tot["node"] = len(node_jobs)
    names = sorted(funcs, key=lambda f: -funcs[f])
    dem = demangle(names)
    mine = [d for d in dem if "packetc_lib" in d or "packetc::" in d or "cli::" in d]
    status = "error" if errors else "violated" if viols else "held"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": tot["validated"], "samples": samples_out,
                       "exhaustive": not errors, "explanation": "states = feasible symbolic paths (each stands for all inputs satisfying its path condition); transitions = LLVM IR instructions executed symbolically; traces = sampled paths re-run natively with identical results",
                       "runs": ev_runs, "functions_encoded": {"count": len(names), "packetc": mine[:60]},
                       "smt": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "cache_hits": tot["cache"], "domain_decided": tot["dom"], "solver_s": round(tot["solver_s"], 3)},
                       "assertions": tot["checks"], "assertions_by_smt": tot["checks_smt"], "modules_run_on_node": tot["node"], "outside_bounds": spec.get("outside", ""), "build_s": round(build_s, 1)},
          "assumptions": TRUSTED + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols), "status": status,
          "known_findings_seen": [k for k in seen_known], "errors": errors[:10]}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for l in lls.values():
        try: os.remove(l)
        except OSError: pass
    for k, (f, path) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for sig, path, v in viols:
        print("property %s violated: %s; inputs %s" % (pid, sig, json.dumps(show(v["inputs"]))[:800]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viols: return 1
    if errors:
        for e in errors[:10]: print("ERROR: " + e[:2500])
        return 2
    print("%s held: %d runs, %d paths, %d SMT queries (%.1f s), %d assertions, %.0f s" % (pid, len(ev_runs), tot["paths"], tot["queries"], tot["solver_s"], tot["checks"], time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
