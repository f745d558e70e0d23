#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled /repo code.

  check.py PROPERTY [quick|thorough] [--only ENTRY]

Steps: build the executor (engine/), compile the property's harness together with /repo's current
sources to whole-program LLVM IR, explore every path of every harness entry with Z3 deciding each
branch, each bounds/overflow/unreachable check and each assertion; confirm every counterexample
natively; run a sample of the explored paths natively and compare what they observed; check the
reachability witnesses; write the evidence file.
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no verdict.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import registry

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "VP_REPLAY", "RUST_BACKTRACE"):
    ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def sh(cmd, cwd, target, extra=None, timeout=800):
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = target
    if extra:
        e.update(extra)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def build_engine():
    t = os.path.join(BUILD, "engine")
    r = sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(VERIF, "engine"), t)
    if r.returncode:
        die("engine build failed\n" + r.stdout[-3000:])
    return os.path.join(t, "release", "vpengine")


def build_ir(crate, binname):
    t = os.path.join(BUILD, crate)
    deps = os.path.join(t, "release", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(binname + "-") and f.endswith(".ll"):
                os.remove(os.path.join(deps, f))
        # rebuild /repo's crate whatever the timestamps say
        for prof in ("release", "debug"):
            d = os.path.join(t, prof, ".fingerprint")
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith("antlr-rust-") or f.startswith("vpharness-") or f.startswith("vpconc-"):
                        shutil.rmtree(os.path.join(d, f), ignore_errors=True)
    r = sh(["cargo", "rustc", "--release", "--offline", "--bin", binname, "--",
            "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-A", "warnings"],
           os.path.join(VERIF, crate), t)
    if r.returncode:
        die("harness build failed\n" + r.stdout[-6000:])
    lls = [f for f in os.listdir(deps) if f.startswith(binname + "-") and f.endswith(".ll")]
    if len(lls) != 1:
        die("expected one IR file, found %r" % lls)
    return os.path.join(deps, lls[0]), os.path.join(t, "release", binname)


_dev = {}


def build_dev(crate, binname):
    if binname not in _dev:
        t = os.path.join(BUILD, crate)
        r = sh(["cargo", "build", "--offline", "-q", "--bin", binname], os.path.join(VERIF, crate), t)
        if r.returncode:
            die("dev build failed\n" + r.stdout[-3000:])
        _dev[binname] = os.path.join(t, "debug", binname)
    return _dev[binname]


def native(binary, entry, replay, timeout=20):
    e = dict(ENV)
    e["VP_REPLAY"] = replay
    lim = "ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$1\""
    try:
        r = subprocess.run(["bash", "-c", lim, binary, entry], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def write_replay(path, viol, extra):
    with open(path, "w") as f:
        for w, v in viol["inputs"]:
            f.write("%d # %d-bit\n" % (v, w))
        for l in extra:
            f.write("# " + l.replace("\n", " ") + "\n")


def confirm(viol, entry, crate, binname, rel, replay):
    """Run the counterexample natively. Returns a description, or None if it does not fail."""
    got = []
    for prof, b in (("dev", build_dev(crate, binname)), ("release", rel)):
        rc, so, se = native(b, entry, replay)
        if rc == "timeout":
            got.append((prof, "does not terminate (20 s)"))
        elif rc == 10:
            got.append((prof, "assertion " + " ".join(re.findall(r"VP-ASSERT (\d+)", so))))
        elif rc in (0, 3):
            pass
        else:
            m = [l for l in se.splitlines() if "panicked" in l or "overflow" in l or "error" in l]
            got.append((prof, "abnormal end (%s) %s" % (rc, "; ".join(m[:2]))))
    if not got and viol["kind"] == "memory" and shutil.which("valgrind"):
        e = dict(ENV)
        e["VP_REPLAY"] = replay
        try:
            r = subprocess.run(["valgrind", "-q", "--error-exitcode=77", rel, entry], env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            if r.returncode == 77:
                got.append(("valgrind", "invalid memory access"))
        except subprocess.TimeoutExpired:
            pass
    return got


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
        args.remove(only)
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPS[pid]
    crate = spec.get("crate", "harness")
    t0 = time.time()
    head = "check %s tier=%s" % (pid, tier)
    print(head, flush=True)
    eng = build_engine()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    work = os.path.join(BUILD, "work")
    os.makedirs(work, exist_ok=True)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known_here = [k for k in known.get("findings", []) if k["property"] == pid]

    tot = dict(paths=0, forks=0, instructions=0, queries=0, z3_queries=0, sat=0, unsat=0, cache_hits=0,
               model_hits=0, solver_s=0.0, obligations=0, assume_killed=0)
    entries, funcs, samples_out, problems, violations, seen_known = [], set(), [], [], [], []
    validated = 0
    z3v = ""
    maxq = 0.0
    irs = {}
    for en in spec["entries"]:
        if en.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        if only and en["name"] != only:
            continue
        binname = en.get("bin", spec["bin"])
        if binname not in irs:
            irs[binname] = build_ir(crate, binname)
        ir, rel = irs[binname]
        name = en["name"]
        out = os.path.join(work, "%s-%s.json" % (pid, name))
        if os.path.exists(out):
            os.remove(out)
        tmo = en.get("timeout", 240 if tier == "quick" else 3000)
        kf = [k for k in known_here if k["entry"] == name]
        r = subprocess.run([eng, "--ir", ir, "--entry", name, "--out", out, "--jobs", "8",
                            "--timeout", str(tmo), "--max-steps", str(en.get("max_steps", 20_000_000)),
                            "--samples", str(en.get("samples", 12)),
                            "--max-violations", str(en.get("max_violations", 100000 if kf else 1))],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=tmo + 200)
        if not os.path.exists(out):
            problems.append("%s: executor failed: %s" % (name, r.stdout[-800:]))
            continue
        d = json.load(open(out))
        for k in tot:
            tot[k] += d[k]
        maxq = max(maxq, d["max_query_s"])
        z3v = d["z3"]
        funcs.update(d["functions"])
        new = []
        for v in d["violations"]:
            hit = None
            for k in kf:
                if v["kind"] == k["kind"] and re.search(k["match"], v["msg"] + " @ " + " < ".join(v["stack"])):
                    hit = k
                    break
            if hit:
                if hit["id"] not in [s["id"] for s in seen_known]:
                    seen_known.append(hit)
            else:
                new.append(v)
        conf = []
        for i, v in enumerate(new[:6]):
            rp = os.path.join(ev, "replay", "%s-%s-%d.txt" % (pid, name, i))
            note = ["property %s entry %s (%s)" % (pid, name, binname), "%s: %s" % (v["kind"], v["msg"]),
                    "replay: VP_REPLAY=<this file> <harness binary %s> %s" % (binname, name)]
            write_replay(rp, v, note)
            got = confirm(v, name, crate, binname, rel, rp)
            desc = "%s %s" % (v["kind"], v["msg"])
            aid = v["msg"] if v["kind"] == "assert" else None
            if aid and int(aid) in en.get("asserts", {}):
                desc += " (%s)" % en["asserts"][int(aid)]
            if got:
                with open(rp, "a") as f:
                    for g in got:
                        f.write("# native %s: %s\n" % g)
                conf.append((rp, desc, got))
            else:
                problems.append("%s: counterexample did not reproduce natively: %s inputs %r stack %r" % (name, desc, v["inputs"], v["stack"][:4]))
        for rp, desc, got in conf:
            violations.append(rp)
            print("  %s: %s; native: %s" % (name, desc, "; ".join("%s %s" % g for g in got)))
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        if not d["complete"] and not d["violations"]:
            problems.append("%s: incomplete: %s" % (name, "; ".join(d["errors"][:3])))
        elif d["errors"] and not new:
            problems.append("%s: %s" % (name, "; ".join(d["errors"][:3])))
        if not new:
            for c in en.get("covers", []):
                if str(c) not in d["covers"]:
                    problems.append("%s: witness %s never reached (vacuous)" % (name, c))
        # run sampled paths natively, compare everything they observed
        bad = 0
        for i, s in enumerate(d["samples"]):
            rp = os.path.join(work, "s.txt")
            with open(rp, "w") as f:
                f.write("".join("%d\n" % v for _, v in s["inputs"]))
            rc, so, se = native(rel, name, rp)
            outs = [int(x) for x in re.findall(r"^out (\d+)$", so, re.M)]
            if rc != 0 or outs != s["outs"]:
                bad += 1
                if bad == 1 and not violations:
                    problems.append("%s: native run of an explored path differs: inputs %r rc %r native %r symbolic %r %s" % (
                        name, s["inputs"], rc, outs[:40], s["outs"][:40], se[-300:]))
            else:
                validated += 1
            if i < 2 and len(samples_out) < 12:
                samples_out.append({"entry": name, "inputs": [v for _, v in s["inputs"]], "observed": s["outs"][:40]})
        entries.append(dict(entry=name, bounds=en["bounds"], paths=d["paths"], forks=d["forks"],
                            infeasible_or_assumed_away=d["assume_killed"], instructions=d["instructions"],
                            longest_path=d["max_path_steps"], symbolic_inputs=d["max_vars"],
                            assertions_discharged=d["obligations"], solver_queries=d["z3_queries"],
                            unsat=d["unsat"], sat=d["sat"], solver_s=d["solver_s"], wall_s=d["wall_s"],
                            witnesses=d["covers"], complete=d["complete"]))
        print("  %-28s paths %-6d queries %-6d (z3 %-5d unsat %-5d %.1fs) asserts %-6d wall %.1fs%s" % (
            name, d["paths"], d["queries"], d["z3_queries"], d["unsat"], d["solver_s"], d["obligations"], d["wall_s"],
            "" if d["complete"] else "  INCOMPLETE"), flush=True)
        if violations:
            break
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    ours = sorted(f for f in funcs if "antlr_rust" in f)
    evid = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["forks"] + len(entries), transitions=tot["instructions"],
            traces_validated_against_impl=validated, samples=samples_out,
            explanation="Symbolic execution of the optimised whole-program LLVM IR of /repo's crate plus harness; states = symbolic path segments, transitions = IR instructions interpreted symbolically; every feasible path within the stated bounds was followed to its end, Z3 deciding feasibility and every assertion.",
            exhaustive=(not problems and not violations),
            complete_paths=tot["paths"], solver="z3 " + z3v, queries=tot["queries"], z3_queries=tot["z3_queries"],
            sat=tot["sat"], unsat=tot["unsat"], cache_hits=tot["cache_hits"], model_reuse=tot["model_hits"], solver_s=round(tot["solver_s"], 3),
            max_query_s=maxq, assertions_discharged=tot["obligations"], entries=entries,
            outside_bounds=spec["outside"], functions_encoded=len(funcs), antlr_functions_encoded=ours),
        assumptions=spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("total wall %.1fs, %d paths, %d native validations" % (time.time() - t0, tot["paths"], validated))
    if violations:
        sys.exit(1)
    if problems:
        for p in problems:
            print("ERROR: " + p[:1500])
        sys.exit(2)
    print("OK property=%s held on everything explored" % pid)


main()
