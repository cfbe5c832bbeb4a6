#!/usr/bin/env python3
"""Decides one property: check.py <ID>   (environment: VERIF_SEED, VERIF_TIER=quick|thorough)

1. extracts the functions under contract from /repo/src (extract/ + specs/) and has Verus discharge every obligation;
2. replays: a bounded search on the compiled crate, to find a concrete input for a failed obligation and to stand in
   (labelled bounded) for what is not under contract;
3. writes evidence/<ID>.json.
Exit 0 or exit 1 with a VIOLATION line; see DESIGN.md for the verdict rules."""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           PATH="/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
VENV = {k: v for k, v in os.environ.items() if k != "RUSTUP_TOOLCHAIN"}
VENV["PATH"] = ENV["PATH"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def say(*a):
    print(*a, flush=True)


def build(crate, args):
    """cargo build, one at a time (checks may run side by side)"""
    os.makedirs(f"{V}/{crate}/target", exist_ok=True)
    with open(f"{V}/{crate}/target/.verif-lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # the lock file is committed; --locked keeps it as committed
        r = subprocess.run(["cargo", "build", "--offline", "--locked"] + args, cwd=f"{V}/{crate}", env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_extract():
    rc, out = build("extract", [])
    if rc:
        say(out[-3000:])
    return rc == 0


def build_replay():
    rc, out = build("replay", ["--release"])
    if rc:
        say(out[-3000:])
    return rc == 0


def run_unit(unit, tmp, vacuity=False):
    """extract + verify one unit -> dict"""
    u = {"unit": unit, "status": "ok", "verified": 0, "errors": 0, "failed": [], "functions": [], "rewrites": [],
         "notes": [], "smt_ms": 0, "wall_s": 0.0, "output": ""}
    t0 = time.time()
    out = f"{tmp}/{unit}{'_vac' if vacuity else ''}.rs"
    rep = out[:-3] + ".json"
    cmd = [f"{V}/extract/target/debug/extract", f"{REPO}/src", f"{V}/specs/{unit}.rs", out, rep]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, EXTRACT_VACUITY="1") if vacuity else None)
    u["notes"] += [l for l in r.stdout.splitlines() if l.strip()][:40]
    if r.returncode:
        u["status"] = "undecided"
        u["reason"] = "extraction: " + (r.stdout.strip().splitlines() or ["?"])[-1]
        return u
    rj = json.load(open(rep))
    u["functions"] = [{"fn": f["path"], "file": "src/" + f["file"], "lines": [f["line"], f["end_line"]]} for f in rj["functions"]]
    u["rewrites"] = sorted({x for f in rj["functions"] for x in f["rewrites"]})
    src = open(out).read()
    if vacuity:
        u["injected"] = len(u["functions"])
    u["trusted"] = scan_trusted(src)
    to = 600 if TIER == "thorough" else 300
    vcmd = ["verus", out, "--num-threads", "6", "--output-json", "--time-expanded", "--multiple-errors", "3",
            "--rlimit", "60" if TIER == "thorough" else "30"]
    u["cmd"] = " ".join(cmd[:3] + ["OUT"]) + " && " + " ".join(["verus", "OUT"] + vcmd[2:])
    try:
        r = subprocess.run(vcmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=VENV, timeout=to, cwd=tmp)
    except subprocess.TimeoutExpired:
        u["status"], u["reason"] = "undecided", f"verus: no answer within {to} s"
        return u
    u["wall_s"] = round(time.time() - t0, 1)
    u["output"] = r.stderr[-20000:]
    try:
        d = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        u["status"], u["reason"] = "undecided", "verus: no result"
        return u
    vr = d.get("verification-results", {})
    u["verified"], u["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    if vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("encountered-error") and not vr.get("errors")):
        u["status"] = "undecided"
        m = re.search(r"^error[^\n]*", r.stderr, re.M)
        u["reason"] = "verus rejects the extracted text: " + (m.group(0) if m else "?")
        return u
    smt = d.get("times-ms", {}).get("smt", {})
    u["smt_ms"] = smt.get("smt-run", 0)
    u["breakdown"] = []
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            u["breakdown"].append({"fn": f["function"].split("::", 1)[1], "mode": f.get("mode:", f.get("mode")), "ok": f["success"], "ms": f["time"]})
    u["failed"] = [f["fn"] for f in u["breakdown"] if not f["ok"]]
    rl = "rlimit" in r.stderr.lower() or "resource limit" in r.stderr.lower()
    if u["errors"] or u["failed"]:
        u["status"] = "undecided" if rl and not re.search(r"^error: (?!.*(resource limit|rlimit|aborting))", r.stderr, re.M) else "failed"
        if u["status"] == "undecided":
            u["reason"] = "verus: resource limit exceeded"
    elif u["verified"] == 0:
        u["status"], u["reason"] = "undecided", "no obligations were generated"
    return u


def scan_trusted(src):
    """mechanical scan of the verified text for everything that is assumed rather than proved"""
    t = set()
    lines = src.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"external_body|external_type_specification|external_fn_specification|assume_specification|verifier::external", s):
            for j in range(i, min(i + 8, len(lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[j]) or re.search(r"assume_specification.*\[\s*(.*?)\s*\]", lines[j])
                if m:
                    t.add("trusted contract: " + m.group(m.lastindex))
                    break
        if re.search(r"\baxiom\s+fn\s+(\w+)", s):
            t.add("axiom: " + re.search(r"axiom\s+fn\s+(\w+)", s).group(1))
        if re.search(r"\b(assume|admit)\s*\(", s):
            t.add("assume: " + s[:100])
        if "exec_allows_no_decreases_clause" in s:
            t.add("termination not proved: " + s[:80])
        m = re.search(r"uninterp spec fn (\w+)", s)
        if m:
            t.add("uninterpreted: " + m.group(1))
    return sorted(t)


def search(pid, seed, secs, tmp, tag):
    """one run of the replay search -> (fail|None, info)"""
    exe = f"{V}/replay/target/release/replay"
    try:
        r = subprocess.run([exe, pid, str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return None, {"error": "search ran out of time"}
    if r.returncode == 0:
        d = json.loads(r.stdout.strip().splitlines()[-1])
        if d["fail"]:
            d["fail"].update(seed=seed, secs=secs)
        return d["fail"], d
    # the process died (stack overflow, abort): again with a trace of the current input
    tf = f"{tmp}/trace{tag}"
    try:
        r2 = subprocess.run([exe, pid, str(seed), str(secs * 4), tf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs * 5 + 120)
        if r2.returncode == 0:
            d = json.loads(r2.stdout.strip().splitlines()[-1])
            if d["fail"]:
                d["fail"].update(seed=seed, secs=secs)
            return d["fail"], d
        cur = open(tf, errors="replace").read()
    except (OSError, subprocess.TimeoutExpired):
        return None, {"error": f"search died with {r.returncode}"}
    return {"input": cur, "expected": "no crash", "actual": f"the process died ({r2.returncode}): {r2.stderr[-300:]}",
            "seed": seed, "secs": secs}, {"evals": 0, "distinct": 0, "samples": [], "rule": ""}


def searches(pid, seeds, secs, tmp):
    """several searches side by side -> (fail|None, merged info)"""
    info = {"evals": 0, "distinct": 0, "samples": [], "rule": "", "errors": []}
    fail = None
    with cf.ThreadPoolExecutor(len(seeds)) as ex:
        for f, d in ex.map(lambda s: search(pid, s, secs, tmp, s), seeds):
            if f and not fail:
                fail = f
            if "error" in d:
                info["errors"].append(d["error"])
                continue
            info["evals"] += d["evals"]
            info["distinct"] = max(info["distinct"], d["distinct"])
            info["rule"] = d["rule"] or info["rule"]
            if len(info["samples"]) < 8:
                info["samples"] = (info["samples"] + d["samples"])[:8]
    return fail, info


def known_findings(pid):
    out = []
    for l in open(f"{V}/known_findings.txt"):
        m = re.match(r"finding: property=(\S+) input=(.*?) :: (.*)$", l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    cfg = json.load(open(f"{V}/props.json"))[pid]
    t0 = time.time()
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/replays", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return run(pid, cfg, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, cfg, t0, tmp):
    units = cfg["units"]
    with cf.ThreadPoolExecutor(4) as ex:
        fr = ex.submit(build_replay)
        results = []
        if units:
            if build_extract():
                results = list(ex.map(lambda u: run_unit(u, tmp), units))
            else:
                results = [{"unit": u, "status": "undecided", "reason": "the extractor does not build", "verified": 0, "errors": 0,
                            "failed": [], "functions": [], "rewrites": [], "notes": [], "smt_ms": 0, "output": ""} for u in units]
        replay_ok = fr.result()
    # a failed obligation is tried once more before it counts
    for i, u in enumerate(results):
        if u["status"] == "failed":
            u2 = run_unit(u["unit"], tmp)
            if u2["status"] != "failed":
                results[i] = u2
    # functions the property does not depend on (they are under contract for another property of the same unit)
    ign = re.compile(cfg["ignore"]) if cfg.get("ignore") else None
    for u in results:
        if ign and u["status"] == "failed" and u["failed"] and all(ign.fullmatch(f.rsplit("::", 1)[-1]) for f in u["failed"]):
            u["status"], u["reason"] = "ok", "failed obligations only in functions this property does not depend on: " + ", ".join(u["failed"])
    failed = [u for u in results if u["status"] == "failed"]
    undecided = [u for u in results if u["status"] == "undecided"]
    for u in results:
        say(f"unit {u['unit']}: {u['status']} verified={u['verified']} errors={u['errors']} smt={u['smt_ms']}ms "
            + (u.get("reason", "") or ", ".join(u["failed"])))
    # bounded search on the compiled crate
    secs = cfg.get("secs", 20) if TIER == "quick" else 240
    if undecided or not units:
        secs = max(secs, 40)
    seeds = [SEED + 1000 * k for k in range(4)]
    fail, info = None, {"evals": 0, "distinct": 0, "samples": [], "rule": "", "errors": ["the replay crate does not build"]}
    if replay_ok:
        fail, info = searches(pid, seeds, secs, tmp)
        if failed and not fail:
            fail, more = searches(pid, [SEED + 7 + 1000 * k for k in range(4, 11)], 60 if TIER == "quick" else 240, tmp)
            info["evals"] += more["evals"]
            info["distinct"] = max(info["distinct"], more["distinct"])
    rc = 0
    known = known_findings(pid)
    for inp, what in known:
        say(f"KNOWN-FINDING: property={pid} {what}")
    path = f"{V}/replays/{pid}.json"
    if os.path.exists(path):
        os.remove(path)
    rep = {"property": pid, "seed": SEED, "tier": TIER,
           "failed_obligations": [{"unit": u["unit"], "functions": u["failed"], "verifier_output": u["output"], "cmd": u.get("cmd")} for u in failed]}
    if fail:
        rep.update(fail)
        rep["reproduce"] = f"{V}/replay/target/release/replay {pid} {fail.get('seed')} {fail.get('secs')}"
    if fail or failed:
        json.dump(rep, open(path, "w"), indent=1)
        rc = 1
        for u in failed:
            say("failed obligations in " + u["unit"] + ":\n" + u["output"][:4000])
        if fail:
            say(f"input:    {fail['input'][:1500]}\nexpected: {fail['expected'][:1500]}\nactual:   {fail['actual'][:1500]}")
            say(f"VIOLATION property={pid} replay={path}")
        else:
            say(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    # vacuity: with assert(false) at the start of every function under contract, every one of them must fail
    vac = None
    if TIER == "thorough" and results and not failed and not undecided:
        vac = []
        for u in units:
            v = run_unit(u, tmp, vacuity=True)
            vac.append({"unit": u, "injected": v.get("injected"), "failing": len([b for b in v.get("breakdown", []) if b["mode"] == "exec" and not b["ok"]])})
        say("vacuity probe:", vac)
    ob = sum(u["verified"] + u["errors"] for u in results)
    dis = sum(u["verified"] for u in results if u["status"] != "undecided")
    cov = {
        "explanation": cfg["explain"],
        "evaluations": info["evals"], "distinct_nontrivial": info["distinct"], "rule": info["rule"], "samples": info["samples"] or ["(none)"],
        "bounded_part": cfg["bounded"], "search_seconds": secs, "search_seeds": seeds, "search_errors": info["errors"],
    }
    if units:
        cov.update({
            "obligations": ob, "discharged": dis,
            "obligation_unit": "one per function, lemma, recursive spec function or loop that Verus reports (each bundles all its SMT queries)",
            "back_end": "Verus 0.2026.09.13 / Z3", "smt_ms": sum(u["smt_ms"] for u in results),
            "checker_cmd": results[0].get("cmd", ""),
            "functions_under_contract": [f for u in results for f in u["functions"]],
            "per_unit": [{k: u.get(k) for k in ("unit", "status", "reason", "verified", "errors", "smt_ms", "wall_s", "failed", "notes")} for u in results],
            "slowest": sorted((b for u in results for b in u.get("breakdown", [])), key=lambda b: -b["ms"])[:5],
            "extraction_rewrites": sorted({x for u in results for x in u["rewrites"]}),
            "trusted_base": sorted({x for u in results for x in u.get("trusted", [])}) + ["vstd contracts of the Verus release", "the extractor (extract/): rewrites listed under extraction_rewrites", "Z3"],
        })
        if vac is not None:
            cov["vacuity"] = vac
        if undecided:
            cov["undecided"] = "not proved on this tree (bounded search only): " + "; ".join(f"{u['unit']}: {u['reason']}" for u in undecided)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": rc}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    say(f"{pid}: {'VIOLATED' if rc else 'held'}; obligations {dis}/{ob}; {info['evals']} cases ({info['distinct']} distinct); {ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
