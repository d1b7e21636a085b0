#!/usr/bin/env python3
"""Supervisor of the checks: builds the harness against /repo's working tree, runs the exploration of one property in
both build profiles, writes the evidence file, and translates the outcome.

    check.py P05 [quick|thorough]     run the check of one property
    check.py --setup                  build everything once
    check.py --replay FILE            run the history recorded in a replay file again

Exit 0: held on everything explored.  Exit 1: violation (line "VIOLATION property=<id> replay=<path>").
Exit 2: no answer (build failure, resources)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
PROFILES = [("release", ["--release"]), ("debug", [])]
ENV = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           HOME=os.environ.get("HOME") or "/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(v, None)

FAULT = {"P19", "P20"}           # level fault_enumeration: fault points of real executions
# Compile-time evaluation of group descriptors is part of these properties.
CONST_PROPS = {"P10", "P15", "P21", "P26"}


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "shard_ecs_derive/src"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, root))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for f in ("Cargo.toml", "shard_ecs_derive/Cargo.toml"):
        h.update(open(os.path.join(REPO, f), "rb").read() + b"\0")
    return h.hexdigest()


def build(profiles=PROFILES):
    """Builds the harness from the current working trees.  Returns (ok, output)."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.hash")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        # Do not rely on file times: forget that the library was ever built.
        for prof in ("release", "debug"):
            fp = os.path.join(TARGET, prof, ".fingerprint")
            if os.path.isdir(fp):
                for e in os.listdir(fp):
                    if e.startswith("shard"):
                        shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    procs = []
    for name, flags in profiles:
        procs.append(subprocess.Popen(["cargo", "build", "--offline", "--quiet", "-j", "6"] + flags, cwd=HARNESS, env=ENV,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    outs = [p.communicate()[0] for p in procs]
    ok = all(p.returncode == 0 for p in procs)
    if ok and len(profiles) == len(PROFILES):
        with open(stamp, "w") as f:
            f.write(now)
    return ok, "\n".join(outs)


def known():
    """Entries "finding: property=<id> match=<text> :: <description>" of the known-findings file."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                head, _, desc = line[len("finding:"):].partition("::")
                fields = dict(x.split("=", 1) for x in head.split("|") if "=" in x)
                r.append({k.strip(): v.strip() for k, v in fields.items()} | {"desc": desc.strip()})
    return r


def write_evidence(prop, tier, level, runs, wall, violations, extra_assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    tot = lambda k: sum(r.get(k, 0) for r in runs)
    cover = {}
    for r in runs:
        for k, v in r.get("cover", {}).items():
            cover[k] = cover.get(k, 0) + v
    samples, seen = [], set()
    for r in runs:
        for s in r.get("samples", []):
            if s not in seen and len(samples) < 10:
                seen.add(s)
                samples.append(s[:1500])
    c = {"samples": samples or ["(stopped before a sample was recorded)"]}
    if level == "fault_enumeration":
        c.update(evaluations=tot("executions"), distinct_nontrivial=cover.pop("faults fired", 0),
                 rule="every fault point (one injected panic or failed allocation) of every history enumerated; non-trivial = the fault was actually reached and raised")
    else:
        c.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"))
    c["counters"] = cover
    c["exhaustive"] = not any(r.get("truncated") for r in runs) and bool(runs) and not violations
    c["explored"] = [f"[{r.get('profile')}] {n}" for r in runs for n in r.get("notes", [])][:120]
    c["per_profile_wall_s"] = {r.get("profile"): r.get("wall_s") for r in runs}
    e = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": c,
         "assumptions": ["bounds as listed in coverage.explored and DESIGN.md", "x86-64 Linux, the installed stable rustc; one build with and one without debug assertions and overflow checks",
                         "every execution runs the real crate built from /repo's working tree; no extracted model is trusted"] + list(extra_assumptions),
         "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))


def violation(prop, data):
    os.makedirs(EVID, exist_ok=True)
    rel = f"evidence/replay-{prop}.json"
    with open(os.path.join(VERIF, rel), "w") as f:
        json.dump(data, f, indent=1)
    print(data["message"])
    print("history:", data.get("history", "")[:2000])
    print(f"VIOLATION property={prop} replay={rel}", flush=True)


def run_mc(prop, tier, prof):
    out = os.path.join(TARGET, f"out-{prop}-{prof}.json")
    if os.path.exists(out):
        os.remove(out)
    limit = 780 if tier == "quick" else 6 * 3600
    try:
        r = subprocess.run([os.path.join(TARGET, prof, "mc"), "run", prop, tier, out], timeout=limit, capture_output=True, text=True)
        rc, txt = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, txt = 2, "time limit"
    try:
        j = json.load(open(out))
    except Exception as e:
        j = {"inconclusive": f"no result ({e}); rc={rc}; {txt[-800:]}", "profile": prof}
    return rc, j, txt


PROGRAMS = {"P25": "derive_check", "P28": "borrow_check"}    # client programs, decided by the compiler


def programs_check(prop, tier):
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import importlib, programs
    try:
        return importlib.import_module(PROGRAMS[prop]).main(tier, ENV, TARGET, tree_hash(), write_evidence, violation, known())
    except programs.NoAnswer as e:
        print("no answer:", e)
        return 2


def main():
    a = sys.argv[1:]
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "check.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a and a[0] == "--setup":
        ok, out = build()
        print(out[-3000:])
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import programs
        try:
            programs.Libs(ENV, TARGET).build(tree_hash())
        except programs.NoAnswer as e:
            print(e)
        # A build failure is reported by the checks.
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        build()
        prof = {"checked": "debug"}.get(d["profile"], "release")
        return subprocess.run([os.path.join(TARGET, prof, "mc"), "replay", d["property"], d["tier"]] + d["cases"]).returncode
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    level = "fault_enumeration" if prop in FAULT else "model_checking"
    t0 = time.time()
    if prop in PROGRAMS:
        return programs_check(prop, tier)
    ok, out = build()
    if not ok:
        print(out[-6000:])
        const_eval = "error[E0080]" in out and ("/repo/src" in out or "shard_ecs::" in out)
        if const_eval and prop in CONST_PROPS:
            i = out.find("error[E0080]")
            write_evidence(prop, tier, level, [], time.time() - t0, 1)
            violation(prop, {"property": prop, "tier": tier, "profile": "release", "cases": [], "message":
                             "the descriptor of a well-formed component group cannot be evaluated at compile time:\n" + out[i:i + 1500], "history": "compile the harness"})
            return 1
        print("no answer: the harness does not build against /repo")
        return 2
    runs, status = [], 0
    listed = [k for k in known() if k.get("property") == prop]
    for prof, _ in PROFILES:
        rc, j, txt = run_mc(prop, tier, prof)
        runs.append(j)
        if rc == 1 and "confirmed" in j:
            c = j["confirmed"]
            k = next((k for k in listed if k.get("match") and k["match"] in c["message"] + " " + c["history"]), None)
            if k:
                print(f"KNOWN-FINDING: property={prop} {k['desc']}")
                continue
            write_evidence(prop, tier, level, runs, time.time() - t0, 1)
            violation(prop, {"property": prop, "tier": tier, "profile": j.get("profile"), "message": c["message"], "history": c["history"], "cases": c["cases"],
                             "replay_cmd": f"python3 check.py --replay evidence/replay-{prop}.json"})
            return 1
        if rc != 0:
            status = 2
            print(f"[{prof}] no answer: {j.get('inconclusive')} {txt[-1500:]}")
    write_evidence(prop, tier, level, runs, time.time() - t0, 0)
    for r in runs:
        print(f"{prop} [{r.get('profile')}] states={r.get('states')} transitions={r.get('transitions')} executions={r.get('executions')} truncated={r.get('truncated')} wall={r.get('wall_s')}s")
        for f, n in r.get("foreign", {}).items():
            print(f"   note: {n} observations belonging to other properties: {f}")
    return status


if __name__ == "__main__":
    sys.exit(main())
