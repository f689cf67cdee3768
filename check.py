#!/usr/bin/env python3
"""check.py <property>: decides one property with the solver (see DESIGN.md).

Exit 0: every query was discharged (known findings are printed). Exit 1: a
violation that was replayed against the real code. Exit 2: no answer."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS

HARNESS = os.path.join(VERIF, "harness")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
START = time.time()
LIMIT = {"quick": 860, "thorough": 7200}


def left(tier):
    return max(20, LIMIT[tier] - (time.time() - START))


def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **kw)
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, timeout, **kw):
    """(returncode or None on timeout, stdout+stderr); ends the whole process group."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace", **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


# ---------------------------------------------------------------- harnesses


def harness_names():
    names = []
    for f in sorted(os.listdir(os.path.join(HARNESS, "src"))):
        if f.startswith("m_") and f.endswith(".rs"):
            text = open(os.path.join(HARNESS, "src", f)).read()
            for n in re.findall(r"^    \[[^\]]*\] (c\d\d_[a-z0-9_]+) \{", text, re.M):
                names.append((f[:-3], n))
    return names


def select(prop, tier):
    pats = list(PROPS[prop].get("quick", []))
    if tier == "thorough":
        pats += PROPS[prop].get("thorough", [])
    return [m + "::" + n for m, n in harness_names() if any(re.fullmatch(p, n) for p in pats)]


KANI = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--exact"]


def kani_env():
    return env(CARGO_TARGET_DIR=os.path.join(TARGET, "kani"), RUSTC_WRAPPER=os.path.join(VERIF, "tools", "rustc_wrap.sh"))


def kani(harnesses, tier, unwind=None):
    js = os.path.join(TARGET, "kani-%d.json" % os.getpid())
    if os.path.exists(js):
        os.remove(js)
    cmd = list(KANI)
    for h in harnesses:
        cmd += ["--harness", h]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    cmd += ["--harness-timeout", "%ds" % (650 if tier == "quick" else 3000), "-j", "8", "--output-format", "terse", "--export-json", js]
    rc, out = run(cmd, left(tier) - 10, cwd=HARNESS, env=kani_env())
    if not os.path.exists(js):
        return None, out
    d = json.load(open(js))
    os.remove(js)
    return d, out


def failing(result):
    """The failed checks of one harness. CBMC's NaN checks are not violations: NaN is an ordinary value."""
    return [
        c
        for c in result["checks"]
        if c["status"] in ("Failure", "Unknown") and not c["description"].startswith("NaN on ") and c["category"] != "cover"
    ]


def unwinding(c):
    return c["category"] == "unwind" or "unwinding assertion" in c["description"]


# ---------------------------------------------------------------- replay


def playback(h, tier):
    """The solver's assignments for a failing harness."""
    cmd = KANI + ["-Z", "concrete-playback", "--harness", h, "--concrete-playback=print", "--no-slice-formula",
                  "--harness-timeout", "400s"]
    rc, out = run(cmd, left(tier), cwd=HARNESS, env=kani_env())
    tests = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S):
        vals = [bytes(int(x) for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([\d, ]*)\]", block)]
        tests.append(vals)
    return tests, out


def build_replay(mode):
    e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "native"), RUSTUP_TOOLCHAIN=TOOLCHAIN)
    cmd = ["cargo", "build", "--offline", "-q", "--bin", "replay"] + (["--release"] if mode == "release" else [])
    rc, out = run(cmd, 300, cwd=HARNESS, env=e)
    return rc == 0, out


def replay_one(name, path, mode):
    """None: no answer. False: the harness held. str: how it failed."""
    if mode == "miri":
        e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "miri"), RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", MIRIFLAGS="-Zmiri-disable-isolation")
        rc, out = run(["cargo", "miri", "run", "--offline", "-q", "--bin", "replay", "--", name, path], 240, cwd=HARNESS, env=e)
        if rc not in (0, None) and "Undefined Behavior" in out:
            return "miri: " + " ".join(re.findall(r"error: (Undefined Behavior.*)", out)[:1])
        if rc not in (0, None) and "panicked at" in out:
            return "miri: panic"
        return False if rc == 0 else None
    ok, out = build_replay(mode)
    if not ok:
        print(out[-2000:])
        return None
    exe = os.path.join(TARGET, "native", "release" if mode == "release" else "debug", "replay")
    rc, out = run([exe, name, path], 120)
    if rc == 0 and "REPLAY-HELD" in out:
        return False
    if rc in (78, 79):
        return None
    if rc is None:
        return mode + ": does not terminate (120 s)"
    msg = re.findall(r"panicked at (.*?):\n(.*)", out)
    return "%s: %s" % (mode, "; ".join("%s (%s)" % (m, w) for w, m in msg) or "exit %s" % rc)


def reproduce(prop, h, checks, tier):
    """Replays the counterexamples of a failing harness; (path, how) of one that fails natively."""
    tests, out = playback(h, tier)
    name = h.split("::")[1]
    paths = []
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    for i, vals in enumerate(tests[:6]):
        p = os.path.join(d, "%s-%s-%d.txt" % (prop, name, i))
        with open(p, "w") as f:
            f.write("# %s: counterexample for %s\n" % (prop, h))
            for c in checks[:4]:
                f.write("# failed: %s in %s\n" % (c["description"], c["function"]))
            f.write("# replay: cd /verif/harness && cargo run --offline --bin replay -- %s %s\n" % (name, p))
            for v in vals:
                f.write(v.hex() + "\n")
        paths.append(p)
    if not paths:
        print("no counterexample was produced for %s" % h)
        print(out[-1500:])
    for mode in ("dev", "release", "miri"):
        for p in paths:
            how = replay_one(name, p, mode)
            print("replay %s %s: %s" % (mode, os.path.basename(p), {None: "no answer", False: "held"}.get(how, how)))
            if how:
                return p, how
    return None


# ---------------------------------------------------------------- real arithmetic


def real(pats, tier):
    """The queries of realcheck.py (LLVM IR over the reals, z3)."""
    js = os.path.join(TARGET, "real-%d.json" % os.getpid())
    rc, out = run(["python3-vt", os.path.join(VERIF, "tools", "realcheck.py"), "--out", js] + pats, left(tier), env=env(VERIF_TARGET=TARGET, VERIF_TIER=tier))
    if rc != 0 or not os.path.exists(js):
        return None, out
    d = json.load(open(js))
    os.remove(js)
    return d, out


# ---------------------------------------------------------------- main


def known_findings(prop):
    out = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) harness=(\S+) function=(\S+) message=\"([^\"]*)\" (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append(dict(zip(("prop", "harness", "function", "message", "what"), m.groups())))
    return out


def known_place(k, c):
    """Anywhere in /repo: the harness enters through the one function the finding names, which may have been split up."""
    return "/repo/" in c["location"].get("file", "")


def main():
    if sys.argv[1:] == ["--build"]:
        os.makedirs(TARGET, exist_ok=True)
        d, out = kani(["m_misc::c29_digital"], "quick")
        if d is None:
            print(out[-3000:])
        sys.exit(0 if d else 2)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    spec = PROPS[prop]
    violations, inconclusive, known = [], [], []
    queries, functions = [], set()
    solver_s = symex_s = 0.0
    vccs = solved = checks_total = 0

    hs = select(prop, tier)
    if hs:
        data, out = kani(hs, tier)
        if data is None:
            print(out[-4000:])
            print("INCONCLUSIVE property=%s the harness crate was not verified" % prop)
            sys.exit(2)
        results = {r["harness_id"]: r for r in data["verification_results"]["results"]}
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data["cbmc"]}
        status = {e["harness_id"]: e.get("exit_status") for e in data["error_details"]}
        for h in hs:
            r = results.get(h)
            # a loop bound that no longer fits is raised, not reported
            for unwind in (16, 40, 120):
                if r and failing(r) and all(unwinding(c) for c in failing(r) if c["status"] == "Failure"):
                    d2, _ = kani([h], tier, unwind)
                    if d2:
                        r = {x["harness_id"]: x for x in d2["verification_results"]["results"]}.get(h)
                        status[h] = {e["harness_id"]: e.get("exit_status") for e in d2["error_details"]}.get(h)
            if r is None or status.get(h) == "timeout" or (r["status"] != "Success" and not r["checks"]):
                inconclusive.append("%s: no verdict (%s)" % (h, status.get(h)))
                continue
            st = stats.get(h, {})
            solver_s += st.get("runtime_decision_procedure_s", 0) or 0
            symex_s += st.get("runtime_symex_s", 0) or 0
            vccs += st.get("vccs_generated", 0) or 0
            solved += st.get("vccs_remaining", 0) or 0
            checks_total += len(r["checks"])
            for c in r["checks"]:
                if "/repo/" in c["location"].get("file", "") or "embedded_audio_tools" in c["function"]:
                    functions.add(c["function"])
            bad = [c for c in failing(r) if c["status"] == "Failure"]
            reach = [c for c in r["checks"] if c["category"] == "cover"]
            queries.append({"harness": h, "verdict": "violated" if bad else "held", "checks": len(r["checks"]), "wall_s": r["duration_ms"] / 1000,
                            "vccs": st.get("vccs_generated"), "solver_s": st.get("runtime_decision_procedure_s")})
            if not bad:
                if any(c["status"] == "Failure" for c in r["checks"] if c["description"].startswith("NaN on ")) or r["status"] == "Success":
                    if not reach or any(c["status"] != "Satisfied" for c in reach):
                        inconclusive.append("%s: vacuous (its end is not reachable)" % h)
                else:
                    inconclusive.append("%s: %s without a failed check" % (h, r["status"]))
                continue
            fresh = []
            for c in bad:
                k = [k for k in known_findings(prop) if k["harness"] == h.split("::")[1] and k["message"] == c["description"] and known_place(k, c)]
                if k:
                    known += [k[0]]
                else:
                    fresh.append(c)
            if fresh:
                print("solver: %s fails: %s" % (h, "; ".join("%s [%s]" % (c["description"], c["function"]) for c in fresh[:4])))
                if violations:
                    continue
                rep = reproduce(prop, h, fresh, tier)
                if rep:
                    violations.append((h, rep))
                else:
                    inconclusive.append("%s: the counterexample was not reproduced on the real code" % h)

    pats = spec.get("real", []) + (spec.get("real_thorough", []) if tier == "thorough" else [])
    if pats and not violations:
        rs, out = real(pats, tier)
        if rs is None:
            print(out[-3000:])
            inconclusive.append("the queries over the reals were not decided")
        for r in rs or []:
            # beside bounded queries on the same property, an unencodable one narrows what was explored; alone, it is no answer
            if r["inconclusive"] and not r["violations"]:
                if hs:
                    print("not decided: %s: %s" % (r["query"], "; ".join(r["inconclusive"])))
                else:
                    inconclusive.append("%s: %s" % (r["query"], "; ".join(r["inconclusive"])))
            queries.append({"query": r["query"], "verdict": "violated" if r["violations"] else "undecided" if r["inconclusive"] else "held",
                            "paths": r["paths"], "checks": r["obligations"], "wall_s": r["wall_s"], "solver_queries": r["solver_queries"], "solver_s": r["solver_s"]})
            functions.update(r["functions"])
            solver_s += r["solver_s"]
            symex_s += max(0.0, r["wall_s"] - r["solver_s"])
            vccs += r["obligations"]
            solved += r["solver_queries"]
            checks_total += r["obligations"]
            for v in r["violations"][:1]:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                p = os.path.join(VERIF, "replays", "%s-%s.txt" % (prop, r["query"]))
                with open(p, "w") as f:
                    f.write("# %s: %s: %s\n# %s\n# replay: python3-vt /verif/tools/realcheck.py --replay %s %s\n%s\n" % (
                        prop, r["query"], v["label"], v["how"], r["query"], p, " ".join("%r" % x for x in v["inputs"])))
                violations.append((r["query"], (p, v["how"])))

    held = sum(1 for q in queries if q["verdict"] == "held")
    bounds = json.load(open(os.path.join(VERIF, "tools", "bounds.json"))).get(prop, "")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Solver verdicts over all values within the bounds. Each query executes the real code of /repo symbolically; "
                           "obligations = assertions, panics, overflow, bounds and pointer checks of all queries. " + bounds,
            "bounds": bounds,
            "queries": len(queries), "queries_held": held,
            "obligations": checks_total, "verification_conditions": vccs, "conditions_sent_to_solver": solved,
            "solver_seconds": round(solver_s, 3), "symbolic_execution_seconds": round(symex_s, 3),
            "functions_encoded": sorted(functions),
            "known_findings": sorted({k["what"] for k in known}),
            "samples": queries,
        },
        "assumptions": json.load(open(os.path.join(VERIF, "tools", "bounds.json"))).get("_assumptions", []),
        "wall_s": round(time.time() - START, 1),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in {k["what"]: k for k in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d queries, %d held, %d checks, solver %.1f s, wall %.1f s" % (prop, len(queries), held, checks_total, solver_s, time.time() - START))
    if violations:
        for h, (path, how) in violations:
            print("%s: %s" % (h, how))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if inconclusive:
        for i in inconclusive:
            print("INCONCLUSIVE property=%s %s" % (prop, i))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
