"""Runs the scenarios of one property, replays what they find, writes the evidence file."""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, NCPU

FINDINGS = os.path.join(VERIF, "known_findings.json")


class Job:
    def __init__(self, scen, mods, params=None, time=400, reach=(), defs=(), samples=2, tier="quick", maxpaths=None, steps=None, bound=""):
        self.scen, self.mods, self.params, self.time, self.reach = scen, list(mods), dict(params or {}), time, tuple(reach)
        self.defs, self.samples, self.tier, self.maxpaths, self.steps, self.bound = tuple(defs), samples, tier, maxpaths, steps, bound

    def name(self):
        return self.scen.replace(".c", "") + "".join(":" + d[5:] for d in self.defs if d.startswith("CPUN=")) + ("[" + ",".join("%s=%s" % kv for kv in sorted(self.params.items())) + "]" if self.params else "")


def known_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    d = json.load(open(FINDINGS))
    return [f for f in d.get("findings", []) if f["property"] == prop]


def native_run(nat, bindir, witness, workroot):
    w = tempfile.mkdtemp(dir=workroot)
    try:
        r = subprocess.run([nat, witness, bindir, w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 6, "TIMEOUT"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run_property(prop, jobs, tier, title="", bounds="", only=None, keep=False, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    # an unprivileged user has no business here, but the executables only touch files inside this scratch folder
    try:
        return _run(prop, jobs, tier, title, bounds, only, verbose, t0, seed, scratch)
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, jobs, tier, title, bounds, only, verbose, t0, seed, scratch):
    engine = build.engine()
    tree = build.Tree()
    jobs = [j for j in jobs if tier == "thorough" or j.tier == "quick"]
    if only:
        jobs = [j for j in jobs if only in j.name()]
    mods = sorted({m for j in jobs for m in j.mods})
    bcs = tree.modules(mods)
    findings = known_findings(prop)
    kparams = {"known_" + f["id"]: 1 for f in findings}
    scen = {}
    for key in sorted({(j.scen, j.defs) for j in jobs}):
        scen[key] = tree.scenario(*key)
    results = [None] * len(jobs)

    def one(i):
        j = jobs[i]
        out = os.path.join(scratch, "j%d" % i)
        os.makedirs(out)
        js = os.path.join(out, "r.json")
        cmd = [engine, "-out", out, "-json", js, "-time", str(j.time * (4 if tier == "thorough" else 1)), "-samples", str(j.samples), "-mod", "scenario=" + scen[(j.scen, j.defs)][0]]
        for m in j.mods:
            cmd += ["-mod", m + "=" + bcs[m]]
        for k, v in list(j.params.items()) + list(kparams.items()) + [("thorough", int(tier == "thorough"))]:
            cmd += ["-param", "%s=%d" % (k, v)]
        if j.maxpaths:
            cmd += ["-maxpaths", str(j.maxpaths)]
        if j.steps:
            cmd += ["-steps", str(j.steps)]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=j.time * (4 if tier == "thorough" else 1) + 120)
            log, rc = r.stdout.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as e:
            log, rc = (e.stdout or b"").decode(errors="replace") + "\nengine timed out", -9
        res = {"rc": rc, "log": log, "out": out, "wall": time.time() - t}
        if os.path.exists(js):
            try:
                res.update(json.load(open(js)))
            except ValueError as e:
                res["rc"] = -1
                res["log"] += str(e)
        return i, res

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].time)
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(one, i) for i in order]
        # native executables are built while the engine runs
        natbin = tree.native(mods)
        for f in as_completed(futs):
            i, res = f.result()
            results[i] = res
            if verbose:
                print("%-60s rc=%s paths=%s killed=%s forks=%s q=%s z3=%s viol=%d drop=%s wall=%.1f" % (jobs[i].name(), res["rc"], res.get("paths"), res.get("killed"), res.get("forks"), res.get("queries"), res.get("z3"), len(res.get("violations", [])), res.get("dropped"), res["wall"]), flush=True)

    errors, confirmed, notes, incomplete = [], [], [], []
    tot = {k: 0 for k in ("paths", "killed", "forks", "instructions", "asserts", "asserts_symbolic", "symbolic_bytes", "runs", "queries", "z3", "sat", "unsat", "unknown", "cached", "reused", "solver_s", "faults")}
    funcs = {}
    samples, validated, sample_fail = [], 0, 0
    replays = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    for i, j in enumerate(jobs):
        res = results[i]
        if res["rc"] != 0 or "paths" not in res:
            errors.append("%s: engine failed (rc %s): %s" % (j.name(), res["rc"], res["log"][-800:]))
            continue
        for k in tot:
            tot[k] += res.get(k, 0)
        for m, fs in res.get("functions", {}).items():
            funcs.setdefault(m, set()).update(fs)
        if res["dropped"]:
            incomplete.append({"job": j.name(), "dropped": res["dropped"]})
        bc, nat = scen[(j.scen, j.defs)]
        for v in res["violations"]:
            rc, out = native_run(nat, natbin, v["file"], scratch)
            kind = "plain"
            if "ASSERT-FAIL" not in out:
                asan = tree.native(j.mods, "asan")
                rc, out2 = native_run(nat, asan, v["file"], scratch)
                kind = "address sanitizer"
                if "ASSERT-FAIL" in out2:
                    out = out2
            if "ASSERT-FAIL" in out:
                hid = hashlib.sha256(open(v["file"], "rb").read()).hexdigest()[:10]
                dst = os.path.join(replays, "%s_%s.txt" % (prop, hid))
                shutil.copy(v["file"], dst)
                with open(dst, "a") as f:
                    f.write("# property %s, scenario %s, confirmed natively (%s build)\n# replay with: %s/vf replay %s %s\n" % (prop, j.scen, kind, VERIF, prop, dst))
                    for line in out.splitlines():
                        f.write("# " + line + "\n")
                confirmed.append((j, v["msg"], dst, [l for l in out.splitlines() if l.startswith("ASSERT-FAIL")]))
            else:
                keepf = os.path.join(replays, "unconfirmed_%s_%d.txt" % (prop, i))
                shutil.copy(v["file"], keepf)
                errors.append("%s: counterexample not confirmed natively: %s (%s)\n%s" % (j.name(), v["msg"], keepf, out[-600:]))
        if not res["violations"]:
            for r in j.reach:
                if r not in res["reach"]:
                    (incomplete if res["dropped"] else errors).append("%s: never reached '%s' (vacuous)" % (j.name(), r))
        # path witnesses against the real executables
        for n in range(j.samples):
            f = os.path.join(res["out"], "sample%d.txt" % n)
            if not os.path.exists(f):
                continue
            want = [l.strip() for l in open(f) if l.startswith("event ")]
            rc, out = native_run(nat, natbin, f, scratch)
            got = [l.strip() for l in out.splitlines() if l.startswith("event ")]
            if "ASSERT-FAIL" in out and not any(v for v in res["violations"]):
                hid = hashlib.sha256(open(f, "rb").read()).hexdigest()[:10]
                dst = os.path.join(replays, "%s_%s.txt" % (prop, hid))
                shutil.copy(f, dst)
                confirmed.append((j, "path witness fails natively: " + out.split("ASSERT-FAIL:")[1].splitlines()[0], dst, []))
            elif want == got:
                validated += 1
            elif not res["violations"]:
                sample_fail += 1
                keepf = os.path.join(replays, "mismatch_%s_%d.txt" % (prop, i))
                shutil.copy(f, keepf)
                diff = [(a, b) for a, b in zip(want + [""] * 50, got + [""] * 50) if a != b][:2]
                errors.append("%s: engine and native run disagree on a sample path (%s): %s\n%s" % (j.name(), keepf, diff, out[-300:]))
            if len(samples) < 6:
                samples.append({"job": j.name(), "inputs": [l.strip()[6:] for l in open(f) if l.startswith("input ")][:40], "events": want[:12]})
    # known findings: replay each recorded failing input; say so while it still fails
    kf_lines = []
    for f in findings:
        sj = next((j for j in jobs if j.scen == f["scenario"]), None)
        bc, nat = tree.scenario(f["scenario"], tuple(f.get("defs", ())))
        b = tree.native(f["modules"], f.get("build", "nat"))
        w = os.path.join(scratch, "kf_%s.txt" % f["id"])
        open(w, "w").write("\n".join(f["witness"]) + "\n")
        rc, out = native_run(nat, b, w, scratch)
        if "ASSERT-FAIL" in out:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        else:
            notes.append("known finding %s no longer fails" % f["id"])
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(confirmed),
        "coverage": {
            "states": tot["paths"] + tot["killed"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
            "samples": samples or [{"job": j.name()} for j in jobs[:1]],
            "exhaustive": not incomplete and not errors,
            "states_meaning": "symbolic paths explored to their end; every path stands for all inputs that satisfy its path condition",
            "transitions_meaning": "branches both sides of which were feasible (state forks)",
            "jobs": [{"job": j.name(), "bound": j.bound, "paths": r.get("paths"), "forks": r.get("forks"), "queries": r.get("queries"), "z3_calls": r.get("z3"), "solver_s": r.get("solver_s"), "wall_s": round(r["wall"], 2)} for j, r in zip(jobs, results)],
            "queries_discharged": tot["queries"], "z3_calls": tot["z3"], "z3_sat": tot["sat"], "z3_unsat": tot["unsat"], "z3_unknown": tot["unknown"], "queries_from_cache": tot["cached"] + tot["reused"], "solver_s": round(tot["solver_s"], 3),
            "assertions_checked": tot["asserts"], "assertions_sent_to_the_solver": tot["asserts_symbolic"], "symbolic_output_bytes_compared": tot["symbolic_bytes"], "comparison_note": "a symbolic output byte whose term the rewriter turns into the expected term is decided without a z3 call; the others go to z3", "program_runs": tot["runs"], "instructions": tot["instructions"],
            "functions_encoded": {m: sorted(f for f in fs) for m, fs in sorted(funcs.items())}, "functions_encoded_count": sum(len(f) for f in funcs.values()),
            "bounds": bounds, "incomplete": incomplete, "tree": tree.hash,
        },
        "assumptions": ["clang 18 -O1 bitcode of /repo's sources stands for the shipped executables (sample paths of every job are replayed on gcc -O2 builds and compared)", "the C library is modelled by engine/minilibc.c and the engine's built-ins; time() is constant", "IEEE double arithmetic on exact integers, dyadic fractions and integer quotients is encoded over 64-bit integers; negative zero is identified with zero"],
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in kf_lines:
        print(l)
    for n in notes:
        print("note:", n)
    print("%s %s: %d jobs, %d paths, %d queries (%d z3 calls, %.1fs solver), %d asserts, %d traces validated, %.1fs" % (prop, tier, len(jobs), tot["paths"], tot["queries"], tot["z3"], tot["solver_s"], tot["asserts"], validated, wall))
    for x in incomplete:
        print("INCOMPLETE:", x)
    if confirmed:
        seen = set()
        for j, msg, dst, fails in confirmed:
            if msg in seen:
                continue
            seen.add(msg)
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            print("   %s: %s" % (j.name(), msg))
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    return 0
