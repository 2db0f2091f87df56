#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

usage: check.py ID --tier quick|thorough

1. builds the executor (engine/), the LLVM IR of the harness crate linked with
   /repo's current source (harness/), and a native replay binary of the same;
2. runs every harness of the property through the executor, one process per
   (harness, shard), and requires each to finish: all paths within the bounds;
3. replays a sample of the explored paths natively and compares what was
   observed (a difference is an error of the machinery, not a verdict);
4. replays each counterexample natively before reporting it.
exit 0: held on everything explored; 1: VIOLATION; 2: no verdict.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, glob, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
from spec import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV["RUSTFLAGS"] = "--cfg webparse_verif"   # the hook of /repo (see MANIFEST.json)
NPROC = os.cpu_count() or 4


class NoVerdict(Exception):
    pass


def sh(cmd, cwd, timeout, what):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise NoVerdict("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-6000:]))


def build(feature, profiles):
    """→ {profile: (ir, replay)}"""
    H, E = V + "/harness", V + "/engine"
    td = V + "/target"
    out, jobs = {}, []

    def engine():
        sh(["cargo", "build", "--offline", "--release", "--quiet", "--target-dir", td + "/engine"], E, 600, "engine build")

    def ir(profile):
        d = "%s/ir-%s-%s" % (td, feature, profile)
        sh(["cargo", "rustc", "--offline", "--quiet", "--profile", profile, "--lib", "--crate-type", "cdylib", "--features", feature,
            "--target-dir", d, "--", "--emit=llvm-ir", "-C", "no-vectorize-slp", "-C", "no-vectorize-loops"], H, 600, "IR build")
        return d + "/" + profile + "/deps/harness.ll"

    def native(profile):
        d = "%s/nat-%s-%s" % (td, feature, profile)
        sh(["cargo", "build", "--offline", "--quiet", "--profile", profile, "--bin", "replay", "--features", feature, "--target-dir", d],
           H, 600, "replay build")
        return d + "/" + profile + "/replay"

    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine)
        fi = {p: (ex.submit(ir, p), ex.submit(native, "replay" if p == "release" else "replaywrap")) for p in profiles}
        fe.result()
        for p, (a, b) in fi.items():
            out[p] = (a.result(), b.result())
    return td + "/engine/release/llsym", out


def replay(binary, harness, shard, tier, hexin, timeout=20):
    try:
        r = subprocess.run([binary, harness, str(shard), str(tier), hexin], env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"r": "hang", "msg": "no result after %d s" % timeout, "obs": []}
    if r.returncode != 0:
        return {"r": "crash", "msg": "exit status %d" % r.returncode, "obs": []}
    return json.loads(r.stdout.decode(errors="replace").strip().splitlines()[-1])


def known_findings(pid):
    out = []
    for l in open(V + "/known_findings.txt"):
        l = l.strip()
        m = re.match(r"KNOWN property=(\S+) harness=(\S+) shard=(\d+) input=(\S*) :: (.*)$", l)
        if m and m.group(1) == pid:
            out.append(dict(harness=m.group(2), shard=int(m.group(3)), input=m.group(4), what=m.group(5)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    ap.add_argument("--only", help="run only this harness")
    ap.add_argument("--shards", help="comma-separated shards (with --only)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tn = 0 if tier == "quick" else 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid, P = a.pid, PROPS[a.pid]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 840 if tier == "quick" else 6 * 3600))
    profiles = P.get("profiles", {}).get(tier, ["release"] if tier == "quick" else ["release", "wrap"])
    llsym, built = build(P["feature"], profiles)
    tbuild = time.time() - t0

    jobs = []
    for j in P["jobs"]:
        if a.only and j["h"] != a.only:
            continue
        shards = list(j.get(tier, j.get("quick", [0])))
        if a.shards:
            shards = [int(x) for x in a.shards.split(",")]
        for prof in profiles:
            if prof in j.get("skip_profiles", []):
                continue
            for s in shards:
                jobs.append((j, s, prof))
    # long jobs first
    jobs.sort(key=lambda x: -x[0].get("cost", 1) * 1000 - x[1])
    dumps = V + "/target/smt-" + pid
    shutil.rmtree(dumps, ignore_errors=True)

    def runjob(t):
        j, s, prof = t
        left = budget - (time.time() - t0)
        if left < 5:
            return t, dict(status="timeout", error="no time left")
        cmd = [llsym, built[prof][0], j["h"], "--shard", str(s), "--tier", str(tn), "--seed", str(seed), "--time", str(int(left - 3)),
               "--samples", str(j.get("samples", 24)), "--filter", REPO + "/src/", "--steps", str(j.get("steps", 20_000_000)),
               "--qtime", "60000" if tier == "quick" else "600000"]
        if not j.get("no_xcheck"):
            cmd.append("--xcheck")
        if tier == "thorough":
            d = "%s/%s-%d-%s" % (dumps, j["h"], s, prof)
            os.makedirs(d, exist_ok=True)
            cmd += ["--dump", d]
        try:
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left + 20)
        except subprocess.TimeoutExpired:
            return t, dict(status="timeout", error="killed")
        try:
            return t, json.loads(r.stdout.decode())
        except Exception:
            return t, dict(status="error", error="executor exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-1500:]))

    results = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for t, r in ex.map(runjob, jobs):
            results.append((t, r))
            if a.v:
                print("%-28s shard %-4d %-7s %-9s paths %-8s z3 %-7s wall %-7s %s" % (
                    t[0]["h"], t[1], t[2], r.get("status"), r.get("completed"), r.get("z3_queries"), r.get("wall"),
                    (r.get("error") or "")[:600]))
    problems = []
    tot = dict.fromkeys(["paths", "completed", "assume_pruned", "forks", "instrs", "asserts", "asserts_symbolic", "asserts_const",
                         "finite_domain_decisions", "model_decisions", "query_cache_hits", "cross_checks", "path_checks", "z3_queries", "z3_sat",
                         "z3_unsat"], 0)
    zt = 0.0
    zmax = 0.0
    funcs, lines, per, ac = set(), {}, {}, {}
    covers = {}
    viols = []
    for (j, s, prof), r in results:
        if r["status"] in ("error", "timeout"):
            problems.append("%s shard %d (%s): %s: %s" % (j["h"], s, prof, r["status"], r.get("error")))
        if "paths" not in r:
            continue
        for k in tot:
            tot[k] += r[k]
        zt += r["z3_seconds"]
        zmax = max(zmax, r["z3_max_seconds"])
        funcs.update(r["functions"])
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(l)
        covers.setdefault(j["h"], set()).update(r["covers"])
        p = per.setdefault(j["h"], dict(bound=j.get("bound", ""), shards=0, paths=0, z3_queries=0, wall_s=0.0, max_path_instructions=0))
        p["shards"] += 1
        p["paths"] += r["completed"]
        p["z3_queries"] += r["z3_queries"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        p["max_path_instructions"] = max(p["max_path_instructions"], r["max_path_instrs"])
        for k, v in r["assert_counts"].items():
            x = ac.setdefault(k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]
        for v in r["violations"]:
            viols.append((j, s, prof, v))

    # reachability witnesses: an assumption that cuts everything would otherwise pass
    if not a.only and not viols:
        for j in P["jobs"]:
            got = covers.get(j["h"], set())
            need = set(j.get("covers", []))
            if tier == "thorough":
                need |= set(j.get("covers_thorough", []))
            if need - got:
                problems.append("%s: reachability witness missing: %s" % (j["h"], sorted(need - got)))

    # explored paths replayed on the native build
    validated, mism, samples = 0, [], []
    batches = {}
    for (j, s, prof), r in results:
        for x in r.get("samples", []):
            batches.setdefault((j["h"], prof), []).append((s, x))

    def runbatch(kv):
        (h, prof), xs = kv
        f = "%s/target/batch-%s-%s-%s" % (V, pid, h, prof)
        with open(f, "w") as o:
            for s, x in xs:
                o.write("%d %d %s\n" % (s, tn, x["input"]))
        try:
            r = subprocess.run([built[prof][1], h, "--batch", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            ls = r.stdout.decode(errors="replace").splitlines()
        except subprocess.TimeoutExpired as e:
            ls = (e.stdout or b"").decode(errors="replace").splitlines()
        return h, prof, xs, ls

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for h, prof, xs, ls in ex.map(runbatch, batches.items()):
            for i, (s, x) in enumerate(xs):
                got = json.loads(ls[i]) if i < len(ls) else dict(r="no output", msg="", obs=[])
                if got["r"] == "ok" and got["obs"] == x["obs"]:
                    validated += 1
                else:
                    mism.append("%s shard %d %s input %s: executor obs %s native %s" % (h, s, prof, x["input"], x["obs"][:40], str(got)[:400]))
                if len(samples) < 40 and (i < 3):
                    samples.append(dict(harness=h, shard=s, input_bytes=x["input"], observed=x["obs"][:48], native=got["r"]))
    if mism:
        problems.append("native replay of explored paths differs (%d): %s" % (len(mism), mism[:3]))

    # a second solver re-decides a sample of the queries
    second = None
    if tier == "thorough" and os.path.isdir(dumps):
        fs = sorted(glob.glob(dumps + "/*/*.smt2"))
        step = max(1, len(fs) // 400)
        fs = fs[::step]

        def again(f):
            exp = open(f).readline().split()[-1]
            try:
                r = subprocess.run(["cvc5", "--tlimit=60000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
                o = r.stdout.decode(errors="replace").strip().splitlines()
                return f, exp, (o[0] if o else "none")
            except subprocess.TimeoutExpired:
                return f, exp, "timeout"
        agree, other = 0, []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for f, e, g in ex.map(again, fs):
                if e == g:
                    agree += 1
                elif g in ("sat", "unsat"):
                    problems.append("solver disagreement on %s: z3 %s cvc5 %s" % (f, e, g))
                else:
                    other.append(g[:80])
        second = dict(solver="cvc5", queries=len(fs), agree=agree, undecided=len(other))
        shutil.rmtree(dumps, ignore_errors=True)

    # counterexamples
    evd = V + "/evidence"
    os.makedirs(evd, exist_ok=True)
    reported = 0
    seen = set()
    for j, s, prof, v in viols:
        key = (v["kind"], v["msg"])
        if key in seen:
            continue
        nat = replay(built[prof][1], j["h"], s, tn, v["input"])
        ok = nat["r"] in ("assert", "panic", "hang", "crash")
        if not ok:
            problems.append("counterexample does not reproduce natively: %s shard %d input %s %s %s → %s" % (
                j["h"], s, v["input"], v["kind"], v["msg"], nat))
            continue
        seen.add(key)
        rp = "%s/%s_replay_%d.json" % (evd, pid, reported)
        json.dump(dict(property=pid, harness=j["h"], shard=s, tier=tier, profile=prof, input_bytes=v["input"], kind=v["kind"], message=v["msg"],
                       stack=v["stack"], native=nat,
                       rerun="cd %s/harness && cargo run --offline --profile replay --features %s --bin replay -- %s %d %d %s" % (
                           V, P["feature"], j["h"], s, tn, v["input"])), open(rp, "w"), indent=1)
        print("counterexample: harness %s shard %d input %s: %s %s; native: %s %s" % (
            j["h"], s, v["input"], v["kind"], v["msg"], nat["r"], nat["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        reported += 1

    # recorded findings: shown on the real code, kept out of the claim
    findings = []
    if not a.only:
        for k in known_findings(pid):
            nat = replay(built[profiles[0]][1], k["harness"], k["shard"], tn, "" if k["input"] == "-" else k["input"])
            if nat["r"] in ("assert", "panic", "hang", "crash"):
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                findings.append(k["what"])

    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=reported,
              assumptions=P.get("assumptions", []) + COMMON,
              coverage=dict(
                  states=tot["completed"] + tot["assume_pruned"],
                  transitions=tot["forks"] + tot["completed"],
                  traces_validated_against_impl=validated,
                  samples=samples,
                  exhaustive_within_bounds=not problems,
                  explanation="states: symbolic paths run to their end (each stands for every input satisfying its path condition); "
                              "transitions: branch outcomes taken by the executor; bounds are per harness below",
                  harnesses=per,
                  instructions_executed=tot["instrs"],
                  assertions=dict(evaluated=tot["asserts"], decided_by_solver=tot["asserts_symbolic"],
                                  constant_on_path=tot["asserts_const"], by_message=ac),
                  solver=dict(name="z3", version=next((r["z3_version"] for _, r in results if "z3_version" in r), ""),
                              queries=tot["z3_queries"], sat=tot["z3_sat"], unsat=tot["z3_unsat"], memoised=tot["query_cache_hits"],
                              seconds=round(zt, 2), slowest_query_s=round(zmax, 3),
                              finite_domain_decisions=tot["finite_domain_decisions"], of_those_confirmed_by_z3=tot["cross_checks"], path_conditions_confirmed_by_z3=tot["path_checks"],
                              witnessed_by_path_model=tot["model_decisions"], second_solver=second),
                  profiles=profiles,
                  functions_encoded=sorted(funcs),
                  source_lines_executed={f: len([x for x in l if x]) for f, l in sorted(lines.items())},
                  reachability_witnesses={h: sorted(c) for h, c in covers.items()},
                  known_findings=findings,
                  build_s=round(tbuild, 1)))
    json.dump(ev, open("%s/%s.json" % (evd, pid), "w"), indent=1)
    if os.environ.get("LLSYM_LINES"):
        json.dump({f: sorted(l) for f, l in lines.items()}, open(os.environ["LLSYM_LINES"], "w"))
    print("%s %s: %d paths, %d instructions, %d solver queries (%.1f s), %d assertions, %d native replays, %.0f s" % (
        pid, tier, tot["completed"], tot["instrs"], tot["z3_queries"], zt, tot["asserts"], validated, time.time() - t0))
    if reported:
        return 1
    if problems:
        for p in problems[:10]:
            print("NO VERDICT: " + p)
        return 2
    return 0


COMMON = [
    "the code analysed is the LLVM IR rustc emits for /repo's current source with overflow checks and debug assertions on (thorough: also with both off); later code generation is trusted",
    "the executor (engine/) and z3; every sampled path is replayed natively and compared",
    "allocations above 256 MiB fail, stack limit 8 MiB, more than 20 million instructions on one path counts as not terminating",
    "hash map seeds are fixed; single-threaded",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        sys.exit(2)
