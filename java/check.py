#!/usr/bin/env python3
"""C12: compiles the Java binding of /repo and the simulator in java/verif, runs the simulation in several JVMs, writes the evidence."""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = V + "/build/java"
JNA = "/usr/share/java/jna.jar"
EXP = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED", "--add-exports", "java.base/jdk.internal.org.objectweb.asm.commons=ALL-UNNAMED"]
JVM = ["java", "-XX:+UnlockDiagnosticVMOptions", "-XX:-BytecodeVerificationRemote", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx512m"] + EXP + ["-cp", B + "/sim:" + JNA, "verif.Main"]

def build():
    shutil.rmtree(B, ignore_errors=True)
    os.makedirs(B + "/classes"); os.makedirs(B + "/sim")
    src = sorted(f for d, _, fs in os.walk(REPO + "/libvoikko/java/src/main/java") for f in (d + "/" + x for x in fs) if f.endswith(".java"))
    for cmd in (["javac", "-nowarn", "-encoding", "UTF-8", "--release", "8", "-Xlint:-options", "-cp", JNA, "-d", B + "/classes"] + src,
                ["javac", "-nowarn", "-encoding", "UTF-8", "-Xlint:none"] + EXP + ["-cp", JNA, "-d", B + "/sim"] + sorted(glob.glob(V + "/java/verif/*.java"))):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            print(p.stdout); sys.exit(3)

def opt(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default

def check():
    seed, budget, tier, ev = int(opt("--seed", "1")), float(opt("--budget", "45")), opt("--tier", "quick"), opt("--evidence", V + "/evidence/C12.json")
    begin = time.time()
    build()
    n = max(1, min(8, os.cpu_count() or 1))
    os.makedirs(V + "/replays", exist_ok=True)
    jobs = []
    for w in range(n):
        r, rep = "%s/r%d.json" % (B, w), "%s/rep%d.txt" % (B, w)
        jobs.append((subprocess.Popen(JVM + ["check", B + "/classes", str(seed), str(w), str(n), str(budget), r, rep], stderr=subprocess.PIPE, universal_newlines=True), r, rep))
    rc, parts, bad = 0, [], None
    for p, r, rep in jobs:
        try:
            _, err = p.communicate(timeout=budget + 240)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); err = "timeout"
        if p.returncode not in (0, 1):
            sys.stderr.write(err or ""); rc = rc or 3
            continue
        j = json.load(open(r)); parts.append(j)
        if j["violation"] and bad is None: bad = (j["violation"], rep)
    t = lambda k: sum(x[k] for x in parts)
    def merge(k):
        m = {}
        for x in parts:
            for a, b in x[k].items(): m[a] = m.get(a, 0) + b
        return m
    wall = time.time() - begin
    if parts:
        json.dump({"property": "C12", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": 1 if bad else 0, "coverage": {
            "evaluations": t("runs"), "distinct_nontrivial": t("distinct"),
            "rule": "each run: 1-4 threads share 1-2 Voikko objects and do 1-5 seeded calls each under a seeded schedule with seeded failing native calls; non-trivial: at least one context switch or injected fault and more than one native call; distinct by the sequence of scheduling decisions and the case text",
            "samples": [x["sample"] for x in parts if x["sample"]][:2],
            "simulated_runs_per_hour": int(t("runs") / wall * 3600), "seeds_per_hour": int(t("runs") / wall * 3600),
            "scheduling_steps": t("steps"), "simulated_time": "the code has no clock; simulated time is counted in scheduling steps",
            "context_switches": t("switches"), "native_calls": t("calls"), "runs_with_injected_faults": t("with_faults"),
            "faults_injected": {"failing native call " + k: v for k, v in merge("fired_by").items()}, "operations": merge("ops"),
            "runs_given_up": t("incomplete"), "runs_repeated_and_found_identical": t("replayed"),
            "components": "real: every class of the Java binding, rewritten only to give monitors, field accesses and library loading to the simulator; JNA memory and pointers. stub: the native library behind interface Libvoikko, JNA library loading, the garbage collector's decision to finalise"}},
            open(ev, "w"), indent=1)
    print("seed %d property C12 tier %s\n%d runs (%d distinct nontrivial), %d with faults, %d steps, %d switches, %.1f s" % (seed, tier, t("runs"), t("distinct"), t("with_faults"), t("steps"), t("switches"), wall))
    if bad:
        dst = "%s/replays/C12-%d.txt" % (V, seed)
        shutil.copy(bad[1], dst)
        print("violation: " + bad[0])
        print("VIOLATION property=C12 replay=" + dst)
        return 1
    return rc

if sys.argv[1] == "build": build()
elif sys.argv[1] == "check": sys.exit(check())
elif sys.argv[1] == "replay":
    build(); sys.exit(subprocess.call(JVM + ["replay", B + "/classes", os.path.abspath(sys.argv[2])]))
elif sys.argv[1] == "det":
    build(); sys.exit(subprocess.call(JVM + ["one", B + "/classes", sys.argv[2], sys.argv[3]]))
