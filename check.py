#!/usr/bin/env python3
"""Decides one property by seeded simulation: builds the simulator against /repo's working tree
(once per runtime feature, and once as it would be deployed), searches, and writes evidence/<id>.json.

usage: check.py <property> [--thorough]      one property
       check.py --setup                      build only
       check.py --replay FILE                re-execute a replay file
"""
import json, os, resource, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known-findings.txt")
# Builds of simulator and code under test: runtime feature, profile, seed offset (so that each
# searches other scenarios), share of the runs. `release` has debug assertions and overflow checks,
# `plain` has not: code that is right in only one of the two is wrong.
RUNTIMES = {
    "tokio": ("rt-tokio", "release", 0, 1.0),
    "async-std": ("rt-async-std", "release", 1_000_003, 1.0),
    "tokio-plain": ("rt-tokio", "plain", 2_000_006, 0.5),
}
# Runs and seconds per runtime. The run count bounds the search; the seconds only keep a slow
# machine inside its limit.
QUICK = (120_000, 60)
THOROUGH = (6_000_000, 420)
# A run of C14 also runs every session alone, each in a process of its own.
COST = {"C14": 8, "C12": 2}

REAL = [
    "async-smtp from /repo's working tree: SmtpTransport, SmtpStream, ClientCodec, reply parser, "
    "ServerInfo, commands, authentication, types (all of src/)",
    "tokio io-util / async-std io adapters the crate uses (read_until, write_all, BufReader)",
]
STUB = [
    "server: reference SMTP server model (strict parser, transaction state, scripted refusals)",
    "network: two bounded byte pipes with latency, segmentation, reset, end of stream",
    "clock, task scheduler, wake-ups, cancellation, message readers: the simulator's event queue",
    "operating system clocks and randomness (clock_gettime, getrandom): simulated time, seeded stream",
    "TLS: the upgraded stream is the same simulated pipe with a fresh server session",
]
ASSUME = [
    "the caller drives the futures on one thread per session, as &mut self demands",
    "the server model and the oracle in harness/src/{server,oracle}.rs are right",
    "log output is not observed",
]
RULE = (
    "Each case is a scenario drawn from a seed (sessions, operations, bodies, addresses, server "
    "replies, link parameters, fault positions aimed at a dry run of the same scenario) and "
    "executed under the seeded scheduler. A run is non-trivial if the condition the property "
    "speaks about was met in it (e.g. C01: a send ended; C07: an operation followed an "
    "interrupted one); distinct means a different fingerprint of the order of events, operation "
    "outcomes, server commands and reply codes; counted per build and added up."
)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(rt):
    target = os.path.join(HERE, "target", rt)
    feature, profile = RUNTIMES[rt][:2]
    cmd = ["cargo", "build", "--profile", profile, "--offline", "--quiet", "--target-dir", target,
           "--no-default-features", "--features", feature]
    return subprocess.Popen(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_all():
    procs = {rt: build(rt) for rt in RUNTIMES}
    ok = True
    for rt, p in procs.items():
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            log("build of the simulator failed (%s):\n%s" % (rt, out))
    return ok


def binary(rt):
    return os.path.join(HERE, "target", rt, RUNTIMES[rt][1], "smtp-sim")


def limits():
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (24 * gb, 24 * gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(path, quiet=True):
    with open(path) as f:
        rt = json.load(f)["runtime"]
    cmd = [binary(rt), "replay", path] + (["--quiet"] if quiet else [])
    return subprocess.run(cmd, preexec_fn=limits).returncode


def known(prop):
    """Findings listed for the property: {(tag, text): line}. Entries marked 'fixed:' suppress nothing."""
    found = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=%s " % prop):
                found.append(line.strip())
    return found


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        return 0 if build_all() else 2
    if args[:1] == ["--replay"]:
        if not build_all():
            return 2
        return replay(args[1], quiet=False)
    prop = args[0]
    tier = "thorough" if "--thorough" in args else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    if not build_all():
        return 2
    built = time.time()
    runs, secs = THOROUGH if tier == "thorough" else QUICK
    runs //= COST.get(prop, 1)
    jobs = max(1, os.cpu_count() or 1)
    os.makedirs(REPLAYS, exist_ok=True)
    results, violation = [], None
    for rt in RUNTIMES:
        stale = os.path.join(REPLAYS, "%s-%s.json" % (prop, rt))
        if os.path.exists(stale):
            os.remove(stale)
        p = subprocess.run(
            [binary(rt), "run", "--prop", prop, "--seed", str(seed + RUNTIMES[rt][2]),
             "--runs", str(int(runs * RUNTIMES[rt][3])), "--secs", str(secs),
             "--jobs", str(jobs), "--out", REPLAYS],
            stdout=subprocess.PIPE, text=True, preexec_fn=limits)
        try:
            res = json.loads(p.stdout.strip().split("\n")[-1])
        except (IndexError, ValueError):
            log("the simulator (%s) ended abnormally: exit %s" % (rt, p.returncode))
            return 2
        results.append(res)
        if res.get("violation"):
            violation = res["violation"]
            break
        if p.returncode != 0:
            log("the simulator (%s) reports an error: exit %s" % (rt, p.returncode))
            return 2
    evidence(prop, tier, seed, results, violation, start, built)
    for line in known(prop):
        print("KNOWN-FINDING: " + line.split(":", 1)[1].strip())
    if violation:
        path = violation["replay"]
        print("violated (%s, run %d): %s" % (violation["tag"], violation["run"], violation["msg"]))
        rc = replay(path)
        print("replayed in a fresh process: %s" % ({1: "reproduced exactly", 2: "differs", 0: "not reproduced"}.get(rc, rc)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    n = sum(r["executions"] for r in results)
    print("%s: held in %d simulated runs (%.0f h simulated), seed %d" % (prop, n, sum(r["sim_us"] for r in results) / 3.6e9, seed))
    return 0


def evidence(prop, tier, seed, results, violation, start, built):
    def total(k):
        return sum(r[k] for r in results)

    def merged(k):
        m = {}
        for r in results:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return m

    search = sum(r["search_s"] for r in results) or 1e-9
    cov = {
        "evaluations": total("executions"),
        "distinct_nontrivial": total("distinct_nontrivial"),
        "rule": RULE,
        "samples": [s for r in results for s in r["samples"][:2]],
        "scenarios": total("runs"),
        "per_build": {r["runtime"]: {k: r[k] for k in ("runs", "executions", "distinct_nontrivial", "distinct_shapes", "digest", "search_s")} for r in results},
        "seeds": total("runs"),
        "simulated_runs_per_hour": int(total("executions") / search * 3600),
        "seeds_per_hour": int(total("runs") / search * 3600),
        "simulated_seconds": round(total("sim_us") / 1e6, 3),
        "events": total("events"),
        "operations": total("operations"),
        "sessions": total("sessions"),
        "bytes_carried": total("bytes"),
        "operation_outcomes": merged("outcomes"),
        "faults_injected": merged("faults"),
        "fault_free_runs": total("fault_free_runs"),
        "antecedent_met": merged("hits").get(prop, 0),
        "antecedents_met_for_all_properties": merged("hits"),
        "distinct_interleavings": total("distinct_shapes"),
        "interleaving_measure": "fingerprint of the ordered events (deliveries, wake-ups, operation ends, server commands, reply codes, faults)",
        "reexecuted_for_determinism": total("reexecuted"),
        "reexecuted_with_different_trace": total("reexecuted_differently"),
        "clock_reads_by_the_code_under_test": total("clock_reads"),
        "os_randomness_reads_by_the_code_under_test": total("random_reads"),
        "components_real": REAL,
        "components_stubbed": STUB,
        "build_s": round(built - start, 1),
        "search_s": round(search, 1),
    }
    if violation:
        cov["violation"] = violation
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUME, "wall_s": round(time.time() - start, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


sys.exit(main())
