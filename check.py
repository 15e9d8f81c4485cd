#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo by symbolic execution.

Builds the executor and the LLVM IR of /repo's current tree (with the harnesses), explores every harness job of
the property, replays counterexamples and sampled path models natively, and writes evidence/PROPERTY.json.

check.py --setup: build only.
check.py --replay FILE: run a recorded counterexample again.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
IR = os.path.join(BUILD, "ir")
TARGET = "x86_64-unknown-linux-gnu"
ENGINE = os.path.join(BUILD, "engine", "release", "symex")
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

T0 = time.time()


def say(*a):
    print(*a, flush=True)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def cargo_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_BUILD_RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    home = "/opt/vp/cache/cargo" if os.path.isdir("/opt/vp/cache/cargo") else None
    if home and "CARGO_HOME" not in env:
        env["CARGO_HOME"] = home
    return env


def tree_hash():
    """The content of everything a build depends on"""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(HERE, "harness"), os.path.join(HERE, "stubs")):
        for d, subs, files in sorted(os.walk(top)):
            subs[:] = sorted(x for x in subs if x not in ("target", ".git"))
            for f in sorted(files):
                f = os.path.join(d, f)
                h.update(f.encode() + b"\0")
                if os.path.isfile(f):
                    with open(f, "rb") as fd:
                        h.update(fd.read())
    return h.hexdigest()


def run_quiet(cmd, env, cwd, logfile):
    with open(logfile, "wb") as f:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL).returncode


class Build:
    """What a check runs: executor, IR and replay binary, from the current tree"""

    def __init__(self, internals):
        self.internals = internals
        self.error = None
        self.replay_error = None
        self.replay_ready = threading.Event()
        self.replay_path = None
        self.ir_path = None

    def variant(self, hooks):
        flags = "-C relocation-model=static -C no-vectorize-loops -C no-vectorize-slp --cap-lints allow"
        return (flags + " --cfg verif", "internals") if hooks else (flags, "")

    def run(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        env = cargo_env()
        res = {}

        def engine():
            e = dict(env)
            e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
            res["engine"] = run_quiet(["cargo", "build", "--release", "--offline"], e,
                                      os.path.join(HERE, "engine"), os.path.join(BUILD, "engine.log"))

        t = threading.Thread(target=engine)
        t.start()
        h = tree_hash()
        ok = self.ir(env, True, h)
        if not ok and not self.internals:
            log("no build with the internals exposed: checking without them")
            ok = self.ir(env, False, h)
        t.join()
        if res["engine"] != 0:
            self.error = "the executor does not build (build/engine.log)"
        elif not ok:
            self.error = "the harnesses do not build against this tree (build/ir.log)"
        if self.error:
            fcntl.flock(self.lock, fcntl.LOCK_UN)
            return False
        log("built executor and IR")
        threading.Thread(target=self.replay, args=(env,), daemon=True).start()
        return True

    def ir(self, env, hooks, h):
        flags, feats = self.variant(hooks)
        self.hooks = hooks
        d = IR if hooks else IR + "-plain"
        self.dir = d
        stamp = os.path.join(d, "tree.hash")
        os.makedirs(d, exist_ok=True)
        ll = os.path.join(d, "harness.ll")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h or not os.path.exists(ll):
            for f in [stamp, ll, os.path.join(d, "replay")] + glob.glob(os.path.join(d, TARGET, "release", "deps", "harness-*.ll")):
                if os.path.exists(f):
                    os.remove(f)
            # Never trust modification times of another tree
            for name in ("puzzle-utils-*", "harness-*", "rand-*", "imageproc-*"):
                for f in glob.glob(os.path.join(d, TARGET, "release", ".fingerprint", name)):
                    shutil.rmtree(f)
            e = dict(env)
            e["RUSTFLAGS"] = flags
            e["CARGO_TARGET_DIR"] = d
            args = ["cargo", "rustc", "--release", "--offline", "--target", TARGET, "--lib", "--features", feats,
                    "--crate-type", "staticlib", "--", "--emit=llvm-ir"]
            if run_quiet(args, e, os.path.join(HERE, "harness"), os.path.join(BUILD, "ir.log")) != 0:
                return False
            found = glob.glob(os.path.join(d, TARGET, "release", "deps", "harness-*.ll"))
            if len(found) != 1:
                return False
            os.rename(found[0], ll)
            with open(stamp, "w") as f:
                f.write(h)
        # A link of our own: another check may build later on
        self.ir_path = os.path.join(d, "harness-%d.ll" % os.getpid())
        os.link(ll, self.ir_path)
        return True

    def replay(self, env):
        try:
            flags, feats = self.variant(self.hooks)
            e = dict(env)
            e["RUSTFLAGS"] = flags
            e["CARGO_TARGET_DIR"] = self.dir
            done = os.path.join(self.dir, "replay")
            args = ["cargo", "build", "--release", "--offline", "--target", TARGET, "--bin", "replay",
                    "--features", (feats + ",replay").strip(",")]
            if not os.path.exists(done):
                if run_quiet(args, e, os.path.join(HERE, "harness"), os.path.join(BUILD, "replay.log")) != 0:
                    self.replay_error = "the replay binary does not build (build/replay.log)"
                    return
                shutil.copy2(os.path.join(self.dir, TARGET, "release", "replay"), done)
            out = os.path.join(self.dir, "replay-%d" % os.getpid())
            os.link(done, out)
            self.replay_path = out
        finally:
            fcntl.flock(self.lock, fcntl.LOCK_UN)
            self.replay_ready.set()

    def cleanup(self):
        for f in (self.ir_path, self.replay_path):
            if f and os.path.exists(f):
                os.remove(f)


# ---------------------------------------------------------------- running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


RUNNING = set()
DEADLINE = {"quick": 540, "thorough": 6 * 3600}


def run_job(ir, prop, job, tier, dump=None):
    left = DEADLINE[tier] - (time.time() - T0)
    failed = {"job": job, "incomplete": [], "violations": [], "suspects": [], "covers": {}, "samples": [],
              "functions": {}, "wall_s": 0.0, "failed": True}
    if left < 5:
        failed["incomplete"] = ["not started within the time of the check"]
        return failed
    secs = int(min(job.secs, left))
    cmd = [ENGINE, "--ir", ir, "--entry", job.entry, "--prop", prop, "--secs", str(secs), "--violations", "2",
           "--params", ",".join(str(p) for p in job.params), "--samples", str(job.samples),
           "--steps", str(job.steps), "--solver-ms", str(30000 if tier == "quick" else 120000)]
    if dump:
        cmd += ["--dump", dump, "--dump-every", "37"]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=secs + 100)
        for line in out.splitlines():
            if line.startswith("{"):
                r = json.loads(line)
                r["job"] = job
                return r
        err = "the executor failed (%d): %s" % (p.returncode, err.strip()[:400])
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        err = "the executor did not end in time"
    finally:
        RUNNING.discard(p)
    failed.update(incomplete=[err], wall_s=time.time() - t)
    return failed


def replay_text(prop, entry, params, inputs, extend=False):
    return "property %s\nentry %s\nparams %s\ninputs %s\n%s" % (
        prop, entry, " ".join(str(p) for p in params), " ".join(str(i[2]) for i in inputs),
        "extend 88172645463325252\n" if extend else "")


def native(binary, path, timeout=60):
    """Run a recorded path natively: (kind, message, observations)"""
    try:
        p = subprocess.run([binary, path], capture_output=True, text=True, errors="replace", timeout=timeout,
                           env=dict(os.environ, RUST_BACKTRACE="0"),
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    except subprocess.TimeoutExpired:
        return "hang", "did not end within %d seconds" % timeout, []
    obs = [l[4:] for l in p.stdout.splitlines() if l.startswith("OBS ")]
    out = [l for l in p.stdout.splitlines() if l.startswith(("ASSERT ", "ASSUME", "INPUTS"))]
    err = p.stderr.strip().splitlines()
    if p.returncode == 0:
        return "ok", "", obs
    if p.returncode == 10:
        return "assert", out[-1][7:], obs
    if p.returncode == 79:
        return "error", "unknown harness", obs
    if p.returncode in (77, 78):
        return "outside", out[-1] if out else "", obs
    if p.returncode == 12:
        return "memory", err[-1] if err else "invalid memory use", obs
    if p.returncode in (-11, -7):
        return "memory", err[0] if err else "invalid memory access", obs
    return "panic", " / ".join(err[:3]), obs


def known_findings():
    """Lines `known: property=ID entry=H params=a,b inputs=x,y,... fails="ASSERTION" <text>` are findings that are not repaired"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                w = {k: v.strip('"') for k, v in re.findall(r'(\w+)=("[^"]*"|\S*)', l)}
                out.append((w, l.strip()))
    return out


def main():
    if "--setup" in sys.argv:
        b = Build(False)
        ok = b.run()
        if ok:
            b.replay_ready.wait()
            b.cleanup()
        say("ready" if ok and not b.replay_error else "%s" % (b.error or b.replay_error))
        # A tree that does not build is the checks' business
        return 0 if os.path.exists(ENGINE) else 1
    if "--replay" in sys.argv:
        b = Build(True)
        if not b.run():
            say(b.error)
            return 2
        b.replay_ready.wait()
        if b.replay_error:
            say(b.replay_error)
            return 2
        kind, msg, obs = native(b.replay_path, sys.argv[sys.argv.index("--replay") + 1], 120)
        say("observed:", " ".join(obs))
        say("result:", kind, msg)
        b.cleanup()
        return 0 if kind == "ok" else 1
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    table = J.jobs(prop, tier)
    spec = J.PROPERTIES[prop]
    b = Build(prop in J.INTERNAL)
    try:
        return check(prop, tier, seed, table, spec, b)
    finally:
        b.cleanup()


def check(prop, tier, seed, table, spec, b):
    if not b.run():
        say("ERROR property=%s %s" % (prop, b.error))
        return 2
    built = time.time() - T0
    edir = os.path.join(HERE, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.remove(f)
    dump = None
    if tier == "thorough":
        dump = os.path.join(BUILD, "dump-%s-%d" % (prop, os.getpid()))
    results, confirmed, unconfirmed, known = [], [], [], []
    findings = known_findings()
    stop = threading.Event()
    nviol = 0

    def handle(r):
        nonlocal nviol
        # A path that did not end here is a violation if it does not end natively either
        for v, suspect in [(v, False) for v in r["violations"]] + [(v, True) for v in r.get("suspects", [])]:
            b.replay_ready.wait()
            nviol += 1
            path = os.path.join(rdir, "%s-%d.txt" % (prop, nviol))
            job = r["job"]
            with open(path, "w") as f:
                f.write("# %s\n" % v["msg"])
                for l in v["loc"][:8]:
                    f.write("#   in %s (%s:%d)\n" % (l[0], l[1], l[2]))
                f.write(replay_text(prop, job.entry, job.params, v["inputs"], suspect))
            if b.replay_error and suspect:
                continue
            if b.replay_error:
                unconfirmed.append((v["msg"], path, b.replay_error))
                continue
            kind, msg, _ = native(b.replay_path, path, 60)
            with open(path, "a") as f:
                f.write("# natively: %s %s\n" % (kind, msg))
            hit = kind in ("assert", "panic", "memory", "hang")
            if suspect and not hit:
                os.remove(path)
                continue
            if hit:
                ins = ",".join(str(i[2]) for i in v["inputs"])
                ps = ",".join(str(p) for p in job.params)
                k = [l for w, l in findings if w.get("property") == prop and w.get("entry") == job.entry
                     and w.get("params") == ps and w.get("inputs") == ins and "assert: " + w.get("fails", "") == v["msg"]]
                if k:
                    known.append(k[0])
                else:
                    confirmed.append((v["msg"], path, kind, msg))
                    stop.set()
                    for p in list(RUNNING):
                        p.kill()
            else:
                unconfirmed.append((v["msg"], path, kind + " " + msg))

    order = sorted(range(len(table)), key=lambda i: -table[i].cost)
    with concurrent.futures.ThreadPoolExecutor(J.WORKERS) as ex:
        def go(i):
            if stop.is_set():
                return None
            d = None
            if dump:
                d = os.path.join(dump, str(i))
            return run_job(b.ir_path, prop, table[i], tier, d)
        futs = [ex.submit(go, i) for i in order]
        for f in concurrent.futures.as_completed(futs):
            r = f.result()
            if r is None or stop.is_set() and r.get("failed"):
                continue
            results.append(r)
            log(r["job"].entry, r["job"].params, "paths", r.get("paths"), "queries", r.get("queries"),
                "%.1fs" % r["wall_s"], *r["incomplete"][:2], *[v["msg"] for v in r["violations"]])
            if not stop.is_set():
                handle(r)
    b.replay_ready.wait()

    # Sampled path models run natively: the executor must agree with the machine
    validated, varies, mismatches, shown = 0, 0, [], []
    if not confirmed:
        todo = []
        for r in results:
            for s in r["samples"]:
                todo.append((r["job"], s))
        cap = 40 if tier == "quick" else 200
        step = max(1, len(todo) // cap)
        todo = todo[seed % step::step][:cap] if todo else []
        if b.replay_error:
            mismatches.append(b.replay_error)
            todo = []

        def val(k):
            job, s = todo[k]
            path = os.path.join(rdir, "%s-sample%d.txt" % (prop, k))
            with open(path, "w") as f:
                f.write(replay_text(prop, job.entry, job.params, s["inputs"]))
            kind, msg, obs = native(b.replay_path, path, 60)
            if kind == "ok" and obs != s["obs"]:
                for _ in range(3):
                    if native(b.replay_path, path, 60)[2] != obs:
                        kind = "varies"
            if kind != "assert" and kind != "panic":
                os.remove(path)
            return job, s, kind, msg, obs, path
        with concurrent.futures.ThreadPoolExecutor(J.WORKERS) as ex:
            for job, s, kind, msg, obs, path in ex.map(val, range(len(todo))):
                if kind in ("assert", "panic"):
                    confirmed.append(("found by running a sampled path", path, kind, msg))
                elif kind == "varies":
                    varies += 1
                elif kind == "ok" and obs == s["obs"]:
                    validated += 1
                    if len(shown) < 6:
                        shown.append({"harness": job.entry, "params": job.params,
                                      "inputs": [i[2] for i in s["inputs"]][:40], "observed": obs[:100]})
                else:
                    mismatches.append("%s %s: natively %s %s" % (job.entry, job.params, kind, msg))

    # Situations that must be reachable
    incomplete = [(r["job"], i) for r in results if r["job"].core for i in r["incomplete"]]
    best_effort = [(r["job"], i) for r in results if not r["job"].core for i in r["incomplete"]]
    covers = {}
    for r in results:
        for k, n in r["covers"].items():
            covers[k] = covers.get(k, 0) + n
    missing = [c for c in dict.fromkeys(spec.get("covers", []) + spec.get("must", [])) if not covers.get(c)]
    if not confirmed and not incomplete and not unconfirmed and missing:
        must = [c for c in spec.get("must", []) if c in missing]
        if must:
            path = os.path.join(rdir, "%s-unreachable.txt" % prop)
            with open(path, "w") as f:
                f.write("# unreachable for every input and random choice within the bounds: %s\n" % "; ".join(must))
                for j in table:
                    f.write("# symex --entry %s --params %s\n" % (j.entry, ",".join(map(str, j.params))))
            confirmed.append(("unreachable: " + must[0], path, "unreachable", ""))

    cross = cross_check(dump) if dump else None
    evidence(prop, tier, seed, spec, table, results, validated, varies, shown, confirmed, unconfirmed,
             mismatches, incomplete, best_effort, covers, built, cross)
    for k in known:
        say("KNOWN-FINDING: " + k.split(":", 1)[1].strip())
    if confirmed:
        for msg, path, kind, detail in confirmed[:3]:
            say("%s (%s %s)" % (msg, kind, detail))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad = False
    for msg, path, why in unconfirmed:
        say("UNCONFIRMED property=%s %s (natively: %s) %s" % (prop, msg, why, path))
        bad = True
    for m in mismatches[:5]:
        say("MISMATCH property=%s %s" % (prop, m))
        bad = True
    done = [r for r in results if r["job"].core and not r["incomplete"]]
    for j, i in incomplete[:5]:
        say("%s property=%s %s %s: %s" % ("PARTIAL" if done else "INCOMPLETE", prop, j.entry, j.params, i))
    if incomplete and not done:
        bad = True
    for c in missing:
        say("NOT-COVERED property=%s %s" % (prop, c))
        bad = True
    if cross and cross["disagreements"]:
        say("DISAGREEMENT property=%s %s" % (prop, cross["disagreements"][:3]))
        bad = True
    if bad:
        return 2
    n = sum(r.get("paths", 0) + r.get("killed", 0) for r in results)
    say("%s property=%s jobs=%d paths=%d queries=%d solver_s=%.1f validated=%d wall_s=%.0f" % (
        "PARTLY-OK" if incomplete else "OK", prop, len(results), n, sum(r.get("queries", 0) for r in results),
        sum(r.get("solver_s", 0) for r in results), validated, time.time() - T0))
    return 0


def cross_check(dump):
    """Dumped queries decided again by two other solvers"""
    files = sorted(glob.glob(os.path.join(dump, "*", "*.smt2")))[:400]
    out = {"queries": len(files), "agreed": 0, "undecided": 0, "disagreements": []}

    def one(f):
        want = f.rsplit("_", 1)[1][:-5]
        res = []
        for cmd in (["z3-new", "-T:20", f], ["cvc5", "--tlimit=20000", f]):
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=40)
                l = p.stdout.strip().splitlines()
                res.append(l[0] if l and l[0] in ("sat", "unsat") else "unknown")
            except subprocess.TimeoutExpired:
                res.append("unknown")
        return f, want, res
    with concurrent.futures.ThreadPoolExecutor(J.WORKERS) as ex:
        for f, want, res in ex.map(one, files):
            if any(r != "unknown" and want != "unknown" and r != want for r in res):
                out["disagreements"].append("%s: %s, others %s" % (os.path.basename(f), want, res))
            elif all(r == "unknown" for r in res):
                out["undecided"] += 1
            else:
                out["agreed"] += 1
    shutil.rmtree(dump, ignore_errors=True)
    return out


def evidence(prop, tier, seed, spec, table, results, validated, varies, shown, confirmed, unconfirmed,
             mismatches, incomplete, best_effort, covers, built, cross):
    def total(k):
        return sum(r.get(k, 0) for r in results)
    funcs = {}
    for r in results:
        for k, ls in r.get("functions", {}).items():
            funcs.setdefault(k, set()).update(ls)
    cov = {
        "states": total("paths") + total("killed"),
        "transitions": total("steps"),
        "traces_validated_against_impl": validated,
        "samples": shown or [{"counterexample": c[0], "replay": c[1]} for c in confirmed]
        or [{"harness": r["job"].entry, "params": r["job"].params} for r in results[:3]],
        "exhaustive": not incomplete and not best_effort,
        "forks": total("forks"), "merges": total("merges"),
        "functions_encoded": {k: "lines " + ",".join(str(x) for x in sorted(v)) for k, v in sorted(funcs.items())},
        "queries": {"total": total("queries"), "sat": total("sat"), "unsat": total("unsat"),
                    "unknown": total("unknown"), "answered_from_cache": total("cache_hits"),
                    "answered_by_unsat_core": total("core_hits"), "decided_by_own_solver": total("own"),
                    "decisions_checked_by_z3": total("checked"), "conflicts": total("conflicts"),
                    "settled_by_portfolio": total("portfolio")},
        "assertions_checked": total("asserts"), "assertions_needing_a_query": total("assert_queries"),
        "solver_s": round(total("solver_s"), 2), "executor_s": round(total("wall_s"), 2),
        "solver": "the executor's incremental bit-blasting CDCL solver (models are evaluated, every 64th refutation is "
                  "repeated with z3), then z3 4.8.12, then cvc5 1.1.2 and z3 5 side by side",
        "bounds": spec["bounds"],
        "outside": spec["outside"],
        "jobs": [{"harness": r["job"].entry, "params": r["job"].params, "about": r["job"].about,
                  "complete": not r["incomplete"], "paths": r.get("paths", 0), "queries": r.get("queries", 0),
                  "solver_s": r.get("solver_s", 0), "wall_s": round(r["wall_s"], 1)} for r in results],
        "situations_reached": covers,
        "best_effort_jobs_cut_short": ["%s %s: %s" % (j.entry, j.params, i) for j, i in best_effort],
        "incomplete": ["%s %s: %s" % (j.entry, j.params, i) for j, i in incomplete],
        "samples_whose_outcome_varies": varies, "unconfirmed": [u[0] for u in unconfirmed], "mismatches": mismatches,
        "build_s": round(built, 1),
    }
    if cross:
        cov["solver_cross_check"] = cross
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": J.ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": len(confirmed)}
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
