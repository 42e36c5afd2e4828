#!/usr/bin/env python3
"""Decides one property: run.py ID quick|thorough

Builds the executor (engine/), the LLVM module of the harnesses with the code of /repo
(harness/) and the native replayer (native/), explores the property's harnesses symbolically,
replays every counterexample and a sample of completed paths natively, and writes the evidence.

Exit 0: the property held on everything explored. Exit 1: VIOLATION. Exit 3: no answer (bounds
not exhausted, solver gave up, engine limitation, build failure)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
sys.path.insert(0, VERIF)
import specs  # noqa: E402

NCPU = 8
START = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, file=sys.stderr, flush=True)


def env(target, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            e.pop(k)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, target),
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def cargo(crate, target, args, **kw):
    p = subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, crate), env=env(target, **kw),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


BUILDS = {
    "engine": ("engine", "engine", ["build", "--release", "--offline"], {}),
    "ir": ("harness", "ir", ["build", "--release", "--offline", "--lib"],
           {"RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-ir"}),
    "dev": ("native", "native", ["build", "--offline"], {}),
    "release": ("native", "nrel", ["build", "--release", "--offline"], {}),
}
LSX = os.path.join(WORK, "engine/release/lsx")
IR = os.path.join(WORK, "ir/release/deps/harness.ll")
NATIVE = {"dev": os.path.join(WORK, "native/debug/native"), "release": os.path.join(WORK, "nrel/release/native")}


# Parts of the harness that may not compile against changed code, and how a failure of each looks:
# codes.rs uses items of the macro crate that are not exported, mac.rs the code the macro generates,
# cli.rs the command line tool with stand-ins for the crates it uses.
PARTS = {
    "codes": r"src/codes\.rs|param_codes",
    "mac": r"src/mac\.rs|param_codes",
    "cli": r"could not compile `(gribber|clap|clap_complete|console|pager|regex|which)`|custom build command for `gribber|src/cli\.rs",
}
MISSING = []


def build(which):
    os.makedirs(WORK, exist_ok=True)
    parts = [p for p in PARTS if p not in MISSING]
    tries = [parts]
    while tries:
        parts = tries.pop(0)
        res = {}

        def one(k):
            crate, target, args, kw = BUILDS[k]
            opt = [] if k == "engine" or len(parts) == len(PARTS) else ["--no-default-features", "--features", ",".join(parts)]
            res[k] = cargo(crate, target, args + opt, **kw)

        ts = [threading.Thread(target=one, args=(k,)) for k in which]
        [t.start() for t in ts]
        [t.join() for t in ts]
        bad = {k: out for k, (rc, out) in res.items() if rc != 0}
        if not bad:
            MISSING.extend(p for p in PARTS if p not in parts and p not in MISSING)
            return True
        text = "\n".join(bad.values())
        if not tries:
            # without one of the parts the errors are about, then without all of them
            hit = [p for p in parts if re.search(PARTS[p], text)]
            tries = [[q for q in parts if q != p] for p in hit]
            if len(hit) > 1:
                tries.append([q for q in parts if q not in hit])
    for k, out in bad.items():
        print("build of %s failed:\n%s" % (k, out[-3000:]))
    return False


# ---------------------------------------------------------------- exploration

class Tokens:
    """A FIFO with one byte per processor, shared by every executor process."""

    def __init__(self, dir, n):
        self.path = os.path.join(dir, "tokens")
        os.mkfifo(self.path)
        self.fd = os.open(self.path, os.O_RDWR | os.O_NONBLOCK)
        os.write(self.fd, b"x" * n)


class Run:
    def __init__(self, h, dir, tokens, default_time):
        self.name = h["h"] if "arg" not in h else "%s:%d" % (h["h"], h["arg"])
        self.h = h
        self.out = os.path.join(dir, self.name.replace(":", "_") + ".json")
        self.time = h.get("time", default_time)
        cmd = [LSX, IR, self.name, self.out, "--time", str(self.time), "--tokens", tokens.path, "--traces", str(h.get("traces", 6))]
        for k in ("fuel", "alloc", "timeout"):
            if k in h:
                cmd += ["--" + k, str(h[k])]
        self.err = open(self.out + ".err", "w+")
        self.p = subprocess.Popen(cmd, stdout=self.err, stderr=self.err, start_new_session=True, env=dict(os.environ, TMPDIR=dir))
        self.rep = None
        self.deadline = None

    def poll(self):
        if self.p.poll() is None:
            return False
        if self.rep is None:
            try:
                self.rep = json.load(open(self.out))
            except Exception:
                self.err.seek(0)
                self.rep = {"broken": self.err.read()[-600:] or "executor exited with %s" % self.p.returncode}
        return True

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()


def native(mode, name, hexin, limit=20):
    """(outcome, text): done / assume / check / panic / hang / crash"""
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        with tempfile.TemporaryDirectory(dir=WORK) as d:  # some harnesses write files
            if len(hexin) > 50000:
                with open(os.path.join(d, ".input"), "w") as f:
                    f.write(hexin)
                hexin = "@.input"
            p = subprocess.run([NATIVE[mode], name, hexin], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=limit, preexec_fn=lim, cwd=d)
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % limit
    out = p.stdout.decode(errors="replace")
    err = p.stderr.decode(errors="replace")
    if p.returncode == 0:
        return "done", out.rsplit("DONE ", 1)[-1].strip()
    if p.returncode == 77:
        return "assume", ""
    if p.returncode == 10:
        return "check", out.rsplit("CHECK ", 1)[-1].strip()
    if p.returncode == 101:
        return "panic", err.strip()[:400]
    return "crash", ("exit %s: " % p.returncode) + err.strip()[-300:]


BAD = ("check", "panic", "hang", "crash")


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == prop:
                    out.append(d)
    return out


def is_known(known, harness, text):
    for k in known:
        if re.fullmatch(k["harness"], harness.split(":")[0]) and re.search(k["match"], text):
            return k
    return None


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    spec = specs.SPECS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not build(["engine", "ir", "dev", "release"]):
        print("no answer: the harness does not build against /repo")
        return 3
    log("built")
    hs = [dict(h) for h in spec["harness"] if tier == "thorough" or not h.get("thorough")]
    left_out = [h["h"] for h in hs if h.get("part") in MISSING]
    hs = [h for h in hs if h.get("part") not in MISSING]
    if tier == "thorough":
        hs = [h for h in hs if not h.get("quick_only")]
    tmp = tempfile.mkdtemp(prefix="run-", dir=WORK)
    budget = 700 if tier == "quick" else 3 * 3600
    end = time.time() + budget - (time.time() - START)
    tokens = Tokens(tmp, NCPU)
    runs = [Run(h, tmp, tokens, 500 if tier == "quick" else 3600) for h in hs]
    known = known_findings(prop)
    found, suppressed, unconfirmed, problems = [], {}, [], []
    # items that are not exported may go; code that is generated must compile
    if "mac" in MISSING and any(h.get("part") == "mac" for h in spec["harness"]):
        problems.append("the code generated by the macro does not compile")
    if not hs:
        problems.append("the command line tool does not compile with the stand-ins of the crates it uses")
    bad_trace = []
    traces_ok = 0
    pending = list(runs)
    done = []
    replayed = set()
    try:
        while pending:
            for r in list(pending):
                if not r.poll():
                    continue
                pending.remove(r)
                done.append(r)
                rep = r.rep
                if "broken" in rep:
                    problems.append("%s: %s" % (r.name, rep["broken"]))
                    continue
                log(r.name, "paths=%d queries=%d wall=%.1f violations=%d" % (rep["paths"], rep["queries"], rep["wall_s"], len(rep["violations"])))
                for v in rep["violations"]:
                    outs = {m: native(m, r.name, v["input"]) for m in ("dev", "release")}
                    what = "%s %s at %s" % (v["kind"], v["msg"], v["site"])
                    hit = [m for m in outs if outs[m][0] in BAD]
                    for _ in range(8):  # the order of hash tables differs from run to run
                        if hit or any(o[0] != "done" for o in outs.values()):
                            break
                        outs = {m: native(m, r.name, v["input"]) for m in outs}
                        hit = [m for m in outs if outs[m][0] in BAD]
                    if not hit:
                        unconfirmed.append("%s: %s (native: %s)" % (r.name, what, {m: o[0] for m, o in outs.items()}))
                        continue
                    text = what + " | " + " | ".join("%s: %s %s" % (m, outs[m][0], outs[m][1]) for m in outs)
                    k = is_known(known, r.name, text)
                    if k:
                        suppressed.setdefault(json.dumps(k, sort_keys=True), (k, r.name, v["input"]))
                    else:
                        found.append({"harness": r.name, "what": what, "input": v["input"], "stack": v["stack"][:8],
                                      "native": {m: list(o) for m, o in outs.items()}})
                for t in rep["traces"]:
                    want = ",".join(str(x) for x in t["observed"])
                    for m in ("dev", "release"):
                        o, text = native(m, r.name, t["input"])
                        if o == "done" and text == want:
                            traces_ok += 1
                        else:
                            bad_trace.append("%s %s: executor %s, native %s %s on %s" % (r.name, m, want[:80], o, text[:80], t["input"][:200]))
            if found:
                break
            if time.time() > end:
                for r in pending:
                    problems.append("%s: out of time" % r.name)
                break
            time.sleep(0.05)
    finally:
        for r in runs:
            r.kill()

    tot = {k: 0 for k in ("paths", "done", "infeasible", "steps", "checks", "checks_trivial", "checks_solver", "branches",
                          "interval_unsat", "inverted_sat", "cache_hits", "queries", "unknown")}
    solver_s, fns, per, z3 = 0.0, set(), [], ""
    samples = []
    for r in done:
        rep = r.rep
        if "broken" in rep:
            continue
        z3 = rep["z3"]
        for k in tot:
            tot[k] += rep[k]
        solver_s += rep["solver_s"]
        fns.update(f for f in rep["functions"] if f.startswith("grib") or f.startswith("<grib") or "param_codes" in f or f.startswith("grib_build"))
        need = set(str(c) for c in r.h.get("cover", [1]))
        miss = need - set(rep["covers"])
        if miss and not found:
            problems.append("%s: cover points %s not reached" % (r.name, sorted(miss)))
        cuts = {k: v for k, v in rep["cuts"].items() if not any(re.search(c, k) for c in r.h.get("cuts", []))}
        if cuts:
            problems.append("%s: paths cut: %s" % (r.name, cuts))
        if rep["unknown"]:
            problems.append("%s: solver gave no verdict on %d queries: %s" % (r.name, rep["unknown"], list(rep["unknown_sites"])[:3]))
        if rep["internal"]:
            problems.append("%s: not encodable: %s" % (r.name, dict(list(rep["internal"].items())[:3])))
        if rep["incomplete"]:
            problems.append("%s: bound not exhausted: %s" % (r.name, rep["incomplete"][:2]))
        if rep["violations"] == [] and rep["done"] == 0:
            problems.append("%s: no path completed" % r.name)
        per.append({"harness": r.name, "bound": r.h.get("bound", ""), "paths": rep["paths"], "completed": rep["done"],
                    "assertions_evaluated": rep["checks"], "assertions_needing_solver": rep["checks_solver"],
                    "branch_queries": rep["branches"], "z3_queries": rep["queries"], "solver_s": round(rep["solver_s"], 2),
                    "wall_s": round(rep["wall_s"], 2), "cover": rep["covers"], "cut_paths": rep["cuts"]})
        for t in rep["traces"][:1]:
            samples.append({"harness": r.name, "input": t["input"][:160], "observed": t["observed"][:8]})
    wall = time.time() - START
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["branches"] + tot["paths"], "transitions": tot["steps"],
            "traces_validated_against_impl": traces_ok, "samples": samples[:6],
            "note": "states: symbolic states (branch points and path ends); transitions: LLVM instructions executed symbolically",
            "functions_encoded": sorted(fns), "functions_encoded_count": len(fns),
            "bounds": [{"harness": p["harness"], "bound": p["bound"]} for p in per],
            "left_out": left_out,
            "outside_bounds": spec.get("outside", ""),
            "paths": tot["paths"], "paths_completed": tot["done"],
            "assertions": {"evaluated": tot["checks"], "decided_by_rewriting_to_true": tot["checks_trivial"], "needing_a_decision": tot["checks_solver"]},
            "queries": {"branch_feasibility": tot["branches"], "answered_from_cached_models": tot["cache_hits"],
                        "refuted_by_interval_reasoning": tot["interval_unsat"], "satisfied_by_validated_model_search": tot["inverted_sat"],
                        "discharged_by_z3": tot["queries"], "unknown": tot["unknown"]},
            "solver_s": round(solver_s, 2), "solver": "z3 " + z3, "harnesses": per,
        },
        "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    rc = 0
    for k, name, inp in suppressed.values():
        print("KNOWN-FINDING: property=%s %s (%s %s)" % (prop, k["what"], name, inp[:120]))
    if found:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "how": "build /verif/native and run: native HARNESS INPUT", "counterexamples": found}, open(path, "w"), indent=1)
        for f in found[:5]:
            print("counterexample: %s %s -- %s" % (f["harness"], f["what"], {m: "%s %s" % (o[0], o[1][:160]) for m, o in f["native"].items()}))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    else:
        if unconfirmed:
            problems.append("counterexamples that do not replay: %s" % unconfirmed[:3])
        if bad_trace:
            problems.append("executor and native build disagree: %s" % bad_trace[:3])
        if problems:
            for p in problems:
                print("no answer: " + p)
            rc = 3
    ev["coverage"]["problems"] = problems
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %s; %d paths, %d assertions, %d z3 queries, solver %.1f s, wall %.1f s" % (
        prop, tier, {0: "held", 1: "violated", 3: "no answer"}[rc], tot["paths"], tot["checks"], tot["queries"], solver_s, wall))
    shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "build":
        sys.exit(0 if build(["engine", "ir", "dev", "release"]) else 3)
    sys.exit(main())
