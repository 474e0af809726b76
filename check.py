#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--jobs REGEX] [--keep]

Builds the harness against /repo's working tree, takes the linked LLVM IR of harness + ifc_rs + its dependencies,
executes the property's jobs symbolically (engine/), replays counterexamples and sample models natively, and writes
evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION printed; 2: the machinery failed."""
import fcntl, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "target")
TC = "stable-x86_64-unknown-linux-gnu"
QUICK_ENGINE_SECS = 560
THOROUGH_ENGINE_SECS = 3 * 3600


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    eng = subprocess.Popen(["cargo", "build", "--offline", "--release", "-q"], cwd=V + "/engine",
                           env=dict(env, CARGO_TARGET_DIR=B + "/engine", RUSTFLAGS="--cap-lints allow"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hdir = B + "/harness/release/deps"
    env2 = dict(env, CARGO_TARGET_DIR=B + "/harness",
                RUSTFLAGS="--cap-lints allow -C save-temps -C no-vectorize-loops -C no-vectorize-slp")
    r = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=V + "/harness", env=env2)
    eo, _ = eng.communicate()
    if eng.returncode:
        die("engine build failed\n" + eo[-3000:])
    if r.returncode:
        die("harness build failed\n" + r.stdout[-6000:])
    bcs = [hdir + "/" + f for f in os.listdir(hdir) if f.startswith("harness-") and f.endswith("cgu.0.rcgu.bc")]
    if not bcs:
        die("no linked bitcode")
    bc = max(bcs, key=os.path.getmtime)
    ll = B + "/harness.ll"
    if not os.path.exists(ll) or os.path.getmtime(ll) <= os.path.getmtime(bc):
        rustc = sh(["rustup", "which", "rustc", "--toolchain", TC]).stdout.strip()
        d = os.path.join(os.path.dirname(rustc), "../lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")
        r = sh([d, bc, "-o", ll])
        if r.returncode:
            die("llvm-dis failed\n" + r.stdout[-2000:])
    return ll, B + "/harness/release/harness", B + "/engine/release/symex"


def known(prop):
    out = []
    for l in open(V + "/known_findings.txt"):
        l = l.rstrip("\n")
        if not l.startswith("known: "):
            continue
        m = re.match(r"known: property=(\S+) job=(\S+) id=(.*?) :: (.*)$", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def is_known(ks, job, vid):
    for j, i, d in ks:
        if re.fullmatch(j, job) and re.fullmatch(i, vid):
            return d
    return None


def replay(harness, lines, repeat=1):
    """native reports for 'job k:v ..' lines"""
    if not lines:
        return []
    n = min(8, max(1, len(lines) // 4))
    ps = []
    for i in range(n):
        part = lines[i::n]
        p = subprocess.Popen([harness, "replay"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, errors="replace")
        ps.append((p, part))
    import threading
    outs = [None] * n

    def go(i):
        try:
            outs[i] = ps[i][0].communicate("\n".join(ps[i][1]) + "\n", timeout=600)[0].split("\n")[:-1]
        except subprocess.TimeoutExpired:
            ps[i][0].kill()
            outs[i] = []
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    res = [""] * len(lines)
    for i in range(n):
        for k, o in enumerate(outs[i]):
            if i + k * n < len(lines):
                res[i + k * n] = o
    return res


def fields(rep):
    return [tuple((f.split(":", 1) + [""])[:2]) for f in rep.split("\x1f") if f]


def fmt(job, ins):
    return job + "".join(" %d:%d" % (k, v) for k, v in ins)


def pretty(ins):
    """the inputs of a model, readable"""
    o, run = [], ""
    for k, v in ins:
        if k == 0 and 32 <= v < 127:
            run += chr(v)
            continue
        if run:
            o.append(repr(run))
            run = ""
        if k == 2:
            import struct
            o.append(repr(struct.unpack("<d", struct.pack("<Q", v))[0]))
        elif k == 0:
            o.append("byte %d" % v)
        else:
            o.append(str(v))
    if run:
        o.append(repr(run))
    return " ".join(o)


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = args[1] if len(args) > 1 and not args[1].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    only = args[args.index("--jobs") + 1] if "--jobs" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ll, harness, engine = build()
    t_build = time.time() - t0
    jobs = []
    for l in sh([harness, "list"]).stdout.split("\n"):
        p = l.split()
        if len(p) == 7 and p[0] == prop and (tier == "thorough" or p[1] == "quick"):
            if only and not re.search(only, p[2]):
                continue
            jobs.append(p)
    if not jobs:
        die("no jobs for " + prop)
    jobs.sort(key=lambda p: -int(p[5]))
    jf, of = B + "/%s.jobs" % prop, B + "/%s.out.json" % prop
    mult = 1 if tier == "quick" else 10
    open(jf, "w").write("".join("%s %s %s %d %d %d\n" % (p[2], p[3], p[4], int(p[5]) * mult, int(p[6]) * mult, seed) for p in jobs))
    if os.path.exists(of):
        os.remove(of)
    limit = QUICK_ENGINE_SECS if tier == "quick" else THOROUGH_ENGINE_SECS
    r = sh([engine, ll, jf, of, "8", "--deadline", str(limit)])
    if r.returncode or not os.path.exists(of):
        die("engine failed (%d)\n%s" % (r.returncode, r.stdout[-3000:]))
    out = json.load(open(of))
    t_engine = time.time() - t0 - t_build
    ks = known(prop)
    res = out["jobs"]

    # ---- counterexamples: replay natively before reporting
    cand = []
    for j in res:
        ended = False
        for v in j.get("violations", []):
            if v["id"].startswith("endless"):
                # each takes its time to replay: one of a job
                if ended:
                    continue
                ended = True
            cand.append((j["job"], v))
    ended = [c for c in cand if c[1]["id"].startswith("endless")]
    cand = [c for c in cand if not c[1]["id"].startswith("endless")] + ended[:16]
    confirmed, unconfirmed = {}, []
    lines = [fmt(j, v["inputs"]) for j, v in cand]
    reps = replay(harness, lines)

    def hits(vid, rep):
        fs = fields(rep)
        if vid.startswith("endless") or vid.startswith("panic:") or vid.startswith("abort") or "stack overflow" in vid:
            return any(k in ("PANIC", "TIMEOUT") for k, _ in fs)
        return any(k == "FAIL" and x == vid for k, x in fs)

    for (j, v), line, rep in zip(cand, lines, reps):
        ok = hits(v["id"], rep)
        if not ok and not v["id"].startswith("endless"):
            # iteration order of hash maps differs between native runs: try some more
            for rp in replay(harness, [line] * 16):
                if hits(v["id"], rp):
                    ok, rep = True, rp
                    break
        if ok:
            confirmed.setdefault((j, v["id"]), (v, rep, line))
        else:
            unconfirmed.append((j, v, rep))
    unconfirmed = [u for u in unconfirmed if (u[0], u[1]["id"]) not in confirmed]

    # ---- path models: the native run must agree with the symbolic one
    vl, vm = [], []
    for j in res:
        ms = j.get("models", [])
        cap = 24 if tier == "quick" else 120
        step = max(1, len(ms) // cap)
        for m in ms[::step][:cap]:
            vl.append(fmt(j["job"], m))
            vm.append(j)
    validated, mism, native_only = 0, [], {}
    for line, j, rep in zip(vl, vm, replay(harness, vl)):
        fs = fields(rep)
        bad = [x for x in fs if x[0] in ("FAIL", "PANIC", "TIMEOUT", "MISALIGNED", "ASSUME", "INPUTS")]
        if not bad:
            validated += 1
            continue
        seen = set(j.get("viol_count", {}))
        expl = all((k == "FAIL" and x in seen) or (k in ("PANIC", "TIMEOUT") and any(s.startswith("panic") or s.startswith("abort") or s.startswith("endless") for s in seen)) for k, x in bad if k not in ("INPUTS",))
        if expl and any(k != "INPUTS" for k, _ in bad):
            validated += 1
            continue
        real = [x for x in bad if x[0] in ("FAIL", "PANIC", "TIMEOUT")]
        if real and not any(k in ("MISALIGNED", "ASSUME") for k, _ in bad):
            k, x = real[0]
            vid = x if k == "FAIL" else "panic: native"
            native_only.setdefault((j["job"], vid), ({"id": vid, "inputs": [], "abstract": False, "at": ""}, rep, line))
        else:
            mism.append((line, bad))

    # ---- paths the engine could not follow to their end (an operation it has no model for): the inputs that lead there are
    # run natively.  What holds on them settles nothing, and the job stays undecided; what fails is a counterexample.
    vl, vm = [], []
    for j in res:
        for m in j.get("stuck", []):
            vl.append(fmt(j["job"], m))
            vm.append(j)
    vl, vm = vl[:400], vm[:400]
    for line, j, rep in zip(vl, vm, replay(harness, vl)):
        fs = fields(rep)
        real = [x for x in fs if x[0] in ("FAIL", "PANIC", "TIMEOUT")]
        if real and not any(k in ("MISALIGNED", "ASSUME") for k, _ in fs):
            k, x = real[0]
            vid = x if k == "FAIL" else "panic: native"
            native_only.setdefault((j["job"], vid), ({"id": vid, "inputs": [], "abstract": False, "at": ""}, rep, line))

    # ---- verdicts
    incomplete = [j for j in res if not j.get("complete")]
    nonvac = [j for j in res if j.get("complete") and not j.get("asserted") and not j.get("covers")]
    viols = 0
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    printed_known = set()
    for (job, vid), (v, rep, line) in sorted(list(confirmed.items()) + list(native_only.items())):
        d = is_known(ks, job, vid)
        if d:
            if d not in printed_known:
                printed_known.add(d)
                print("KNOWN-FINDING: property=%s %s" % (prop, d))
            continue
        viols += 1
        path = "%s/%s-%d.txt" % (rdir, prop, viols)
        with open(path, "w") as f:
            f.write("property: %s\njob: %s\nviolation: %s\nat: %s\ninputs: %s\nnative report: %s\n\nto replay:\n  echo '%s' | SYM_SHOW=1 %s replay\n" % (
                prop, job, vid, v.get("at", ""), pretty(v["inputs"]) if v["inputs"] else line, rep.replace("\x1f", " | "), line, harness))
            try:
                q = subprocess.run([harness, "replay"], input=line + "\n", text=True, errors="replace", timeout=20,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, SYM_SHOW="1"))
                f.write("\nnative run:\n" + q.stderr[:6000])
            except subprocess.TimeoutExpired:
                pass
        if viols <= 20:
            print("  %s in %s: %s" % (vid, job, (pretty(v["inputs"]) if v["inputs"] else line)[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    for j in incomplete:
        print("UNDECIDED %s: %s" % (j["job"], "; ".join(j.get("errors", []))[:300] or "budget exhausted after %d paths" % j.get("paths", 0)))
    hard = []
    for j, v, rep in unconfirmed:
        if v["id"].startswith("endless"):
            print("UNDECIDED %s: %s, the native run ends (%s)" % (j, v["id"], pretty(v["inputs"])[:200]))
        elif v["abstract"]:
            print("UNDECIDED %s: abstract counterexample for %s does not reproduce (%s)" % (j, v["id"], pretty(v["inputs"])[:200]))
        else:
            hard.append((j, v, rep))
            print("NOT-REPRODUCED %s: %s inputs %s native %s" % (j, v["id"], pretty(v["inputs"])[:300], rep.replace("\x1f", " | ")[:300]))
    for line, bad in mism[:10]:
        print("MISMATCH %s: %s" % (line[:200], bad))
    tot = lambda k: sum(j.get(k, 0) or 0 for j in res)
    done = len(res) - len(incomplete)
    fns = sorted(set(out.get("functions", [])))
    samples = []
    for j in res[:400]:
        for m in j.get("models", [])[:1]:
            if len(samples) < 12:
                samples.append("%s: %s" % (j["job"], pretty(m)[:160] or "(no inputs)"))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": validated,
            "samples": samples or ["(none)"],
            "jobs": len(res), "jobs_complete": done,
            "incomplete": [{"job": j["job"], "paths": j.get("paths", 0), "errors": j.get("errors", [])[:3]} for j in incomplete][:50],
            "symbolic_inputs": tot("vars"), "instructions_executed": tot("steps"),
            "assertions": tot("asserts"), "assertions_by_solver": tot("asserts_solver"),
            "table_refutations_confirmed_by_solver": tot("confirmed"),
            "assertions_by_table": tot("asserts_table"), "assertions_by_simplification": tot("asserts_const"),
            "solver_queries": tot("queries"), "solver_seconds": round(sum(j.get("solver_secs", 0) for j in res), 2),
            "solver_unknowns": tot("unknowns"), "state_merges": tot("merges"),
            "panics_found": tot("panics"),
            "functions_encoded": len(fns), "functions_of_ifc_rs": nice(fns)[:400],
            "bounds": bounds(prop), "not_reproduced": len(hard) + len([u for u in unconfirmed if u[1]["abstract"]]),
            "native_mismatches": len(mism), "vacuous_jobs": [j["job"] for j in nonvac][:20],
            "known_findings": sorted(printed_known),
        },
        "assumptions": ASSUME,
        "wall_s": round(wall, 2), "violations": viols,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    print("%s %s: %d jobs (%d complete), %d paths, %d assertions, %d queries, %.1fs solver; %d native replays agree; build %.0fs engine %.0fs total %.0fs"
          % (prop, tier, len(res), done, tot("paths"), tot("asserts"), tot("queries"), ev["coverage"]["solver_seconds"], validated, t_build, t_engine, wall))
    if viols:
        sys.exit(1)
    if mism or hard:
        die("the symbolic execution and the native run disagree")
    if nonvac:
        die("job(s) reached no assertion: " + " ".join(j["job"] for j in nonvac[:5]))
    if not done:
        die("every job is undecided")
    sys.exit(0)


ASSUME = [
    "bounds as listed; nothing is claimed outside them",
    "rustc/LLVM lowering of the harness build (fat LTO, opt-level 1, overflow checks and debug assertions on, no vectorisation) is trusted to preserve the source semantics; sample paths are replayed in the native build of the same code",
    "models of allocator, memcpy-like intrinsics, memchr, str::replace, getrandom, f64 parsing and printing (engine/src/hooks.rs, nums.rs)",
    "z3 4.8 answers; what the engine rules out from the remaining values of a single byte is confirmed by z3 at the end of each job",
]


def nice(fns):
    """the functions of ifc_rs among the mangled names, readable"""
    try:
        names = subprocess.run(["c++filt"], input="\n".join(fns), text=True, stdout=subprocess.PIPE).stdout
    except OSError:
        names = "\n".join(f for f in fns if "ifc_rs" in f)
    out = set()
    for f in names.split("\n"):
        f = re.sub(r"\[[0-9a-f]{8,16}\]", "", f)
        # methods and functions of the crate itself, not the generic code instantiated for its types
        if re.match(r"<*(ifc_rs::|[^>]* as ifc_rs::)", f):
            out.add(f[:200])
    return sorted(out)


def bounds(prop):
    try:
        return json.load(open(V + "/bounds.json")).get(prop, "")
    except OSError:
        return ""


if __name__ == "__main__":
    main()
