#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property by deterministic simulation.

  check.py run <property> [--tier quick|thorough] [--scale X]
  check.py build                    build every variant
  check.py replay <file>            re-execute a replay file; exit 1 and the violation if it reproduces
  check.py determinism [n]          execute n seeds of every property twice, in different processes; compare
"""
import sys, os, glob, hashlib, subprocess, json, time, re, fcntl, concurrent.futures
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LBDD_REPO", "/repo")
BUILD = os.path.join(V, "build")
NCPU = os.cpu_count() or 4

COMMON = ["-std=c++17", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-w", "-DLBDD_SIM", "-I" + REPO + "/include"]
VARIANTS = {
    # simulated clock: one tick per basic block executed inside the library; assertions of the library are on
    "plain": dict(inst=["-fsanitize-coverage=trace-pc"], host=["-DSIM_WRAP"], link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"], lib="-O2", har="-O1"),
    # as shipped without assertions, checked by AddressSanitizer on the simulated heap
    "asan": dict(inst=["-fsanitize-coverage=trace-pc", "-fsanitize=address", "--param", "asan-stack=0", "-DNDEBUG"], host=["-DSIM_ASAN"],
                 link=["-fsanitize=address"], lib="-O1", har="-O1"),
    # real threads, parked at every memory access of the library; vector-clock race oracle
    "race": dict(inst=["-fsanitize=thread"], host=["-DSIM_THREADS"], link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"], lib="-O1", har="-O1"),
}
HOSTONLY = {"seams", "main", "scenario", "threads", "refbdd"}

def sources(variant):
    s = [(f, True) for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))]
    for n in ("seams", "refbdd", "scenario", "world", "world_col", "deep", "turn", "pools", "main") + (("threads",) if variant == "race" else ()):
        s.append((V + "/sim/" + n + ".cpp", False))
    return s

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(f):
    with open(f, "rb") as x: return x.read()

def build(variant):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant); os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rh = sha(*[f + "\n" + rd(f).decode("utf8", "replace") for f in sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*.h*", recursive=True)) if os.path.isfile(f)])
        sh = sha(*[rd(f) for f in sorted(glob.glob(V + "/sim/*.h"))])
        jobs, objs = [], []
        for f, lib in sources(variant):
            n = os.path.splitext(os.path.basename(f))[0]
            flags = list(COMMON)
            if lib: flags += [v["lib"]] + v["inst"]
            elif n in HOSTONLY: flags += ["-O2"] + v["host"]
            else: flags += [v["har"]] + v["inst"] + v["host"]
            o = os.path.join(d, ("lib_" if lib else "sim_") + n + "-" + sha(rd(f), f if lib else n, rh, sh, " ".join(flags)) + ".o")
            objs.append(o)
            if not os.path.exists(o): jobs.append((f, flags, o))
        def cc(j):
            f, flags, o = j
            r = subprocess.run(["g++"] + flags + ["-c", f, "-o", o + ".tmp"], capture_output=True, text=True)
            if r.returncode == 0: os.rename(o + ".tmp", o)
            return f, r
        with concurrent.futures.ThreadPoolExecutor(max(2, NCPU)) as ex:
            for f, r in ex.map(cc, jobs):
                if r.returncode:
                    print("cannot compile %s for the %s variant\n%s" % (f, variant, r.stderr[-3000:])); sys.exit(2)
        exe = os.path.join(d, "lbdd_sim-" + sha(*objs, v["link"]))
        if not os.path.exists(exe):
            r = subprocess.run(["g++", "-no-pie"] + v["link"] + objs + ["-o", exe + ".tmp", "-lpthread"], capture_output=True, text=True)
            if r.returncode: print("cannot link the %s variant\n%s" % (variant, r.stderr[-3000:])); sys.exit(2)
            os.rename(exe + ".tmp", exe)
        keep = set(objs) | {exe}
        old = [x for x in glob.glob(d + "/*") if x not in keep]
        for x in sorted(old, key=os.path.getmtime)[:-60]:
            os.unlink(x)
        return exe

# property -> list of (variant, scenarios of the quick tier, seconds of the thorough tier)
PLAN = {
    "C01": [("plain", 24000, 700)], "C02": [("plain", 12000, 700)], "C03": [("plain", 18000, 700)], "C04": [("plain", 3600, 900)],
    "C05": [("plain", 2200, 700)], "C06": [("plain", 24000, 600)], "C07": [("plain", 8000, 700)], "C08": [("plain", 20000, 600)],
    "C09": [("plain", 24000, 600)], "C10": [("plain", 18000, 600)], "C11": [("plain", 20000, 600)], "C12": [("plain", 18000, 600)],
    "C13": [("plain", 12000, 600)], "C14": [("plain", 4000, 1000)], "C15": [("plain", 5000, 900)],
    "C16": [("plain", 3500, 400), ("race", 900, 600)], "C17": [("plain", 8000, 700)], "C18": [("plain", 1300, 1000)],
    "C19": [("plain", 1600, 450), ("asan", 500, 500)], "C20": [("plain", 4500, 600)], "C21": [("plain", 18000, 500)], "C22": [("plain", 16000, 500)],
    "C23": [("plain", 3000, 300)], "C24": [("plain", 300, 900)], "C25": [("plain", 9000, 600)],
}
ENVV = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "LSAN_", "TSAN_", "UBSAN_", "LD_"))}
ENVV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:use_sigaltstack=0:detect_stack_use_after_return=0:symbolize=0"

def sim(exe, *args, timeout=None):
    return subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, env=ENVV, timeout=timeout)

RULE = {
    "default": "A case is a scenario drawn from one seed: environment (hash key draws, heap placement/reuse/content, stack content), active variables, and 4-220 client operations%s. It is non-trivial if %s; two are the same if the sequences of basic blocks executed in the library are equal.",
}
NONTRIV = {"C01": "at least one operation result was compared with the reference model", "C02": "at least one result was compared with all live handles",
    "C03": "a handle was released, moved, assigned, a client died or garbage was collected while other handles were held", "C04": "a collection reclaimed at least one node",
    "C05": "storage was reused or an allocation failure was injected", "C06": "at least one query was answered", "C07": "at least one injected failure hit a query",
    "C08": "at least one cardinality constraint was built", "C09": "a limited conjunction was accepted or refused", "C10": "at least one diagram was rebased",
    "C11": "a removal, literal disjunction or rebasing happened", "C12": "a conjunction was accepted or refused", "C13": "at least one transfer happened",
    "C14": "at least one allocation failure was injected", "C15": "at least one allocation failure was injected", "C16": "at least one operation result was compared",
    "C17": "at least one operation result was compared", "C18": "nodes or variables were added in bulk", "C19": "at least one operation result was produced",
    "C20": "something was printed or exported", "C21": "an entry was navigated", "C22": "a diagram was built by hand", "C23": "a diagram was entered into a depth register", "C24": "an operation on deep diagrams was carried out", "C25": "the steps of at least one operation were checked"}

def stub_note(variant):
    real = "real code: all of /repo/src and /repo/include, compiled from the working tree%s" % (" with NDEBUG and AddressSanitizer" if variant == "asan" else " with assertions on")
    stub = "simulated: operator new/delete (seeded arena), std::random_device, stack content, output stream buffers, step clock"
    if variant == "race": stub += ", thread scheduler, mutexes and static-initialisation guards, race detector"
    return [real, stub]

def run(prop, tier, scale):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    outdir = os.path.join(V, "replays"); os.makedirs(outdir, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    parts, viol, err = [], None, None
    for variant, nquick, tthorough in PLAN[prop]:
        exe = build(variant)
        b0 = time.time()
        args = ["batch", "--prop", prop, "--seed", seed, "--out", outdir, "--workers", NCPU]
        if tier == "quick": args += ["--runs", max(8, int(nquick * scale)), "--time", 200]
        else: args += ["--runs", 10**12, "--time", tthorough * scale, "--thorough"]
        r = sim(exe, *args)
        try: d = json.loads(r.stdout)
        except ValueError:
            err = "simulator failed (exit %d): %s" % (r.returncode, (r.stdout[-500:] + r.stderr[-1500:])); break
        d["variant"] = variant; d["total_secs"] = time.time() - b0
        parts.append(d)
        if d["error"]: err = d["error"]; break
        if d["violation"]:
            v = d["violation"]
            # a fresh process must reproduce it exactly from the replay file
            want = re.search(r"# hash (\d+)", rd(v["replay"]).decode()).group(1)
            q = [sim(exe, "replay", v["replay"]) for _ in range(2)]
            if any(x.returncode != 1 or ("hash " + want) not in x.stdout or v["msg"] not in x.stdout for x in q):
                err = "violation does not replay: %s / %s" % (v["msg"], q[0].stdout); break
            viol = v; viol["variant"] = variant
            break
    write_evidence(prop, tier, seed, parts, viol, err, time.time() - t0)
    if err: print("ERROR property=%s %s" % (prop, err)); return 2
    for d in parts:
        print("property=%s variant=%s seed=%d scenarios=%d runs=%d distinct_nontrivial=%d steps=%d in %.1fs%s" % (
            prop, d["variant"], seed, d["scenarios"], d["runs"], d["distinct"], d["steps"], d["secs"],
            " (%d scenarios set aside: they fail for reasons outside this property, e.g. %s)" % (d["foreign"], d["foreign_sample"]) if d["foreign"] else ""))
    if viol:
        print("%s: %s" % (viol["cls"], viol["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"])); return 1
    return 0

FAULTS = ["alloc_faults_fired", "alloc_fault_bursts", "alloc_faults_absorbed", "operations_repeated_after_fault", "stream_short_writes", "stream_exceptions",
          "custom_stream_exceptions", "streams_with_formatting", "client_deaths", "out_of_order_destructions", "refusals_manager", "refusals_collection", "preemptions"]

def write_evidence(prop, tier, seed, parts, viol, err, wall):
    tot = lambda k: sum(d[k] for d in parts)
    cnt = {}
    for d in parts:
        for k, x in d["counters"].items(): cnt[k] = max(cnt.get(k, 0), x) if k.startswith(("max_", "largest_", "most_")) else cnt.get(k, 0) + x
    secs = sum(d["secs"] for d in parts) or 1e-9
    level = json.load(open(os.path.join(V, "MANIFEST.json"))) if os.path.exists(os.path.join(V, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in level["checks"] if c["property"] == prop), "exploration")
    samples = []
    for d in parts: samples += [{"variant": d["variant"], "scenario": s[:4000]} for s in d["samples"][:1]]
    faulty = prop in ("C05", "C07", "C14", "C15", "C19", "C20", "C23")
    e = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=1 if viol else 0,
        assumptions=["the reference model is right", "wide diagrams are judged on the run's active variables only", "library code runs as compiled by g++ with the flags in check.py"],
        coverage=dict(
            evaluations=tot("runs"), distinct_nontrivial=tot("distinct"),
            rule=RULE["default"] % (", and for each fault-free scenario a set of fault plans aimed at its measured allocations" if faulty else "", NONTRIV[prop]),
            samples=samples, scenarios=tot("scenarios"), nontrivial_scenarios=tot("nontrivial"),
            simulated_runs_per_hour=int(tot("runs") / secs * 3600), seeds_per_hour=int(tot("scenarios") / secs * 3600),
            simulated_time_steps=tot("steps"), client_operations=tot("ops"),
            distinct_executions=tot("distinct"), distinct_measure="hash of the sequence of basic blocks (race variant: memory accesses and schedule) executed inside the library, non-trivial scenarios only",
            control_flow_edges_reached=max([d["edges"] for d in parts] or [0]),
            faults_injected={k: cnt[k] for k in FAULTS if cnt.get(k)}, events={k: x for k, x in cnt.items() if k not in FAULTS},
            executed_twice_and_compared=tot("dup_checked"), set_aside_as_outside_property=tot("foreign"),
            variants=[dict(variant=d["variant"], runs=d["runs"], scenarios=d["scenarios"], distinct=d["distinct"], steps=d["steps"], edges=d["edges"], secs=round(d["secs"], 2)) for d in parts],
            components=sum([stub_note(d["variant"]) for d in parts], [])[:6]))
    if err: e["coverage"]["error"] = err
    if viol: e["coverage"]["violation"] = viol
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(e, f, indent=1)
    os.rename(p + ".tmp", p)

def main(a):
    if not a: print(__doc__); return 2
    if a[0] == "build":
        for v in sorted({x[0] for p in PLAN.values() for x in p}): print(v, build(v))
        return 0
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick"); scale = 1.0
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        if "--scale" in a: scale = float(a[a.index("--scale") + 1])
        return run(a[1], "thorough" if tier == "thorough" else "quick", scale)
    if a[0] == "replay":
        t = rd(a[1]).decode(); prop = re.search(r"^prop (\S+)", t, re.M).group(1)
        m = re.search(r"^variant (\S+)", t, re.M)
        r = sim(build(m.group(1) if m else "plain"), "replay", a[1]); print(r.stdout, end=""); return r.returncode
    if a[0] == "determinism":
        n = int(a[1]) if len(a) > 1 else 200; bad = 0
        for prop in sorted(PLAN):
            for variant, _, _ in PLAN[prop]:
                exe = build(variant)
                with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                    k = max(1, n // NCPU)
                    one = "".join(x.stdout for x in ex.map(lambda i: sim(exe, "hashes", "--prop", prop, "--index", i * k, "--runs", k), range(NCPU)))
                two = sim(exe, "hashes", "--prop", prop, "--index", 0, "--runs", k * NCPU).stdout
                same = one == two; bad += not same
                print(prop, variant, k * NCPU, "seeds executed twice in different processes:", "identical" if same else "DIFFERENT", sha(one)); sys.stdout.flush()
        return 1 if bad else 0
    print(__doc__); return 2

if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
