#!/usr/bin/env python3
"""Builds the harness against /repo's working tree, runs one property's workload under its monitors, and reports.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no verdict (build or harness error)."""
import json, os, subprocess, sys, time, shutil, signal, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
FEATURES = {
    "C01": "", "C02": "", "C03": "", "C04": "", "C05": "", "C06": "", "C07": "", "C08": "", "C10": "", "C20": "", "C21": "", "C23": "",
    "C09": "gen", "C11": "fallide,rustide", "C12": "fallide,rustide", "C13": "fallide,rustide", "C14": "fallide,rustide", "C15": "fallide,rustide", "C16": "fallide,rustide",
    "C17": "fallide,rustide", "C18": "rustide", "C19": "rustide", "C22": "bridge", "C24": "fallide,rustide", "C25": "fallide,rustide", "C26": "fallide,rustide",
}
LIMIT = {"quick": 500, "thorough": 1500}


def sh(cmd, timeout, env=None):
    """Runs a shell command in its own process group; kills the group on timeout."""
    p = subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def load_known(prop):
    doc = json.load(open(os.path.join(HERE, "known_findings.json")))
    return [f for f in doc["findings"] if f["property"] == prop]


def no_verdict(prop, why):
    print("NO VERDICT property=%s: %s" % (prop, why[-6000:]))
    sys.exit(2)


def build(prop):
    feats = FEATURES[prop]
    cmd = ". /opt/vp/env.sh && cd '%s' && export CARGO_INCREMENTAL=0 && cargo build --release --offline --message-format=json-render-diagnostics %s 2>&1" % (
        HARNESS, ("--features " + feats) if feats else "")
    rc, out = sh(cmd, 800)
    messages = [l for l in out.splitlines() if l.startswith("{")]
    out = "\n".join(l for l in out.splitlines() if not l.startswith("{"))
    if rc == 0:
        # compiled runtime libraries, for parsers that are compiled on the fly
        for m in messages:
            try:
                m = json.loads(m)
            except ValueError:
                continue
            name = m.get("target", {}).get("name")
            if m.get("reason") == "compiler-artifact" and name in ("fall_tree", "fall_parse"):
                for f in m.get("filenames", []):
                    if f.endswith(".rlib"):
                        os.environ["HARNESS_" + name.upper()] = f
    if rc != 0:
        no_verdict(prop, "the harness does not build against /repo\n" + "\n".join(l for l in out.splitlines() if not l.startswith("warning"))[-5000:])
    return os.path.join(HARNESS, "target", "release", "harness")


def harness(exe, prop, tier, seed, out, known, extra, timeout):
    # the toolchain's settings, for properties that compile
    cmd = ". /opt/vp/env.sh && cd '%s' && ulimit -c 0; exec '%s' run %s --tier %s --seed %d --out '%s' --known '%s' %s" % (HARNESS, exe, prop, tier, seed, out, known, extra)
    return sh(cmd, timeout)


def main():
    prop = sys.argv[1]
    extra = " ".join(sys.argv[2:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    for d in ("evidence", "replays", "tmp"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    work = os.path.join(HERE, "tmp", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        run(prop, extra, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, extra, tier, seed, t0, work):
    known = load_known(prop)
    known_file = os.path.join(work, "known.json")
    json.dump([f["sig"] for f in known], open(known_file, "w"))
    if prop == "C25":
        doc, built = undefined(prop, extra, tier, seed, t0, work)
        return report(prop, tier, seed, known, doc, t0, built)
    exe = build(prop)
    built = time.time() - t0
    if prop == "C22":
        return report(prop, tier, seed, known, bridge(exe, prop, extra, tier, seed, work), t0, built)
    out = os.path.join(work, "report.json")
    os.environ["HARNESS_TMP"] = work
    rc, log = harness(exe, prop, tier, seed, out, known_file, extra, LIMIT[tier])
    doc = None
    if rc == 0 and os.path.exists(out):
        doc = json.load(open(out))
    elif rc is not None and (rc < 0 or rc > 128):
        doc = crash(exe, prop, tier, seed, known_file, work, extra, rc, log)
    if doc is None:
        no_verdict(prop, "the harness ended with %s\n%s" % (rc, log))
    report(prop, tier, seed, known, doc, t0, built)


def bridge(exe, prop, extra, tier, seed, work):
    """C22: the extensions of /repo/code in a stand-in editor, over their native modules in a process each."""
    t0 = time.time()
    workers, secs = (6, 45) if tier == "quick" else (8, 900)
    if extra:
        workers = 1
    runs = []
    for w in range(workers):
        d = os.path.join(work, "w%d" % w)
        os.makedirs(d)
        cmd = "ulimit -c 0; exec node '%s' --exe '%s' --repo /repo --work '%s' --seed %d --worker %d --workers %d --secs %d --cases 1000000 --out '%s/report.json' %s" % (
            os.path.join(HERE, "bridge", "drive.js"), exe, d, seed, w, workers, secs, d, extra)
        runs.append((d, background(cmd, secs + 200)))
    doc = {"violations": [], "inconclusive": [], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "counters": {}, "maxima": {}, "wall_s": 0,
           "rule": "random histories of documents (opened, edited, formatted, acted upon, closed) in a stand-in editor running the real extensions over the real native modules; after each event the native text equals the document, and everything shown or edited is where the library says. Non-trivial: a history with at least one question and one change; distinct by its seed."}
    distinct = set()
    for d, wait in runs:
        rc, log = wait()
        out = os.path.join(d, "report.json")
        if not os.path.exists(out):
            no_verdict(prop, "the driver ended with %s\n%s" % (rc, log))
        one = json.load(open(out))
        for k in ("violations", "inconclusive", "samples"):
            doc[k] += one[k]
        doc["evaluations"] += one["evaluations"]
        distinct.update(one["distinct"])
        for k, n in one["counters"].items():
            doc["counters"][k] = doc["counters"].get(k, 0) + n
    doc["distinct_nontrivial"] = len(distinct)
    doc["wall_s"] = time.time() - t0
    return doc


def crash(exe, prop, tier, seed, known_file, work, extra, rc, log):
    """The process died: find the case that kills it."""
    trace = os.path.join(work, "trace")
    os.makedirs(trace, exist_ok=True)
    out = os.path.join(work, "report2.json")
    rc2, log2 = harness(exe, prop, tier, seed, out, known_file, extra + " --trace '%s'" % trace, LIMIT[tier])
    for name in sorted(os.listdir(trace)):
        if not name.startswith("case-"):
            continue
        case = int(name[5:])
        text = open(os.path.join(trace, name), errors="replace").read()
        rc3, log3 = harness(exe, prop, tier, seed, out, known_file, "--case %d --trace '%s'" % (case, trace), 200)
        if rc3 is not None and (rc3 < 0 or rc3 > 128):
            p = os.path.join(trace, name)
            text = open(p, errors="replace").read() if os.path.exists(p) else text
            return {"violations": [{"case": case, "sig": "process died", "detail": "the process died (status %s) on this input\n%s\n--- input ---\n%s" % (rc3, log3[-2000:], text)}],
                    "inconclusive": [], "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [text[:3000]], "counters": {}, "maxima": {}, "wall_s": 0}
    return None


NIGHTLY = "export HOME=/root CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH=/root/.cargo/bin:$PATH; unset RUSTC RUSTDOC RUSTC_WRAPPER RUSTUP_TOOLCHAIN CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG MIRIFLAGS; cd '%s'; ulimit -c 0; " % HARNESS
TRIPLE = "x86_64-unknown-linux-gnu"
SANITIZERS = {
    # name: (runtime options, what its reports look like)
    "address": ("ASAN_OPTIONS='detect_leaks=0:handle_abort=0:exitcode=66:log_path=%s/san'", "AddressSanitizer: "),
    "thread": ("TSAN_OPTIONS='exitcode=66:log_path=%s/san'", "WARNING: ThreadSanitizer: "),
    "memory": ("MSAN_OPTIONS='exitcode=66:log_path=%s/san'", "WARNING: MemorySanitizer: "),
}
# reports that are no undefined behaviour
NOT_UB = ("stack-overflow", "out-of-memory", "allocation-size-too-big", "requested allocation size", "calloc-overflow", "thread leak", "destroy of a locked mutex")


def background(cmd, timeout):
    """Starts a shell command; the result is a function that waits for it (status None: killed at its time limit)."""
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(sh(cmd, timeout)))
    t.start()

    def wait():
        t.join()
        return box[0]
    return wait


def undefined(prop, extra, tier, seed, t0, work):
    """C25: the same workloads in sanitizer builds, small ones under Miri."""
    budget = 640 if tier == "quick" else 3400
    kinds = ["address", "thread"] if tier == "quick" else ["address", "thread", "memory"]
    target = os.path.join(HARNESS, "target")
    feats = FEATURES[prop]
    left = lambda: max(5, budget - (time.time() - t0))
    opt = " ".join("--config profile.release.package.%s.opt-level=1" % p for p in ("std", "core", "alloc"))
    builds = {k: background(NIGHTLY + "RUSTFLAGS='-Zsanitizer=%s %s' CARGO_TARGET_DIR='%s/ub-%s' cargo +nightly build -Zbuild-std --release --offline --features %s --target %s %s 2>&1" % (
        k, "-Zsanitizer-memory-track-origins" if k == "memory" else "", target, k, feats, TRIPLE, opt), left()) for k in kinds}
    # interpreted workloads: (kind, cases, seconds)
    tiny = [("grammars", 6, 40)] * 2 if tier == "quick" else [("grammars", 10000, 1200)] * 5 + [("shipped", 10000, 1200), ("analysis", 10000, 1200)]
    miri_cmd = NIGHTLY + "MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks' CARGO_TARGET_DIR='%s/ub-miri' HARNESS_TINY=%s RUSTFLAGS=-Awarnings cargo +nightly miri run --offline --features %s -- run C25 --seed %d --cases %d --secs %d --out - 2>&1"
    interpreted = [background(miri_cmd % (target, k, feats, seed * 100 + i, n, s), left()) for i, (k, n, s) in enumerate(tiny)]
    doc = {"violations": [], "inconclusive": [], "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "counters": {}, "maxima": {}, "wall_s": 0}
    skipped = []
    built = 0
    finished = {}
    for k in kinds:
        rc, out = builds[k]()
        built = time.time() - t0
        if rc is None:
            skipped.append("%s: not built within the time limit" % k)
            continue
        if rc != 0:
            no_verdict(prop, "the %s build failed\n" % k + "\n".join(l for l in out.splitlines() if "warning" not in l)[-5000:])
        finished[k] = True
    for k in finished:
        options, mark = SANITIZERS[k]
        d = os.path.join(work, k)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "report.json")
        secs = 30 if tier == "quick" else 500
        os.environ["HARNESS_TMP"] = d
        t1 = time.time()
        rc, log = sh(NIGHTLY + (options % d) + " exec '%s/ub-%s/%s/release/harness' run C25 --tier %s --seed %d --secs %d --out '%s' %s" % (target, k, TRIPLE, tier, seed, secs, out, extra), max(60, left() + 100))
        doc["wall_s"] += time.time() - t1
        logs = [open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.startswith("san.")]
        for text in logs + [log]:
            for part in text.split("==================\n"):
                for line in part.splitlines():
                    if mark in line:
                        sig = line[line.index(mark):].split(" (pid")[0].split(" on ")[0].split(" 0x")[0]
                        if not any(x in sig for x in NOT_UB):
                            doc["violations"].append({"case": 0, "sig": sig, "detail": "%s build:\n%s" % (k, part[-20000:])})
                        else:
                            doc["counters"]["%s: not judged: %s" % (k, sig)] = 1
                        break
        if "unsafe precondition(s) violated" in log:
            doc["violations"].append({"case": 0, "sig": "unsafe precondition violated", "detail": "%s build:\n%s" % (k, log[-8000:])})
        if os.path.exists(out):
            one = json.load(open(out))
            doc["rule"] = one["rule"]
            doc["evaluations"] += one["evaluations"]
            doc["distinct_nontrivial"] += one["distinct_nontrivial"]
            doc["samples"] += ["%s: %s" % (k, s) for s in one["samples"][:2]]
            for c, n in one["counters"].items():
                c = k + ": " + c
                doc["counters"][c] = doc["counters"].get(c, 0) + n
            for c, n in one["maxima"].items():
                doc["maxima"][k + ": " + c] = n
            doc["violations"] += [dict(v, detail="%s build:\n%s" % (k, v["detail"])) for v in one["violations"] if v["sig"] == "arithmetic overflow"]
        else:
            skipped.append("%s: ended with %s\n%s" % (k, rc, log[-1500:]))
    for (k, n, s), wait in zip(tiny, interpreted):
        rc, out = wait()
        name = "miri " + k
        doc["counters"][name + ": runs"] = doc["counters"].get(name + ": runs", 0) + 1
        for line in out.splitlines():
            if line.startswith("@ran "):
                doc["evaluations"] += int(line.split()[1])
                doc["distinct_nontrivial"] += int(line.split()[2])
                doc["counters"][name + ": cases"] = doc["counters"].get(name + ": cases", 0) + 1
            elif line.startswith("@count "):
                _, v, what = line.split(" ", 2)
                doc["counters"][name + ": " + what] = doc["counters"].get(name + ": " + what, 0) + int(v)
            elif line.startswith("@violation arithmetic overflow"):
                doc["violations"].append({"case": 0, "sig": "arithmetic overflow", "detail": name + "\n" + out[out.index(line):][:8000]})
        if "unsafe precondition(s) violated" in out:
            doc["violations"].append({"case": 0, "sig": "unsafe precondition violated", "detail": name + "\n" + out[out.index("unsafe precondition(s) violated"):][:8000]})
        elif "error: Undefined Behavior" in out:
            at = out.index("error: Undefined Behavior")
            sig = out[at:].splitlines()[0][:100]
            doc["violations"].append({"case": 0, "sig": sig.split(" at alloc")[0], "detail": name + "\n" + out[at:][:8000]})
        elif rc is None:
            skipped.append(name + ": not finished within the time limit")
        elif "@end" not in out:
            skipped.append("%s: ended with %s: %s" % (name, rc, "\n".join(l for l in out.splitlines() if "warning" not in l)[-1500:]))
    for s in skipped:
        print("  not finished: " + s[:1500])
        doc["counters"]["not finished: " + s.splitlines()[0][:200]] = 1
    if not doc["rule"] and not doc["violations"]:
        no_verdict(prop, "no sanitizer build came to an end\n" + "\n".join(skipped))
    return doc, built


def report(prop, tier, seed, known, doc, t0, built):
    sigs = {f["sig"]: f for f in known}
    fresh = [v for v in doc["violations"] if v["sig"] not in sigs]
    seen = {}
    for v in doc["violations"]:
        if v["sig"] in sigs:
            seen[v["sig"]] = doc["counters"].get("known finding seen: " + v["sig"], 0) or seen.get(v["sig"], 0) + 1
    if doc["inconclusive"] and not fresh:
        no_verdict(prop, "\n".join(doc["inconclusive"][:3]))
    if doc["evaluations"] == 0 and not fresh:
        no_verdict(prop, "nothing was executed")
    coverage = {
        "evaluations": doc["evaluations"], "distinct_nontrivial": doc["distinct_nontrivial"],
        "rule": doc["rule"], "samples": [s[:3000] for s in doc["samples"][:6]] or ["(none)"],
        "observed": doc["counters"], "maxima": doc["maxima"],
        "known_findings_seen": seen, "build_s": round(built, 1), "run_s": round(doc["wall_s"], 2),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": ["the reference models and generators in /verif/harness state the property correctly; only executed inputs and schedules are judged"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for f in known:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, f["what"], seen.get(f["sig"], 0)))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s)" % (
        prop, tier, seed, doc["evaluations"], doc["distinct_nontrivial"], time.time() - t0, built))
    if fresh:
        fresh.sort(key=lambda v: len(v["detail"]))
        v = fresh[0]
        h = hashlib.sha1((v["sig"] + str(v["case"])).encode()).hexdigest()[:10]
        replay = os.path.join(HERE, "replays", "%s-%s-%s.txt" % (prop, seed, h))
        with open(replay, "w") as f:
            f.write("property %s\ntier %s\nseed %d\ncase %d\nwhat %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 %s %s --case %d\n\n%s\n" % (
                prop, tier, seed, v["case"], v["sig"], seed, tier, os.path.abspath(__file__), prop, v["case"], v["detail"]))
        for s in sorted(set(w["sig"] for w in fresh)):
            print("  violated: %s (%d recorded)" % (s, sum(1 for w in fresh if w["sig"] == s)))
        print("\n".join(v["detail"].splitlines()[:40])[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    sys.exit(0)


main()
