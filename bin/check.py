#!/usr/bin/env python3
"""Decide a property: generate histories with the real store, and check them against the TLA+
specification with TLC.

    check.py ID quick|thorough       decide one property
    check.py --replay FILE           run a recorded history again and show the disagreements
    check.py --sweep PROFILE SEEDS   (development) all disagreements for some histories
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
DRIVER = os.path.join(TARGET, "debug", "driver")
EVID = os.path.join(HERE, "evidence")
JARS = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar"), key=lambda p: "tla2tools" not in p))
WORKERS = 8

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

def say(*a):
    print(*a, flush=True)

def toolchain():
    env = dict(os.environ)
    # the toolchain the repository is built with
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout.decode(errors="replace")
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k not in ("PWD", "SHLVL", "_", "OLDPWD"):
                    env[k] = v
    except OSError:
        pass
    env.pop("CARGO_TARGET_DIR", None)
    env["RUST_BACKTRACE"] = "0"
    return env

def build():
    env = toolchain()
    env["CARGO_TARGET_DIR"] = TARGET
    os.makedirs(TARGET, exist_ok=True)
    t0 = time.time()
    import fcntl
    with open(os.path.join(HARNESS, "target", ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--bin", "driver"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        say(p.stdout.decode(errors="replace")[-4000:])
        say("the driver does not build against /repo")
        sys.exit(2)
    return time.time() - t0

def tlc(module, cfg, env, workdir, timeout, args=(), mem="3g", workers="1"):
    e = dict(os.environ)
    e.update(env)
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    # The parser writes nothing next to the specification; the state directory is our own.
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-workers", workers, "-metadir", meta, "-config", cfg, *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, code = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, code = (x.stdout or b"").decode(errors="replace"), -9
    shutil.rmtree(meta, ignore_errors=True)
    return out, code

MISM = re.compile(r'^<<"MISMATCH", (\d+), "([^"]*)", "(.*)">>$')
DONE = re.compile(r'^<<"DONE", (\d+), "(.*)">>$')

def unq(s):
    return json.loads(json.loads('"' + s + '"'))

class Shard:
    pass

def check_trace(trace, workdir, timeout=600):
    """Run TLC over one trace file."""
    s = Shard()
    s.trace, s.mism, s.cov, s.done, s.note = trace, [], set(), False, ""
    s.n = sum(1 for _ in open(trace, "rb"))
    s.states = 0
    if s.n == 0:
        s.done = True
        return s
    out, code = tlc("Trace.tla", "Trace.cfg", {"TRACE": trace}, workdir, timeout)
    for l in out.splitlines():
        m = MISM.match(l)
        if m:
            s.mism.append((int(m.group(1)), m.group(2), unq(m.group(3))))
        m = DONE.match(l)
        if m:
            s.done = int(m.group(1)) == s.n
            s.cov = set(unq(m.group(2)))
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if m:
        s.states = int(m.group(2))
    if not s.done:
        s.note = "\n".join(l for l in out.splitlines() if "rror" in l or "xception" in l)[:1500]
        # The specification could not be evaluated on what was observed: the last event reached.
        if code == -9:
            s.note = "timeout"
        else:
            i = max([int(x) for x in re.findall(r"^/\\ i = (\d+)", out, re.M)] + [-1])
            s.mism.append((max(i, 0), "eval", ["spec:eval"]))
    return s

def gen_and_check(job):
    profile, seed, traces, steps, workdir, tmo, extra = job
    f = os.path.join(workdir, "%s_%d.ndjson" % (profile, seed))
    t0 = time.time()
    note = ""
    try:
        p = subprocess.run([DRIVER, "gen", "--profile", profile, "--seed", str(seed), "--traces", str(traces), "--steps", str(steps), "--out", f] + extra,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo)
        if p.returncode != 0:
            note = "driver: exit %d %s" % (p.returncode, p.stdout.decode(errors="replace")[-300:])
    except subprocess.TimeoutExpired:
        note = "driver: no answer within %d s" % tmo
    if note:
        trim(f)
    s = check_trace(f, workdir, tmo)
    s.profile, s.seed, s.dnote = profile, seed, note
    s.wall = time.time() - t0
    return s

def trim(f):
    """Drop an incomplete last line."""
    try:
        b = open(f, "rb").read()
        b = b[: b.rfind(b"\n") + 1]
        open(f, "wb").write(b)
    except OSError:
        open(f, "wb").write(b"")

def stats(trace):
    """Numbers of operations, accepted and refused."""
    n, traces, acc, rej, samples, ops = 0, 0, 0, 0, [], {}
    for l in open(trace):
        e = json.loads(l)
        n += 1
        k = e["op"]["k"]
        ops[k] = ops.get(k, 0) + 1
        if k == "reset":
            traces += 1
        if k == "tx":
            if e["r"]["ok"]: acc += 1
            else: rej += 1
    return n, traces, acc, rej, ops

def render(op):
    s = json.dumps(op, sort_keys=True)
    return s if len(s) < 400 else s[:400] + "..."

def history(trace, idx):
    """The operations from the beginning of the trace up to the event."""
    L = [json.loads(x) for x in open(trace)]
    j = min(idx, len(L) - 1)
    while j > 0 and L[j]["op"]["k"] != "reset":
        j -= 1
    return [x["op"] for x in L[j: idx + 1]]

def known(prop):
    """The open entries of the known-findings file: the labels the specification gives them."""
    out = {}
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        m = re.match(r"^open: property=(\S+) label=(\S+) (.*)$", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out

def matches(label, masks):
    return any(re.match(m + r"($|:)", label) or re.match(m + "$", label) for m in masks)

def replay(f):
    build()
    wd = tempfile.mkdtemp(prefix="mentat_replay_")
    t = os.path.join(wd, "t.ndjson")
    subprocess.run([DRIVER, "replay", "--in", f, "--out", t], timeout=600)
    s = check_trace(t, wd)
    for i, k, ls in s.mism:
        say("event %d (%s): %s" % (i, k, ", ".join(ls)))
        subprocess.run([sys.executable, os.path.join(HERE, "tools", "show.py"), t, str(i)])
    if not s.done:
        say("not completed:", s.note)
    shutil.rmtree(wd, ignore_errors=True)
    return 1 if s.mism or not s.done else 0

def scenario(name, workdir):
    """A fixed history of the repository's own, replayed and checked."""
    f = os.path.join(HERE, "scenarios", name)
    t = os.path.join(workdir, "scn_" + name)
    note = ""
    try:
        p = subprocess.run([DRIVER, "replay", "--in", f, "--out", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode != 0:
            note = "driver: exit %d" % p.returncode
    except subprocess.TimeoutExpired:
        note = "driver: no answer within 300 s"
    if note:
        trim(t)
    s = check_trace(t, workdir)
    s.profile, s.seed, s.dnote, s.wall = "scenario:" + name, 0, note, 0
    return s

def decide(prop, tier):
    t0 = time.time()
    P = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tb = build()
    wd = tempfile.mkdtemp(prefix="mentat_%s_" % prop)
    try:
        return run(prop, tier, P, seed, wd, t0, tb)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def run(prop, tier, P, seed, wd, t0, tb):
    kf = known(prop)
    jobs = []
    for j in P[tier]:
        profile, shards, traces, steps = j[:4]
        for k in range(shards):
            jobs.append((profile, seed * 1000 + k, traces, steps, wd, 300 if tier == "quick" else 3000, []))
    shards, futs, mcs = [], [], []
    with cf.ThreadPoolExecutor(max_workers=WORKERS) as ex:
        import mc
        mcf = [(m, ex.submit(mc.run, m, tier, seed, wd)) for m in P.get("mc_" + tier, [])]
        for n in P.get("scenarios", []):
            futs.append(ex.submit(scenario, n, wd))
        for j in jobs:
            futs.append(ex.submit(gen_and_check, j))
        for m, f in mcf:
            r = f.result()
            r["shards"] = [ex.submit(mc.replay, x, wd) for x in r.get("files", [])]
            mcs.append((m, r))
        for f in futs:
            shards.append(f.result())
        for m, r in mcs:
            r["shards"] = [x.result() for x in r["shards"]]
            r["replayed"] = sum(stats(x.trace)[1] for x in r["shards"] if x.n)
            shards.extend(r["shards"])
    bad, seen_known, ignored = [], {}, {}
    for s in shards:
        if s.dnote:
            # the store stopped answering, or took the process down, in the middle of a history
            bad.append((s, s.n - 1 if s.n else 0, "driver", [s.dnote]))
        for i, k, ls in s.mism:
            hit = []
            for l in ls:
                if l.startswith("known:"):
                    if l in kf:
                        seen_known[l] = seen_known.get(l, 0) + 1
                elif matches(l, P["labels"]):
                    hit.append(l)
                else:
                    ignored[l] = ignored.get(l, 0) + 1
            if hit:
                bad.append((s, i, k, hit))
        if not s.done and not s.mism and not s.dnote:
            say("TLC did not finish:", s.profile, s.seed, s.note)
            return 2
    for m, r in mcs:
        if not r["ok"]:
            say("the specification's own model check failed:", m, r["note"][-1500:])
            return 2
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for x in glob.glob(os.path.join(EVID, "replay", prop + "-*.ndjson")):
        os.remove(x)
    n = ntr = acc = rej = 0
    ops, cov, samples = {}, set(), []
    for s in shards:
        if s.n == 0:
            continue
        a = stats(s.trace)
        n += a[0]; ntr += a[1]; acc += a[2]; rej += a[3]
        for k, v in a[4].items():
            ops[k] = ops.get(k, 0) + v
        cov |= s.cov
        if len(samples) < 3 and s.n > 4:
            h = history(s.trace, min(6, s.n - 1))
            samples.append({"profile": s.profile, "seed": s.seed, "history": [render(o) for o in h]})
    states = sum(s.states for s in shards) + sum(r["distinct"] for m, r in mcs)
    trans = sum(max(s.states - 1, 0) for s in shards) + sum(r["generated"] for m, r in mcs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": ntr,
            "model_states": sum(r["distinct"] for m, r in mcs), "model_transitions": sum(r["generated"] for m, r in mcs),
            "models": [{"model": m, "states": r["distinct"], "transitions": r["generated"], "every_transition_replayed": r["complete"], "behaviours_replayed": r["replayed"]} for m, r in mcs],
            "events": n, "operations": ops, "transactions_accepted": acc, "transactions_refused": rej,
            "situations": sorted(cov), "labels_decided": P["labels"], "labels_of_other_properties_seen": ignored,
            "known_findings_seen": seen_known,
            "evaluations": n, "distinct_nontrivial": len(cov),
            "rule": "a situation is a kind of outcome the specification distinguishes (a rule that accepted, refused or resolved something)",
            "samples": samples,
        },
        "build_s": round(tb, 1), "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for l, what in sorted(kf.items()):
        if l in seen_known:
            say("KNOWN-FINDING: property=%s %s" % (prop, what))
        elif l in P.get("expect_known", []):
            say("note: the known finding %s was not met in this run" % l)
    if ignored:
        say("note: disagreements that other properties decide:", json.dumps(ignored))
    if bad:
        shown = set()
        for c, (s, i, k, ls) in enumerate(bad):
            key = tuple(sorted(ls))
            if key in shown or len(shown) > 5:
                continue
            shown.add(key)
            f = os.path.join(EVID, "replay", "%s-%d.ndjson" % (prop, c))
            with open(f, "w") as w:
                for o in (history(s.trace, i) if s.n else []):
                    w.write(json.dumps(o) + "\n")
            say("%s: profile %s seed %d, event %d (%s): %s" % (prop, s.profile, s.seed, i, k, ", ".join(ls)))
            say("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    say("%s held: %d histories, %d events, %d accepted and %d refused transactions, %d situations, %.0f s" % (prop, ntr, n, acc, rej, len(cov), time.time() - t0))
    return 0

def main():
    a = sys.argv[1:]
    sys.modules.setdefault("check", sys.modules["__main__"])
    if a and a[0] == "--model":
        import mc
        build()
        wd = tempfile.mkdtemp(prefix="mentat_model_")
        t0 = time.time()
        m = {"world": a[1], "depth": int(a[2]), "cap": int(a[3]) if len(a) > 3 else 10**9}
        r = mc.run(m, "quick", 1, wd)
        say({k: v for k, v in r.items() if k != "files"}, "%.0f s" % (time.time() - t0))
        with cf.ThreadPoolExecutor(max_workers=WORKERS) as ex:
            for k, s in enumerate(ex.map(lambda f: mc.replay(f, wd), r.get("files", []))):
                say("shard: %d events %s %s" % (s.n, s.dnote, "" if s.done else s.note))
                for i, kk, ls in s.mism[:5]:
                    keep = "/tmp/model_%s_%d.ndjson" % (a[1], k)
                    shutil.copy(s.trace, keep)
                    say("   ", i, kk, ls, keep)
        say("%.0f s" % (time.time() - t0))
        shutil.rmtree(wd, ignore_errors=True)
        sys.exit(0)
    if a and a[0] == "--build":
        say("built in %.0f s" % build())
        sys.exit(0)
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--sweep":
        build()
        wd = tempfile.mkdtemp(prefix="mentat_sweep_")
        jobs = [(p, int(s), int(os.environ.get("T", "40")), int(os.environ.get("M", "30")), wd, 3000, []) for p in a[1].split(",") for s in a[2:]]
        with cf.ThreadPoolExecutor(max_workers=WORKERS) as ex:
            for s in ex.map(gen_and_check, jobs):
                say("%s %d: %d events %.0f s %s %s" % (s.profile, s.seed, s.n, s.wall, s.dnote, "" if s.done else s.note))
                for i, k, ls in s.mism:
                    if not all(l.startswith("known:") for l in ls):
                        say("   ", i, k, ls)
                        keep = "/tmp/sweep_%s_%d.ndjson" % (s.profile, s.seed)
                        shutil.copy(s.trace, keep)
        shutil.rmtree(wd, ignore_errors=True)
        sys.exit(0)
    sys.exit(decide(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))

if __name__ == "__main__":
    main()
