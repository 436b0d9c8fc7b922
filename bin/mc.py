"""Explore a small world of the specification exhaustively with TLC (spec/Model.tla), and have the real
store replay the explored transitions."""
import json, os, random, re, subprocess, tempfile

import check

STEP = re.compile(r'^<<"STEP", "(.*)">>$')
WORLD = re.compile(r'^<<"WORLD", "(.*)">>$')
FILES = {"durable", "txn"}

def probes(world, ids, opened):
    if world != "cache":
        return []
    a, b = ids[":e/a"], ids[":e/b"]
    return [{"k": "look", "e": e, "a": x, "how": h} for x in (":w/l", ":w/lm") for e in (a, b) for h in (("store",) if opened else ("store", "read"))]

def histories(steps):
    """Paths that together take every printed transition: [(op index, ...)].  What is refused leaves the
    state as it is, so it is tried on the way."""
    refused, kids = {}, {}
    for h, i, same in steps:
        (refused if same else kids).setdefault(h, []).append(i)
    leaves = [h + (i,) for h, xs in sorted(kids.items()) for i in xs if h + (i,) not in kids and h + (i,) not in refused]
    leaves += [h for h in sorted(refused) if h not in kids]
    return leaves, refused

def run(m, tier, seed, workdir):
    world, depth, cap = m["world"], m["depth"], m.get("cap", 100000)
    boot = os.path.join(workdir, "boot_%s_%d.ndjson" % (world, depth))
    bin_ = boot + ".in"
    with open(bin_, "w") as f:
        f.write('{"k":"reset","file":false,"profile":"mc","rank":[]}\n')
    subprocess.run([check.DRIVER, "replay", "--in", bin_, "--out", boot], check=True, timeout=120)
    out, code = check.tlc("Model.tla", "Model.cfg", {"WORLD": world, "DEPTH": str(depth), "BOOT": boot}, workdir,
                          m.get("timeout", 800), mem="4g", workers=m.get("workers", "1"))
    r = {"ok": "No error has been found" in out, "distinct": 0, "generated": 0, "replayed": 0, "shards": [], "note": "", "complete": True}
    x = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    if x:
        r["generated"], r["distinct"] = int(x[-1][0]), int(x[-1][1])
    steps, wd = [], None
    for l in out.splitlines():
        g = STEP.match(l)
        if g:
            s = check.unq(g.group(1)) if False else json.loads(json.loads('"' + g.group(1) + '"'))
            steps.append((tuple(s["h"]), s["i"], s["same"]))
            continue
        g = WORLD.match(l)
        if g:
            wd = json.loads(json.loads('"' + g.group(1) + '"'))
    if not r["ok"] or wd is None:
        r["ok"] = False
        r["note"] = "\n".join(l for l in out.splitlines() if not l.startswith('<<"'))[-3000:]
        return r
    leaves, refused = histories(steps)
    rng = random.Random(seed * 7919 + depth)
    if len(leaves) > cap:
        leaves = sorted(rng.sample(leaves, cap))
        r["complete"] = False
    r["transitions"] = len(steps)
    r["paths"] = len(leaves)
    ids = wd["ids"]
    def op(i):
        o = dict(wd["ops"][i - 1])
        if o["k"] == "obs":
            o["as"] = [ids[a] for a in o["as"]]
        return o
    done = set()
    nsh = max(1, min(m.get("shards", 8), len(leaves) // 20 + 1))
    files = []
    for k in range(nsh):
        f = os.path.join(workdir, "mc_%s_%d_%d.in" % (world, depth, k))
        with open(f, "w") as w:
            for h in leaves[k::nsh]:
                w.write(json.dumps({"k": "reset", "file": world in FILES, "profile": "mc", "rank": []}) + "\n")
                for o in wd["setup"]:
                    w.write(json.dumps(o) + "\n")
                opened = False
                for n in range(len(h) + 1):
                    if h[:n] not in done:
                        done.add(h[:n])
                        for i in refused.get(h[:n], []):
                            w.write(json.dumps(op(i)) + "\n")
                    if n < len(h):
                        o = op(h[n])
                        opened = {"begin": True, "commit": False, "rollback": False, "drop": False}.get(o["k"], opened)
                        w.write(json.dumps(o) + "\n")
                for o in probes(world, ids, opened):
                    w.write(json.dumps(o) + "\n")
                if opened:
                    w.write(json.dumps({"k": "drop" if rng.random() < .5 else "commit"}) + "\n")
                    for o in probes(world, ids, False):
                        w.write(json.dumps(o) + "\n")
                w.write(json.dumps({"k": "end"}) + "\n")
        files.append(f)
    r["files"] = files
    return r

def replay(f, workdir, timeout=1500):
    """One shard: the real store follows the histories, and the specification judges each event."""
    t = f[:-3] + ".ndjson"
    note = ""
    try:
        p = subprocess.run([check.DRIVER, "replay", "--in", f, "--out", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode != 0:
            note = "driver: exit %d" % p.returncode
    except subprocess.TimeoutExpired:
        note = "driver: no answer within %d s" % timeout
    if note:
        check.trim(t)
    s = check.check_trace(t, workdir, timeout)
    s.profile, s.seed, s.dnote, s.wall = "model:" + os.path.basename(f)[3:-3], 0, note, 0
    return s
