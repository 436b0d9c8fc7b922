#!/usr/bin/env python3
"""plant.py ID PROP NEEDS WHAT FILE OLD NEW [FILE OLD NEW ...]   (development tool)
Makes /verif/seeded/ID from edits, given main.rs on stdin (or already there); confirms it builds, passes the stable tests, and that the
demonstration tells it apart; then runs the quick check of PROP against it.  /repo is restored."""
import json, os, subprocess, sys, shutil, time
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Run with cwd = the repository, after the build.  Exit 0 if it behaves, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap '/bin/rm -r -f "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
mentat = { path = "$repo" }
mentat_db = { path = "$repo/db" }
mentat_core = { path = "$repo/core" }
core_traits = { path = "$repo/core-traits" }
edn = { path = "$repo/edn" }
mentat_transaction = { path = "$repo/transaction" }
mentat_tolstoy = { path = "$repo/tolstoy" }
tolstoy_traits = { path = "$repo/tolstoy-traits" }
rusqlite = { version = "~0.24", features = ["limits", "bundled"] }
uuid = "~0.8"
chrono = "~0.4"
X
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline > "$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
mkdir "$d/work" && cd "$d/work" && RUST_BACKTRACE=0 timeout 120 "$d/target/debug/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def main():
    a = sys.argv[1:]
    run_only = a[0] == "--check"
    if run_only: a = a[1:]
    id = a[0]
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    if sh("git -C /repo status --porcelain").stdout.strip():
        print("/repo is not clean"); sys.exit(1)
    try:
        if run_only:
            meta = json.load(open(d + "/meta.json"))
            prop = a[1] if len(a) > 1 else meta["property"]
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode: print("does not apply", r.stdout.decode()); sys.exit(1)
            c = sh("cd /verif && VERIF_SEED=%s VERIF_TIER=quick python3 bin/check.py %s quick" % (os.environ.get("VERIF_SEED", "1"), prop))
            print(id, prop, "CAUGHT" if c.returncode == 1 and b"VIOLATION property=" + prop.encode() in c.stdout else "MISSED rc=%d" % c.returncode)
            print(c.stdout.decode()[-1500:])
            return
        prop, needs, what = a[1:4]
        src = sys.stdin.read() if not sys.stdin.isatty() else ""
        if src.strip(): open(d + "/main.rs", "w").write(src)
        ed = a[4:]
        for i in range(0, len(ed), 3):
            f, old, new = ed[i:i+3]
            p = os.path.join("/repo", f)
            s = open(p).read()
            if s.count(old) != 1: print("edit matches %d times in %s" % (s.count(old), f)); sys.exit(1)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print("does not build\n", b.stdout.decode()[-3000:]); return
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        t = sh("python3 /tmp/cmp.py /tmp/plant.json").stdout.decode()
        print("tests:", t[:600])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo with the bug:", r.returncode, r.stdout.decode()[-500:])
        c = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py %s quick" % prop)
        print("check:", "CAUGHT" if c.returncode == 1 and b"VIOLATION property=" + prop.encode() in c.stdout else "MISSED rc=%d" % c.returncode)
        print(c.stdout.decode()[-1200:])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("demo without:", r.returncode, r.stdout.decode()[-300:] if r.returncode else "")
main()
