#!/usr/bin/env python3
"""Shrink a history: shrink.py TRACE INDEX LABEL OUT - the fewest operations (and clauses of
transactions) after which the specification still gives the label at the last operation."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import check
trace, idx, label, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
ops = check.history(trace, idx)
wd = tempfile.mkdtemp(prefix="shrink_")
def bad(ops):
    f, t = os.path.join(wd, "in"), os.path.join(wd, "out")
    open(f, "w").write("".join(json.dumps(o) + "\n" for o in ops))
    p = subprocess.run([check.DRIVER, "replay", "--in", f, "--out", t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
    if p.returncode != 0: check.trim(t)
    s = check.check_trace(t, wd, 100)
    return any(i == s.n - 1 and label in ls for i, k, ls in s.mism) and not any(l.startswith("spec") for i, k, ls in s.mism for l in ls)
assert bad(ops), "not reproduced"
n = max(1, (len(ops) - 2) // 2)
while True:
    i, any_ = 1, False
    while i < len(ops) - 1:
        c = ops[:i] + ops[min(i + n, len(ops) - 1):]
        if bad(c): ops = c; any_ = True
        else: i += n
    if n == 1 and not any_: break
    n = max(1, n // 2)
for i, o in enumerate(ops):
    k = "terms" if "terms" in o else "tx" if isinstance(o.get("tx"), list) else None
    if o.get("k") == "tx" and k:
        j = 0
        while j < len(o[k]):
            c = json.loads(json.dumps(ops)); del c[i][k][j]
            if bad(c): ops = c; o = ops[i]
            else: j += 1
open(out, "w").write("".join(json.dumps(o) + "\n" for o in ops))
print(len(ops), "operations")
