#!/usr/bin/env python3
"""mkbug.py ID PROPERTY NEEDS BREAKS FILE <<< python list of (old, new) pairs:
writes seeded/ID/{patch.diff,meta.json,demo.sh}."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, prop, needs, breaks = sys.argv[1:5]
edits = eval(sys.stdin.read())
d = f"{V}/seeded/{ID}"
os.makedirs(d, exist_ok=True)
diff = ""
byfile = {}
for f, o, n, *nth in edits:    # nth: which occurrence (1-based) when several
    s = byfile.get(f) or open("/repo/" + f).read()
    if nth:
        parts = s.split(o)
        k = nth[0]
        byfile[f] = o.join(parts[:k]) + n + o.join(parts[k:])
    else:
        assert s.count(o) == 1, (f, s.count(o), o)
        byfile[f] = s.replace(o, n)
for f, s in byfile.items():
    open("/tmp/new", "w").write(s)
    r = subprocess.run(["diff", "-u", f"--label=a/{f}", f"--label=b/{f}", "/repo/" + f, "/tmp/new"], capture_output=True, text=True)
    diff += r.stdout
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository, built
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -fopenmp -march=x86-64-v3 -maes -mpclmul -DUSE_RANDEN $(cat "$here/flags" 2>/dev/null) \\
  -Iinclude -Ithirdparties/randen -Ithirdparties/cereal/include -Ithirdparties/spqlios "$here/demo.cpp" $(cat "$here/srcs" 2>/dev/null) \\
  _build/src/libtfhe++.a _build/thirdparties/spqlios/libspqlios.a _build/thirdparties/randen/libranden.a -o "$tmp/demo" || exit 3
cd "$tmp" && ./demo
''')
print(diff)
