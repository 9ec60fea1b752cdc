#!/usr/bin/env python3
"""Confirm planted changes in scratch copies: plant.py ID...  [--notests]
Applies /verif/seeded/ID/patch.diff to a copy of /repo, builds, runs the
stable tests, runs demo.sh on both trees, then the property's check."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
for b in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = f"{V}/seeded/{b}"
    w = f"/tmp/pl/{b}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/pl", exist_ok=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("_build"), symlinks=True)
    out = {}
    r = sh(f"git -C {w} apply {d}/patch.diff")
    out["applies"] = r.returncode == 0
    if not out["applies"]:
        print(b, r.stderr); continue
    target = "" if "--notests" not in sys.argv else "tfhe++ spqlios randen"
    r = sh(f'CC=gcc CXX=g++ CCACHE_DISABLE=1 cmake -S {w} -B {w}/_build -G Ninja -DCMAKE_BUILD_TYPE=Sandbox "-DCMAKE_CXX_FLAGS_SANDBOX=-march=x86-64-v3 -maes -mpclmul" -DENABLE_TEST=ON -DENABLE_TUTORIAL=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C {w}/_build -j8 {target}')
    out["builds"] = r.returncode == 0
    if r.returncode: print(r.stdout[-2000:])
    if "--notests" not in sys.argv:
        t = open("/opt/vp/run_tests.py").read().replace("/repo", w)
        open(f"{w}/rt.py", "w").write(t)
        r = sh(f"cd {w} && ulimit -c 0 && OMP_WAIT_POLICY=passive python3 rt.py {w}/lines.txt")
        ok, bad = set(), set()
        for l in open(f"{w}/lines.txt"):
            k, i = l.split()
            (ok if k == "PASS" else bad).add(i)
        out["tests_missing"] = sorted(stable - ok | stable & bad)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo"); r1 = sh(f"bash {d}/demo.sh", cwd=w)
    out["demo_clean"], out["demo_bug"] = r0.returncode, r1.returncode
    if r0.returncode or not r1.returncode: print((r0.stdout + r0.stderr)[-1500:], (r1.stdout + r1.stderr)[-1500:])
    p = json.load(open(d + "/meta.json"))["property"]
    if "--nocheck" not in sys.argv:
        r = sh(f"VF_REPO={w} python3 {V}/check.py {p}")
        out["check"] = r.returncode
        out["viol"] = [l.strip()[:160] for l in r.stdout.splitlines() if l.startswith("  ")][:4]
    shutil.rmtree(w, ignore_errors=True)
    print(b, json.dumps(out), flush=True)
