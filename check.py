#!/usr/bin/env python3
"""Run the bounded-exhaustive check of one property against /repo.

usage: check.py ID [--tier quick|thorough] [--keep] [--unit NAME]

Builds the harness units of the property from /repo's working tree in a
scratch directory, explores, merges what the workers covered into
evidence/ID.json and reports.  Exit 0: held on everything explored.  Exit 1
and a VIOLATION line: broken.  Exit 2: the check itself could not run."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from units import UNITS, PROPS, CONFIGS   # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 1))
BASE = ["-std=c++20", "-march=x86-64-v3", "-maes", "-mpclmul", "-w", "-DUSE_RANDEN", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch

    def incs(self, unit):
        i = [] if unit.get("real_randen") else ["-I" + VERIF + "/lib/shim"]
        i += ["-I" + VERIF + "/lib"]
        i += [f"-I{REPO}/{d}" for d in ("include", "thirdparties/spqlios", "thirdparties/cereal/include", "thirdparties/randen")]
        return i

    def flags(self, unit):
        c = CONFIGS[unit["cfg"]]
        f = BASE + (["-fopenmp"] if unit.get("omp", True) else []) + list(c.get("flags", []))
        if c.get("params"):
            f += [f'-DTFHEPP_VERIF_PARAMS="{VERIF}/params/{c["params"]}"']
        f += ["-D" + d for d in c.get("defs", [])]
        return f

    def objects(self, unit):
        """(output, command) pairs for everything the unit may link."""
        cxx = unit.get("cxx", "g++")
        tag = f'{unit["cfg"]}_{"r" if unit.get("real_randen") else "s"}_{"o" if unit.get("omp", True) else "n"}_{cxx}' + unit.get("tag", "")
        d = os.path.join(self.scratch, re.sub(r"[^\w]", "_", tag))
        os.makedirs(d, exist_ok=True)
        lib_o = unit.get("lib_opt", "-O1")
        xf = unit.get("libflags", [])
        fl, inc = self.flags(unit), self.incs(unit)
        core, extra = [], []
        names = {os.path.basename(s): s for s in sorted(glob.glob(REPO + "/src/*.cpp"))}
        need = unit.get("src", ["key.cpp"])
        for n, s in names.items():
            (core if n in need else extra).append((f"{d}/{n}.o", [cxx, *fl, lib_o, *xf, *inc, "-c", s]))
        sp = REPO + "/thirdparties/spqlios"
        for s in ("fft_processor_spqlios.cpp", "spqlios-fft-impl.cpp"):
            core.append((f"{d}/{s}.o", [cxx, *fl, "-O3", *xf, *inc, "-c", f"{sp}/{s}"]))
        for s in ("spqlios-fft-fma.s", "spqlios-ifft-fma.s"):
            core.append((f"{d}/{s}.o", ["gcc", "-c", f"{sp}/{s}"]))
        if unit.get("real_randen"):
            core.append((f"{d}/randen.o", [cxx, *fl, "-O2", *inc, "-c", f"{REPO}/thirdparties/randen/randen.cc"]))
        for s in unit.get("extra_src", []):
            core.append((f"{d}/{s}.o", [cxx, *BASE, "-O2", "-fopenmp", *inc, "-c", f"{VERIF}/units/{s}"]))
        return core, extra

    def main_obj(self, unit):
        o = os.path.join(self.scratch, unit["name"] + ".o")
        return o, [unit.get("cxx", "g++"), *self.flags(unit), unit.get("opt", "-O2"), *unit.get("cflags", []),
                   *["-D" + d for d in unit.get("defs", [])], *self.incs(unit), "-c", f'{VERIF}/units/{unit["src_file"]}']

    def build(self, units):
        jobs, errs = {}, {}
        for u in units:
            o, c = self.main_obj(u)
            jobs[o] = c
            for o, c in self.objects(u)[0]:
                jobs[o] = c
        self.compile(jobs, errs)
        out = {}
        for u in units:
            out[u["name"]] = self.link(u, errs)
        return out

    def compile(self, jobs, errs):
        def one(oc):
            o, c = oc
            if os.path.exists(o):
                return
            r = sh(c + ["-o", o])
            if r.returncode:
                errs[o] = r.stdout
        big = sorted(jobs.items(), key=lambda oc: ("gate.cpp" in oc[0] or "/units/" in " ".join(oc[1])), reverse=True)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, big))

    def link(self, u, errs):
        exe = os.path.join(self.scratch, u["name"])
        mo, _ = self.main_obj(u)
        core, extra = self.objects(u)
        def need(objs):
            for o in objs:
                if o in errs:
                    raise BuildError(f"{o}\n" + "\n".join([l for l in errs[o].splitlines() if "error" in l][:8] or errs[o].splitlines()[:8]))
        need([mo] + [o for o, _ in core])
        base = [u.get("cxx", "g++"), *u.get("ldpre", []), "-o", exe, mo] + [o for o, _ in core]
        tail = [*u.get("ldflags", []), *(["-fopenmp"] if u.get("omp", True) else []), "-lpthread"]
        r = sh(base + tail)
        if r.returncode and extra:      # code may have moved between sources: link everything
            self.compile(dict(extra), errs)
            need([o for o, _ in extra])
            r = sh(base + [o for o, _ in extra] + tail)
        if r.returncode:
            raise BuildError("link " + u["name"] + "\n" + r.stdout[-3000:])
        return exe


def run_unit(u, exe, scratch, tier, seed, limit, workers):
    out = os.path.join(scratch, "out_" + u["name"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, OMP_NUM_THREADS="1", OMP_THREAD_LIMIT="1", OMP_WAIT_POLICY="passive", LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:abort_on_error=1:detect_stack_use_after_return=0",
               TMPDIR=out, MALLOC_PERTURB_="165")
    env.update(u.get("env", {}))
    cmd = [exe, "--unit", u["name"], "--out", out, "--workers", str(workers), "--seed", str(seed)]
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += u.get("args", [])
    t = time.time()
    log = os.path.join(out, "log")
    with open(log, "w") as lf:
        p = subprocess.Popen(["setarch", "-R", *cmd] if u.get("no_aslr") else cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=out, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
            hang = False
        except subprocess.TimeoutExpired:
            hang, rc = True, None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    res = {"unit": u["name"], "rc": rc, "hang": hang, "wall": time.time() - t, "states": 0, "transitions": 0, "evaluations": 0,
           "traces": 0, "counters": {}, "samples": [], "fails": {}, "log": open(log, errors="replace").read()[-4000:]}
    for f in sorted(glob.glob(out + "/*.json")):
        j = json.load(open(f))
        for k in ("states", "transitions", "evaluations", "traces"):
            res[k] += j[k]
        for k, v in j["counters"].items():
            res["counters"][k] = max(res["counters"].get(k, 0), v) if k.startswith("max:") else res["counters"].get(k, 0) + v
        res["samples"] += j["samples"]
        for k, v in j["fails"].items():
            res["fails"].setdefault(k, v)
    if hang:
        res["fails"]["hang"] = f"no termination within {limit:.0f} s"
    elif rc == 3:
        raise BuildError(f'{u["name"]}: harness error\n' + res["log"])
    elif rc != 0:
        res["fails"]["crash"] = f"abnormal termination (exit {rc}) " + res["log"][-1500:]
    return res


def known_findings():
    known = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", l)
            if m:
                known.add((m[1], m[2], m[3]))
    return known


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    units = [dict(u) for u in UNITS[prop] if tier == "thorough" or not u.get("thorough_only")]
    if "--unit" in a:
        units = [u for u in units if u["name"] == a[a.index("--unit") + 1]]
    scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_", dir=os.environ.get("VF_SCRATCH", "/tmp"))
    code = 2
    try:
        code = go(prop, tier, seed, units, scratch, t0)
    except BuildError as e:
        print(f"ERROR property={prop} the check could not be built or run: {e}", flush=True)
    finally:
        if "--keep" in a:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def go(prop, tier, seed, units, scratch, t0):
    b = Builder(scratch)
    exes = b.build(units)
    tb = time.time() - t0
    def budget():       # a quick run answers within the time a check may take, whatever hangs
        return 3000 if tier == "thorough" else max(20, min(400, 780 - (time.time() - t0)))
    results = []
    # Wide units one after another on all cores; narrow ones side by side.
    wide = [u for u in units if u.get("workers", NCPU) > 1]
    narrow = [u for u in units if u.get("workers", NCPU) <= 1]
    def one(u):
        w = min(u.get("workers", NCPU), NCPU)
        r = run_unit(u, exes[u["name"]], scratch, tier, seed, budget(), w)
        if r["fails"] and r["rc"] != 0 and not r["hang"]:
            r2 = run_unit(u, exes[u["name"]], scratch, tier, seed, budget(), w)   # replay before report
            r["replayed"] = set(r2["fails"]) >= set(r["fails"])
        elif r["fails"] and not r["hang"] and r["wall"] < 120:
            r2 = run_unit(u, exes[u["name"]], scratch, tier, seed, budget(), w)
            r["replayed"] = set(r2["fails"]) == set(r["fails"])
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results += list(ex.map(one, narrow))
    with cf.ThreadPoolExecutor(4) as ex:     # overlap the units' single-threaded start-up
        results += list(ex.map(one, wide))
    known = {(p, k): d for p, k, d in known_findings()}
    viol = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{prop}-*.txt"):
        os.remove(f)
    for r in results:
        for key, detail in sorted(r["fails"].items()):
            full = f'{r["unit"]}/{key}'
            if (prop, full) in known:
                print(f"KNOWN-FINDING: property={prop} {known[(prop, full)]}", flush=True)
                continue
            path = os.path.join(rdir, f"{prop}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', full)[:120]}.txt")
            with open(path, "w") as f:
                f.write(f"property {prop}: {PROPS[prop]}\nunit: {r['unit']}\nfailed check: {key}\ncase: {detail}\n"
                        f"replayed identically: {r.get('replayed')}\n"
                        f"replay: VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {prop} --unit {r['unit']}\n\n{r['log']}\n")
            viol.append((path, key, detail))
    wall = time.time() - t0
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["traces"] for r in results),
        "evaluations": sum(r["evaluations"] for r in results),
        "samples": [s for r in results for s in r["samples"][:2]][:12] or ["none"],
        "exhaustive": True,
        "units": [{"unit": r["unit"], "states": r["states"], "transitions": r["transitions"], "traces": r["traces"],
                   "evaluations": r["evaluations"], "wall_s": round(r["wall"], 2), "counters": r["counters"]} for r in results],
        "bounds": [u["bounds"] for u in units if u.get("bounds")],
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["the explored code is compiled from /repo's working tree; every random draw is answered by the harness",
                          "exhaustive within the bounds listed per unit, at the parameter sets listed"],
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for r in results:
        print(f'{r["unit"]}: states={r["states"]} transitions={r["transitions"]} traces={r["traces"]} wall={r["wall"]:.1f}s'
              + (f' FAILS={list(r["fails"])}' if r["fails"] else ""), flush=True)
    for path, key, detail in viol:
        print(f"  {key}: {detail[:400]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    print(f"{prop} {tier}: {'VIOLATED' if viol else 'held'} build={tb:.1f}s wall={wall:.1f}s", flush=True)
    return 1 if viol else 0


if __name__ == "__main__":
    main()
