#!/usr/bin/env python3
"""Driver: run.py <property> [--replay FILE]   |   run.py --build-all

Builds checks/<property>.cpp in one or more variants (compilers, optimisation
levels, sanitizers) against /repo's current working tree, runs them, routes
every failure through known-findings.txt, writes evidence/<property>.json.
Exit 0: held on everything explored. 1: violated. Anything else: the check
itself failed."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FALCON_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"), 0)
TIER = os.environ.get("VERIF_TIER", "quick")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, VERIF)
from checks.table import CHECKS, VARIANTS  # noqa: E402

START = time.time()
WALL = int(os.environ.get("VH_WALL", "780" if TIER == "quick" else "100000"))


def include_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "include"), os.path.join(VERIF, "lib")):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def compile_variant(pid, vname, inc_hash):
    v = VARIANTS[vname]
    src = os.path.join(VERIF, "checks", pid + ".cpp")
    extra = CHECKS[pid].get("flags", [])
    base = [v["cxx"], "-std=c++20", "-w"] + v["flags"] + extra + [
        '-DDATA_DIR="%s"' % os.path.join(VERIF, "data"),
        "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "lib", "sha3"),
        "-I" + os.path.join(VERIF, "checks"), "-I" + os.path.join(REPO, "include"), src]
    libs = ["-lgmpxx", "-lgmp", "-lpthread"]
    with open(src, "rb") as fh:
        body = fh.read()
    for inc in re.findall(rb'#include "([A-Za-z0-9_]+\.inc)"', body):
        with open(os.path.join(VERIF, "checks", inc.decode()), "rb") as fh:
            body += fh.read()
    key = hashlib.sha256(inc_hash.encode() + body + " ".join(base + libs).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s-%s" % (pid, vname, key))
    if os.path.exists(exe):
        return exe, None
    for old in os.listdir(BUILD):
        if old.startswith("%s-%s-" % (pid, vname)):
            try:
                os.unlink(os.path.join(BUILD, old))
            except OSError:
                pass
    # A harness that doesn't build any more is tried once more without its calls of
    # helpers that only the library's own code uses and that may have gone.
    err = ""
    for attempt in ([], ["-DVH_MINIMAL"]):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(base + attempt + ["-o", tmp] + libs, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            os.rename(tmp, exe)
            return exe, None
        err = r.stdout
    return None, err


def load_known(pid):
    known, path = [], os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*)/ -- (.*)", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return known


def entries(pid):
    """(name, harness, variant, scale, keys): the check's own harness, and other
    checks' workloads it borrows ("also"), of which only the keys in
    "also_keys" are this property's business."""
    c = CHECKS[pid]
    for v, scale in c["variants"].items():
        yield v, pid, v, scale, None
    for (h, v), scale in c.get("also", {}).items():
        yield h + "/" + v, h, v, scale, c["also_keys"]


def run_variant(pid, hpid, vname, scale, exe, tmp, replay=None):
    v, c = VARIANTS[vname], CHECKS[hpid]
    out = os.path.join(tmp, hpid + vname + ".json")
    wtmp = os.path.join(tmp, hpid + vname)
    os.makedirs(wtmp, exist_ok=True)
    if isinstance(scale, tuple):
        scale = scale[1 if TIER == "thorough" else 0]
    # A case that runs over its limit is run once more with 1.5 times the limit: both
    # must fit the time a quick check may take.
    cpu = int(c.get("cpu", 120) * v.get("slow", 1))
    if TIER != "thorough":
        cpu = min(cpu, 220)
    cmd = list(v.get("wrap", [])) + [exe, "--seed", str(SEED), "--scale", str(scale), "--tmp", wtmp,
                                     "--cpu", str(cpu)]
    if TIER == "thorough":
        cmd.append("--thorough")
    if replay:
        cmd += ["--replay", replay]
    else:
        cmd += ["--out", out]
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=0:malloc_context_size=3:quarantine_size_mb=16",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
        "MSAN_OPTIONS": "exitcode=66:poison_in_malloc=1",
        "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4",
    })
    env.update(v.get("env", {}))
    t0 = time.time()
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=min(WALL, max(30, WALL + 70 - (time.time() - START))), preexec_fn=big_stack)
    except subprocess.TimeoutExpired:
        return {"error": "wall clock watchdog (inconclusive)"}
    if replay:
        sys.stdout.write(r.stdout + r.stderr)
        return {"rc": r.returncode}
    res = {"error": "exit %d: %s" % (r.returncode, r.stderr[-2000:])}
    if os.path.exists(out) and r.returncode in (0, 1):
        with open(out) as fh:
            res = json.load(fh)
    res["variant_wall"] = round(time.time() - t0, 2)
    return res


def big_stack():
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 256 << 20
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def build(pid, ih=None):
    ih = ih or include_hash()
    ents = list(entries(pid))
    with ThreadPoolExecutor(8) as ex:
        return dict(zip([e[0] for e in ents], ex.map(lambda e: compile_variant(e[1], e[2], ih), ents)))


def main():
    if sys.argv[1:] == ["--build-all"]:
        ih = include_hash()
        jobs = sorted({(e[1], e[2]) for p in CHECKS for e in entries(p)})
        with ThreadPoolExecutor(8) as ex:
            for (p, n), (exe, err) in zip(jobs, ex.map(lambda j: compile_variant(j[0], j[1], ih), jobs)):
                if not exe:
                    print("build failed:", p, n, (err or "")[-1500:])
        return 0
    pid = sys.argv[1]
    c = CHECKS[pid]
    t0 = time.time()
    exes = build(pid)
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        global SEED, TIER
        SEED, TIER = rep["seed"], rep["tier"]
        exe = exes[rep["variant"]][0]
        ent = next(e for e in entries(pid) if e[0] == rep["variant"])
        if rep["suite"] in ("finish",) or rep.get("whole"):
            print("statistical oracle over the whole run: re-run the check with VERIF_SEED=%d" % SEED)
            return 2
        with tempfile.TemporaryDirectory() as tmp:
            return run_variant(pid, ent[1], ent[2], ent[3], exe, tmp, "%s:%d" % (rep["suite"], rep["idx"]))["rc"]
    bad = {n: e for n, (x, e) in exes.items() if not x}
    if bad:
        for n, e in bad.items():
            print("CHECK-ERROR: %s variant %s does not compile:\n%s" % (pid, n, e[-3000:]))
        if len(bad) == len(exes):
            return 3
    build_wall = time.time() - t0
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = load_known(pid)
    results, viols, errors, hit_known, other = {}, [], [], {}, {}
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    try:
        for n, hpid, vname, scale, keys in entries(pid):
            exe = exes[n][0]
            if not exe:
                continue
            r = run_variant(pid, hpid, vname, scale, exe, tmp)
            results[n] = r
            if "error" in r:
                errors.append((n, r["error"]))
                continue
            for v in r["violations"]:
                v["variant"] = n
                if keys is not None and v["key"] not in keys:
                    other[v["key"]] = other.get(v["key"], 0) + 1
                    continue
                for key, rx, desc in known:
                    if v["key"] == key and rx.search(v["text"]):
                        hit_known[desc] = hit_known.get(desc, 0) + 1
                        break
                else:
                    viols.append(v)
            if viols:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for desc in hit_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    for i, v in enumerate(viols[:5]):
        path = os.path.join(OUT, "replay", "%s-%d.json" % (pid, i))
        with open(path, "w") as fh:
            json.dump({"property": pid, "variant": v["variant"], "suite": v["suite"], "idx": v["idx"],
                       "seed": SEED, "tier": TIER, "key": v["key"], "text": v["text"],
                       "whole": v["suite"] not in results[v["variant"]]["suites"]}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s] %s#%d %s: %s" % (v["variant"], v["suite"], v["idx"], v["key"], v["text"][:700]))
    good = {n: r for n, r in results.items() if "error" not in r}
    evals = sum(r["evaluations"] for r in good.values())
    per = {}
    for n, hpid, *_ in entries(pid):
        if n in good:
            per[hpid] = max(per.get(hpid, 0), good[n]["distinct"])
    dist = sum(per.values())
    samples = []
    for n, r in good.items():
        samples += ["[%s] %s" % (n, s) for s in r["samples"][:14]]
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": dist, "rule": c["rule"], "samples": samples[:24],
            "observed": {n: r["counters"] for n, r in good.items()},
            "cases_per_suite": {n: r["suites"] for n, r in good.items()},
            "variants": {n: {"compiler": VARIANTS[n.split("/")[-1]]["cxx"], "flags": " ".join(VARIANTS[n.split("/")[-1]]["flags"]),
                              "cases": r["cases"], "evaluations": r["evaluations"], "wall_s": r["variant_wall"]}
                         for n, r in good.items()},
        },
        "assumptions": c.get("assumptions", []) + [
            "lib/sha3/shake256.hpp stands in for the empty sha3 submodule",
            "held on the executions listed, nothing more"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if other:
        ev["coverage"]["failures_of_other_properties_in_borrowed_workloads"] = other
    if c.get("exhaustive"):
        ev["coverage"]["exhaustive_part"] = c["exhaustive"]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d evaluations, %d distinct, build %.1fs, total %.1fs" % (pid, evals, dist, build_wall, time.time() - t0))
    if viols:
        return 1
    for n, e in errors:
        print("CHECK-ERROR: %s variant %s: %s" % (pid, n, e))
    if errors:
        return 3
    if bad:
        return 3
    if evals == 0 or dist == 0:
        print("CHECK-ERROR: nothing was observed")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
