#!/usr/bin/env python3
"""Builds and runs the model-checking harness of one property.

  check.py C06 [--tier quick|thorough] [--scope NAME] [--replay FILE] [--repo DIR]

Exit 0: the property held on everything explored. Exit 1 (and a VIOLATION line):
it does not. Everything is rebuilt from the repository's working tree.
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,alignment,pointer-overflow,object-size",
       "-fno-sanitize-recover=all"]
BASE = ["-g1", "-O1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-D_GLIBCXX_ASSERTIONS", "-w", "-pipe", "-include", "stdint.h"] + SAN

ENV_OPTS = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:"
                    "max_malloc_fill_size=8192:malloc_fill_byte=190:max_free_fill_size=64:"
                    "quarantine_size_mb=8:thread_local_quarantine_size_kb=64:hard_rss_limit_mb=3600:"
                    "allocator_may_return_null=0:handle_abort=1:print_legend=0:malloc_context_size=6:"
                    "detect_odr_violation=0:alloc_dealloc_mismatch=1:fast_unwind_on_malloc=1:"
                    "max_allocation_size_mb=2500:symbolize=0",
    "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=77",
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def meta(src):
    """Directives in the first lines of a harness: '// modules: random math_utils', '// flags: ...'."""
    m = {"modules": [], "flags": [], "libflags": []}
    for line in open(src):
        r = re.match(r"//\s*(modules|flags|libflags):\s*(.*)", line)
        if r:
            m[r.group(1)] += r.group(2).replace("@VERIF@", VERIF).split()
        elif not line.startswith("//"):
            break
    return m

def build(prop, repo, bdir):
    src = os.path.join(VERIF, "harness", prop + ".cpp")
    m = meta(src)
    inc = ["-I" + os.path.join(repo, "src", "include"), "-I" + os.path.join(VERIF, "lib")]
    jobs = []
    def lib_jobs(files):
        r = []
        for f in files:
            o = os.path.join(bdir, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(f, repo)) + ".o")
            r.append((o, [CXX, "-std=c++11"] + BASE + m["libflags"] + inc + ["-c", f, "-o", o]))
        return r
    allsrc = sorted(f for f in glob.glob(os.path.join(repo, "src", "**", "*.c*"), recursive=True)
                    if f.endswith((".cpp", ".cc", ".cxx")))
    def mod(f):
        return os.path.relpath(f, os.path.join(repo, "src")).split(os.sep)[0]
    first = [f for f in allsrc if mod(f) in m["modules"]]
    rest = [f for f in allsrc if f not in first]
    ho = os.path.join(bdir, prop + ".o")
    jobs = [(ho, [CXX, "-std=c++14"] + BASE + m["flags"] + inc + ["-c", src, "-o", ho])] + lib_jobs(first)
    exe = os.path.join(bdir, prop)
    def compile1(j):
        r = sh(j[1])
        if r.returncode and j[0] == ho:
            # element types of the harness's own may lack operations that the library asks for: do without them
            r2 = sh(j[1] + ["-DMC_PLAIN"])
            if r2.returncode == 0:
                sys.stdout.write("note: harness built without its own element types\n")
                r = r2
        return r
    def run(jobs):
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for (o, c), r in zip(jobs, ex.map(compile1, jobs)):
                if r.returncode:
                    sys.stdout.write("build failed: %s\n%s\n" % (" ".join(c), r.stdout))
                    sys.exit(2)
        return [o for o, _ in jobs]
    objs = run(jobs)
    def link(objs):
        return sh([CXX] + BASE + objs + ["-Wl,--wrap=exit,--wrap=_Exit,--wrap=quick_exit", "-lpthread", "-o", exe])
    r = link(objs)
    if r.returncode:  # needs other modules as well
        objs += run(lib_jobs(rest))
        r = link(objs)
        if r.returncode:
            sys.stdout.write("link failed\n" + r.stdout)
            sys.exit(2)
    return exe

def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            r = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if r and r.group(1) == prop:
                res[r.group(2)] = r.group(3).strip()
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scope")
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int, default=max(2, min(16, os.cpu_count() or 8)))
    ap.add_argument("--keep")
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = a.keep or tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(bdir, exist_ok=True)
    replaydir = os.path.join(VERIF, "out", "replay")
    os.makedirs(replaydir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    env = dict(os.environ, **ENV_OPTS)
    env["LC_ALL"] = "C"
    try:
        exe = build(prop, a.repo, bdir)
        bt = time.time() - t0
        if a.replay:
            r = subprocess.run([exe, "--replay", a.replay], env=env)
            return r.returncode
        known = known_findings(prop)
        res = os.path.join(bdir, "result.json")
        cmd = [exe, "--tier", a.tier, "--out", res, "--replaydir", replaydir, "--property", prop,
               "--workers", str(a.workers), "--seed", str(seed),
               "--cap", str(a.cap or (540 if a.tier == "quick" else 7200))]
        for k in known:
            cmd += ["--known", k]
        if a.scope:
            cmd += ["--scope", a.scope]
        sys.stdout.flush()
        p = subprocess.run(cmd, env=env)
        if not os.path.exists(res):
            print("checker ended with status %s without a result" % p.returncode)
            return 2
        d = json.load(open(res))
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sc = d["scopes"]
    samples = [{"scope": s["name"], "trace": t} for s in sc for t in s["samples"] if t.strip()]
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in sc),
            "transitions": sum(s["transitions"] for s in sc),
            "traces_validated_against_impl": sum(s["executions"] for s in sc),
            "exhaustive": all(s["exhausted"] for s in sc) and not d["violated"],
            "samples": samples[:24] or [{"scope": s["name"]} for s in sc] or ["none"],
            "scopes": [{k: v for k, v in s.items() if k != "samples"} for s in sc],
        },
        "assumptions": [
            "x86-64 Linux, g++ with AddressSanitizer, UBSan and libstdc++ assertions",
            "bounds as stated per scope in DESIGN.md; within them every choice sequence is executed",
            "exit() is intercepted at link time; the reference models in harness/%s.cpp are trusted" % prop],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if d["violated"] else 0,
    }
    if d["known"]:
        ev["coverage"]["known_findings"] = d["known"]
    if not a.scope:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in d["known"]:
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, known.get(k["key"], k["key"]), k["count"]))
    print("%s %s: build %.1fs, total %.1fs, states=%d transitions=%d executions=%d" % (
        prop, a.tier, bt, time.time() - t0, ev["coverage"]["states"], ev["coverage"]["transitions"],
        ev["coverage"]["traces_validated_against_impl"]))
    if d["violated"]:
        print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
