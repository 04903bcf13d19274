#!/usr/bin/env python3
"""Plant a bug: python3 plant.py SPEC.py...  (SPEC defines id, property, edits, demo, needs, breaks).
Applies it to a scratch clone of /repo, builds, runs the tests and the demo, runs the property's check on the clone."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/prepo"  # scratch clone of /repo, so /repo itself is never touched
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd /repo after the build.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -g -w -include stdint.h %s-Isrc/include "$D/demo.cpp" $(find src -name '*.cpp') -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def restore(): sh(f"git -C {R} checkout -q -- .")
def tests():
    """the repository's build and stable tests, on the scratch clone"""
    p = sh(f"CC=gcc CXX=g++ cmake -S {R} -B {R}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DTESTING=ON -DSAMPLES=ON "
           "-DCMAKE_CXX_FLAGS='-include stdint.h' -DCMAKE_CXX_FLAGS_DEBUG=-Wno-error "
           f"-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/gtest.cmake && ninja -C {R}/_build")
    if p.returncode: return p.stdout[-800:]
    b = f"{R}/_build/tests/test_all"
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    suites = [l[:-1] for l in sh(f"{b} --gtest_list_tests").stdout.splitlines() if l.endswith(".") and not l.startswith(" ")]
    ok = set()
    from concurrent.futures import ThreadPoolExecutor
    def one(s): return sh(f"timeout -k 5 120 {b} --gtest_color=no --gtest_filter='{s}.*'").stdout
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, suites):
            ok |= set(re.findall(r"\[       OK \] (\S+) \(", o))
    bad = [w for w in want if w not in ok]
    return "ok" if not bad else "failed tests " + str(bad[:5])
def go(spec, recheck=False):
    s = {}
    exec(open(spec).read(), s)
    i, d = s["id"], f"{V}/seeded/{s['id']}"
    res = {}
    try:
        for f, a, b in s["edits"]:
            t = open(f"{R}/{f}").read()
            if t.count(a) != 1:
                print(i, "EDIT", f, "matches", t.count(a)); return
            open(f"{R}/{f}", "w").write(t.replace(a, b))
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
        open(d + "/demo.cpp", "w").write(s["demo"])
        san = "-fsanitize=address,undefined -fno-sanitize-recover=all " if s.get("san") else ""
        open(d + "/demo.sh", "w").write(DEMO % san)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        res["tests"] = tests()
        p = sh(f"bash {d}/demo.sh", cwd=R)
        res["demo+"] = p.returncode
        c = sh(f"python3 bin/check.py {s['property']} --tier quick --repo {R}", cwd=V)
        res["check"] = c.returncode
        res["say"] = [l for l in c.stdout.splitlines() if "iolation" in l or "VIOL" in l][:1]
        if c.returncode not in (0, 1): res["say"] = c.stdout[-300:]
    finally:
        restore()
    p = sh(f"bash {d}/demo.sh", cwd=R)
    res["demo0"] = p.returncode
    if p.returncode: res["demo0out"] = p.stdout[-600:]
    ok = res["tests"] == "ok" and res["demo0"] == 0 and res["demo+"] not in (0, 3)
    print(i, s["property"], "VALID" if ok else "INVALID", "CAUGHT" if res["check"] == 1 else "MISSED", res, flush=True)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
if sh(f"git -C {R} rev-parse HEAD").stdout.strip() != head:
    sh(f"rm -rf /tmp/prepo && git clone -q /repo {R}")
restore()
for f in sys.argv[1:]: go(f)
