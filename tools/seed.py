#!/usr/bin/env python3
"""Development tool (no check uses it): makes and tries planted bugs.

seed.py make SEEDS.py [ID..]   write seeded/<ID>/ from a list of edits, after confirming in a
                               scratch copy that it builds, passes the stable tests, and that
                               the demonstration fails with it and passes without it
seed.py try [ID..] [--prop C]  run the check of each planted bug's property on a scratch copy"""
import json, os, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sw"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def scratch():
    if not os.path.isdir(S):
        sh(f"git clone -q /repo {S}")
    r = sh(f"cd {S} && git fetch -q origin && git reset -q --hard origin/HEAD && git clean -qfd -e _build")
    assert r.returncode == 0, r.stdout

def tests():
    r = sh(f"cmake -S {S}/test -B {S}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_PROJECT_test_zerialize_INCLUDE=/opt/vp/cmake/deps.cmake "
           f"-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DZERIALIZE_ENABLE_JSON=OFF -DZERIALIZE_ENABLE_CBOR=OFF && ninja -C {S}/_build test_zerialize", env=dict(os.environ, CC="gcc", CXX="g++"))
    if r.returncode:
        return "does not build: " + r.stdout[-1500:]
    r = sh(f"cd {S}/_build && timeout -k 5 300 stdbuf -oL ./test_zerialize > test_output.txt; rc=$?; python3 /opt/vp/parse.py $rc < test_output.txt > test_results.txt; python3 /opt/vp/results.py {S}/_build/out.json lines:{S}/_build/test_results.txt")
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    got = set(json.load(open(f"{S}/_build/out.json"))["passed"])
    return "tests fail: " + str(sorted(want - got)[:5]) if want - got else None

DEMO_SH = '''#!/bin/bash
# Builds the demonstration beside this script against ./include and runs it.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -O0 -w %s -include memory -I include -I /opt/vp/compat -I /usr/include/eigen3 "$here/demo.cpp" -o "$out/demo" -lmsgpackc -lflatbuffers
"$out/demo"
'''

def make(path, only):
    spec = importlib.util.spec_from_file_location("seeds", path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        scratch()
        for f, old, new in s["edits"]:
            p = f"{S}/include/zerialize/{f}"; t = open(p).read()
            assert t.count(old) == 1, (s["id"], t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {S} diff").stdout
        d = f"/tmp/seedtmp/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.cpp", "w").write(s["demo"])
        if s.get("stub"): shutil.copytree(f"{V}/drivers/stub", f"{d}/stub"); s["flags"] = '-I "$here/stub"'
        open(f"{d}/demo.sh", "w").write(DEMO_SH % s.get("flags", "")); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        bad = tests()
        a = sh(["bash", f"{d}/demo.sh"], cwd="/repo"); b = sh(["bash", f"{d}/demo.sh"], cwd=S)
        if bad or a.returncode or not b.returncode or "error:" in b.stdout:
            print(s["id"], "NOT KEPT:", bad, "| unchanged:", a.returncode, a.stdout[-800:], "| changed:", b.returncode, b.stdout[-800:]); continue
        t = f"{V}/seeded/{s['id']}"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
        print(s["id"], "kept; demo with the change:", b.returncode, b.stdout.strip()[-120:])

def attempt(ids, prop):
    res = {}
    for i in ids or sorted(os.listdir(f"{V}/seeded")):
        scratch()
        r = sh(f"git -C {S} apply {V}/seeded/{i}/patch.diff"); assert r.returncode == 0, r.stdout
        p = prop or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        r = sh(["python3", "run.py", p, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=S))
        line = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and line else "MISSED " + r.stdout[-600:], flush=True)
    scratch()

if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        a = sys.argv[2:]; prop = None
        if "--prop" in a: k = a.index("--prop"); prop = a[k + 1]; del a[k:k + 2]
        attempt(a, prop)
