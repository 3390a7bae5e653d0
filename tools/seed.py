#!/usr/bin/env python3
"""Build and confirm planted bugs.

  seed.py make FILE.py [id ...]   write /verif/seeded/<id> for every bug defined in FILE that survives
                                  the repository's stable tests, and whose demo tells it apart
  seed.py hunt [id ...]           apply each kept bug to /repo, run its property's check, undo

A definition file calls bug(id, property, file, [(old, new), ...], needs, breaks, demo_cpp).
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get("VERIF", "/verif")
R = "/repo"
BUGS = []
HEAD = r'''#include <gal/cga.hpp>
#include <gal/format.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>
#include <cmath>
#include <cstdio>
#include <string>
#define CHECK(c) do { if (!(c)) { std::printf("demo line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
'''
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -w -I public "$here/demo.cpp" -o "$work/demo" || exit 1
"$work/demo"
'''


def bug(id, prop, file, subs, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, subs=subs, needs=needs, breaks=breaks, demo=HEAD + demo))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def base():
    return sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.split()[0] if False else \
        sh(f"git -C {R} log --format=%H --grep '^fix:' --invert-grep -1").stdout.strip()


def make(b):
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        sh(f"git -C {R} archive HEAD | tar -x -C {w}; git -C {w} init -q; git -C {w} add -A; git -C {w} -c user.name=x -c user.email=x commit -qm x")
        p = f"{w}/public/gal/{b['file']}"
        s = open(p).read()
        for old, new in b["subs"]:
            if s.count(old) != 1:
                return b["id"], f"DEF text occurs {s.count(old)} times: {old[:60]!r}"
            s = s.replace(old, new)
        open(p, "w").write(s)
        diff = sh(f"git -C {w} diff").stdout
        # every removed line must be one of the original repository's
        orig = sh(f"git -C {R} show {base()}:public/gal/{b['file']}").stdout.splitlines()
        foreign = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
        if foreign:
            return b["id"], f"OURS {foreign[0]!r}"
        r = sh(f"cmake -S {w} -B {w}/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGAL_TESTS_ENABLED=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/doctest-shim && ninja -C {w}/_b -j2")
        if r.returncode:
            return b["id"], "BUILD " + (re.findall(r"error:.*", r.stdout) or [""])[0][:120]
        os.makedirs(f"{w}/rep")
        sh(f"python3 /opt/vp/run_doctest.py {w}/_b/bin/gal_test {w}/rep; python3 /opt/vp/results.py {w}/out.json 'junit:{w}/rep/*.xml' 'lines:{w}/rep/crashed.txt'")
        passed = {t.replace(w, R) for t in json.load(open(f"{w}/out.json"))["passed"]}
        base_json = json.load(open("/opt/vp/BASELINE.json"))
        stable = base_json.get("stable") or base_json.get("passed") or base_json.get("tests")
        lost = [t for t in stable if t not in passed]
        if lost:
            return b["id"], f"TESTS {len(lost)} fail: {lost[:2]}"
        d = f"{w}/seed"
        os.makedirs(d)
        open(f"{d}/demo.cpp", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        ok = sh(f"bash {d}/demo.sh", cwd=R)
        bad = sh(f"bash {d}/demo.sh", cwd=w)
        if ok.returncode:
            return b["id"], "DEMO fails unchanged: " + (ok.stdout + ok.stderr)[:300]
        if bad.returncode == 0:
            return b["id"], "DEMO passes with the bug"
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        out = f"{V}/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return b["id"], "kept (" + ((bad.stdout or bad.stderr).strip().splitlines() or ["exit %d" % bad.returncode])[0][:90] + ")"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def hunt_one(i):
    """Run the property's check against a copy of the tree with the bug in it (VERIF_REPO)."""
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    w = tempfile.mkdtemp(prefix="hunt_")
    try:
        sh(f"git -C {R} archive HEAD | tar -x -C {w}; git -C {w} init -q")
        if sh(f"git -C {w} apply {V}/seeded/{i}/patch.diff").returncode:
            return i, "does not apply"
        r = sh(f"VERIF_REPO={w} VERIF_SEED=1 VERIF_TIER=quick {V}/bin/check {meta['property']} quick")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return i, f"{meta['property']} exit {r.returncode} {v[0] if v else (r.stderr or r.stdout)[-200:]!r}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def hunt(ids):
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for i, msg in ex.map(hunt_one, ids):
            print(f"{i:34s} {msg}", flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        exec(open(sys.argv[2]).read())
        todo = [b for b in BUGS if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(5) as ex:
            for i, msg in ex.map(make, todo):
                print(f"{i:34s} {msg}", flush=True)
    else:
        hunt(sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")))
