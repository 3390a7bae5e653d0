#!/usr/bin/env python3
"""Edits that keep the behaviour: every check has to stay quiet on them.

  quiet.py [--all] [id ...]    apply each to a scratch copy, run its stable tests, then the checks
                               of the properties it names (with --all: every check)
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get("VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = "/repo"
EDITS = []


def edit(id, props, file, subs):
    EDITS.append((id, props.split(), file, subs))


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def run(e, every):
    id, props, file, subs = e
    w = tempfile.mkdtemp(prefix="quiet_")
    try:
        sh(f"git -C {R} archive HEAD | tar -x -C {w}; git -C {w} init -q")
        p = f"{w}/public/gal/{file}"
        s = open(p).read()
        for old, new in subs:
            if s.count(old) < 1:
                return id, ["DEF no such text: %r" % old[:70]]
            s = s.replace(old, new)
        open(p, "w").write(s)
        r = sh(f"cmake -S {w} -B {w}/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGAL_TESTS_ENABLED=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/doctest-shim && ninja -C {w}/_b -j4 && {w}/_b/bin/gal_test")
        if r.returncode:
            return id, ["TESTS " + (re.findall(r"error.*", r.stdout, re.I) or [r.stdout[-200:]])[0][:200]]
        res = []
        for c in (["C%02d" % i for i in range(1, 18)] if every else props):
            r = sh(f"VERIF_REPO={w} VERIF_SEED=1 VERIF_TIER=quick {V}/bin/check {c} quick")
            skipped = [l for l in (r.stdout + r.stderr).splitlines() if "skipped" in l or "not compile" in l]
            res.append(f"{c} quiet" if r.returncode == 0 else f"{c} EXIT {r.returncode} {[l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1]}")
            if skipped:
                res.append(skipped[0][:200])
        return id, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "--all"]
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "edits.py")).read())
    todo = [e for e in EDITS if not a or e[0] in a]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for id, res in ex.map(lambda e: run(e, "--all" in sys.argv), todo):
            print(f"{id:24s} " + "; ".join(res), flush=True)
