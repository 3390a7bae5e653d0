#!/usr/bin/env python3
"""Mutation testing of the checks.

  mutate.py make DIR N SEED [file ...]  random small edits of the headers that compile and pass the stable tests
  mutate.py hunt DIR                    run the checks that concern the file against each, until one reports it
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V, R = os.environ.get("VERIF", "/verif"), "/repo"
CHECKS = {
    "expr": "C04 C09 C12 C03", "dfa": "C05 C12 C09 C03", "algebra": "C02 C10 C09 C03",
    "null_algebra": "C08", "geometric_algebra": "C01", "engine": "C03 C09 C12 C14", "entity": "C11 C06 C14 C03",
    "numeric": "C07 C16 C01 C02 C03", "crc": "C16", "stack": "C15 C05", "tuple": "C15 C12", "algorithm": "C15 C02",
    "pga": "C11 C13 C03", "pga2": "C11 C13 C03", "vga": "C11 C13 C03 C14", "cga": "C08 C11 C13", "format": "C17"}
SUBS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
        (r" < ", " > "), (r" > ", " < "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" \*= ", " = "), (r" \+= ", " = "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \* ", " + "), (r" & ", " | "), (r" \^ ", " | "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\bone\b", "minus_one"), (r"\bminus_one\b", "one"),
        (r"\bone_half\b", "one"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"),
        (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"if \((.*)\)$", r"if (!(\1))"), (r"\+\+", "--"), (r"-(?=[a-z])", ""),
        (r"\bnum\b", "den"), (r"\bden\b", "num"), (r"\blhs_", "rhs_"), (r"\brhs_", "lhs_"), (r"\bcount\b", "ex"), (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x")]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def candidates(files):
    out = []
    for f in files:
        p = f"{R}/public/gal/{f}.hpp"
        lines = open(p).read().split("\n")
        debug = 0
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#ifdef GAL_DEBUG"):
                debug = 1
            elif debug and s.startswith("#if"):
                debug += 1
            elif debug and s.startswith("#endif"):
                debug -= 1
            if debug or not s or s.startswith(("#", "//", "template", "using", "static_assert", "namespace", "[[nodiscard]]", "GAL_NODISCARD", "struct", "rpn_")):
                continue
            code = l.split("//")[0].rstrip()
            for a, b in SUBS:
                ms = list(re.finditer(a, code))
                for m in ms:
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    out.append((f, n, new))
            if re.match(r"^\s+[\w.\->\[\]*& :+]*( =| \+=| \*=|\+\+|\()[^{]*;$", code) and not re.match(r"^\s+(auto|constexpr|const|return|using|width_t|rat|bool|size_t|uint32_t|int)\b", code):
                out.append((f, n, re.match(r"^\s*", l).group(0) + ";"))
    return out


def test(job):
    i, (f, n, new), out = job
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        sh(f"git -C {R} archive HEAD | tar -x -C {w}; git -C {w} init -q; git -C {w} add -A; git -C {w} -c user.name=x -c user.email=x commit -qm x")
        p = f"{w}/public/gal/{f}.hpp"
        lines = open(p).read().split("\n")
        old = lines[n]
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        what = f"{f}:{n + 1}: {old.strip()}  ->  {new.strip()}"
        try:
            r = sh(f"cmake -S {w} -B {w}/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGAL_TESTS_ENABLED=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/doctest-shim && ninja -C {w}/_b -j1", timeout=300)
            if r.returncode:
                return "nocompile", what
            os.makedirs(f"{w}/rep")
            sh(f"python3 /opt/vp/run_doctest.py {w}/_b/bin/gal_test {w}/rep; python3 /opt/vp/results.py {w}/out.json 'junit:{w}/rep/*.xml' 'lines:{w}/rep/crashed.txt'", timeout=120)
            passed = {t.replace(w, R) for t in json.load(open(f"{w}/out.json"))["passed"]}
            b = json.load(open("/opt/vp/BASELINE.json"))
            if any(t not in passed for t in (b.get("stable") or b.get("passed") or b.get("tests"))):
                return "tests", what
        except subprocess.TimeoutExpired:
            return "timeout", what
        open(f"{out}/{i:04d}.diff", "w").write(sh(f"git -C {w} diff").stdout)
        json.dump(dict(file=f, what=what), open(f"{out}/{i:04d}.json", "w"))
        return "KEPT", what
    finally:
        shutil.rmtree(w, ignore_errors=True)


def hunt(out, d):
    j = json.load(open(f"{out}/{d}.json"))
    if "result" in j:
        return j
    w = tempfile.mkdtemp(prefix="hunt_")
    try:
        sh(f"git -C {R} archive HEAD | tar -x -C {w}; git -C {w} init -q")
        if sh(f"git -C {w} apply {out}/{d}.diff").returncode:
            j["result"] = "does not apply"
        else:
            j["result"] = "MISSED"
            for c in CHECKS[j["file"]].split():
                r = sh(f"VERIF_REPO={w} VERIF_SEED=1 VERIF_TIER=quick {V}/bin/check {c} quick")
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if v:
                    j["result"] = "%s (after %s)" % (c, j.get("tried", ""))
                    break
                j["tried"] = j.get("tried", "") + " %s:%d" % (c, r.returncode)
        json.dump(j, open(f"{out}/{d}.json", "w"))
        return j
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    out = sys.argv[2]
    os.makedirs(out, exist_ok=True)
    if sys.argv[1] == "make":
        n, seed = int(sys.argv[3]), int(sys.argv[4])
        files = sys.argv[5:] or list(CHECKS)
        rnd = random.Random(seed)
        by = {f: candidates([f]) for f in files}
        jobs = []
        for i in range(n):      # files evenly-ish, larger ones more often
            f = rnd.choices(files, [len(by[x]) ** 0.6 for x in files])[0]
            jobs.append((seed * 1000 + i, by[f][rnd.randrange(len(by[f]))], out))
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
            for st, what in ex.map(test, jobs):
                print(st, what, flush=True)
    else:
        ids = sorted(f[:-5] for f in os.listdir(out) if f.endswith(".json"))
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
            for d, j in zip(ids, ex.map(lambda d: hunt(out, d), ids)):
                print(d, j["result"], "|", j["what"], flush=True)
