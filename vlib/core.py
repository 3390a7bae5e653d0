"""Shared plumbing: paths, scratch space, TLC runs, compiler runs, verdicts."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
P = 46337
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = os.environ.get("VERIF_CXX", "g++")
CXXFLAGS = ["-std=c++17", "-O0", "-w", "-I", os.path.join(REPO, "public"), "-I", HARNESS,
            "-ftemplate-depth=4096", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000",
            "-fconstexpr-depth=4096"]


class ModelError(Exception):
    """The machinery itself failed (not a verdict about the code)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.t0 = time.time()
        self.violations = []   # (what, replay dict)
        self.known = []
        self.cov = {}          # coverage counters
        self.notes = []
        self.samples = []

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def elapsed(self):
        return time.time() - self.t0

    def scratch(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


TLA_CP = None


def tla_classpath():
    global TLA_CP
    if TLA_CP is None:
        d = "/opt/veriftools/tla"
        jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
        TLA_CP = ":".join(jars)
    return TLA_CP


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
SIM = re.compile(r"The number of states generated: (\d+)")


def tlc(ctx, module, args=(), env=None, heap="2g", timeout=800, cfg=None, tag=None, workers=1):
    """One TLC run; returns (stdout, returncode). Raises ModelError on a model failure."""
    tag = tag or module
    meta = ctx.scratch("tlc_%s/meta" % tag)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + os.path.dirname(meta),
           "-cp", tla_classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ModelError("TLC timed out on %s" % tag)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    for m in STATS.finditer(r.stdout):
        last = m
    m = None
    for m in STATS.finditer(r.stdout):
        pass
    if m:
        ctx.add("transitions", int(m.group(1)))
        ctx.add("states", int(m.group(2)))
    else:
        m = SIM.search(r.stdout)
        if m:
            ctx.add("states", int(m.group(1)))
            ctx.add("transitions", int(m.group(1)))
    return r.stdout, r.returncode


def tlc_retry(ctx, module, marker, tries=2, **kw):
    """Run until the completion marker is printed; otherwise a model failure."""
    out = ""
    for i in range(tries):
        out, rc = tlc(ctx, module, **kw)
        if marker in out:
            return out
        time.sleep(1)
    raise ModelError("TLC did not complete %s:\n%s" % (kw.get("tag", module), out[-3000:]))


def parse_tuples(out, tag):
    """Lines <<"TAG", "json">> printed by PrintT."""
    res = []
    pre = '<<"%s", "' % tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('">>'):
            res.append(json.loads(json.loads(line[len(pre) - 1:-2])))
    return res


def check_model(ctx, module, cfg=None, tag=None, workers=4, heap="4g", timeout=800, env=None):
    """Exhaustive model check of laws on the specification. A failure here is a defect of the
    specification, never a verdict about the code."""
    for i in range(2):
        out, rc = tlc(ctx, module, cfg=cfg, tag=tag or (cfg or module), workers=workers, heap=heap,
                      timeout=timeout, env=env)
        if rc == 0 and "No error has been found" in out:
            ctx.add("model_runs", 1)
            ctx.add("model_states", int(re.findall(r"(\d+) distinct states found", out.replace(",", ""))[-1]))
            return out
    raise ModelError("model check of %s failed:\n%s" % (module, out[-3000:]))


HEAVY = "compiler out of resources"


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def compile_cpp(src, exe, flags=(), timeout=300, cxx=None):
    """A compilation that exhausts its memory or time is not a verdict about the program (HEAVY)."""
    first = [f for f in flags if f.startswith("-I")]        # takes precedence over the library's own
    cmd = [cxx or CXX] + first + CXXFLAGS + [f for f in flags if f not in first] + [src, "-o", exe]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=limit_memory, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return False, HEAVY
    if p.returncode != 0 and ("out of memory" in out or "virtual memory exhausted" in out or "Killed signal" in out):
        return False, HEAVY
    return p.returncode == 0, out


WEAK = """#pragma once
#define crc32 crc32_strong
#include "crc_strong.hpp"
#undef crc32
namespace gal { namespace detail {
[[nodiscard]] constexpr crc_t crc32(crc_t in) noexcept { return (in ^ (in >> 8)) & %d; }
}}
"""


def weak_tree(ctx, mask):
    """A copy of the library in which the checksum collides all the time; returns its include flag."""
    d = ctx.scratch("weak%d/gal" % mask)
    if not os.path.exists(d):
        shutil.copytree(os.path.join(REPO, "public", "gal"), d)
        os.rename(os.path.join(d, "crc.hpp"), os.path.join(d, "crc_strong.hpp"))
        open(os.path.join(d, "crc.hpp"), "w").write(WEAK % mask)
    return "-I" + os.path.dirname(d)


def pmap(f, xs, n=None):
    xs = list(xs)
    if not xs:
        return []
    with ThreadPoolExecutor(max_workers=n or JOBS) as ex:
        return list(ex.map(f, xs))
