"""Generated expression programs: from TLC behaviours to compiled compute() calls and back."""
import json, os, subprocess
from .core import *

SAN = []


def everything(ctx, what, stride, tag=""):
    """All behaviours of spec/GenAll.tla within its bound (set/length), or every stride-th of them."""
    name, length = what.split("/")
    for attempt in range(2):
        out, rc = tlc(ctx, "GenAll", env={"ALL_SET": name, "ALL_LEN": length, "ALL_STRIDE": str(stride), "ALL_PHASE": str(ctx.seed % stride)},
                      tag="all_%s_%s%s" % (name, length, tag))
        if "No error has been found" in out:
            break
    else:
        raise ModelError("enumeration failed:\n" + out[-2000:])
    progs = parse_tuples(out, "GEN")
    for p in progs:
        p["direct"] = p["tup"] = False
    ctx.add("enumerated_programs", len(progs))
    return progs


def generate(ctx, profile, num, alg="mix", seed=None, tag=""):
    """Behaviours of spec/Gen.tla (TLC simulation, seeded)."""
    if profile == "all":
        return everything(ctx, alg, num, tag)
    seed = ctx.seed if seed is None else seed
    for attempt in range(2):
        out, rc = tlc(ctx, "Gen", args=["-simulate", "num=%d" % num, "-depth", "100", "-seed", str(seed)],
                      env={"GEN_PROFILE": profile, "GEN_ALG": alg}, tag="gen_%s_%s_%s%s" % (profile, alg, seed, tag))
        progs = parse_tuples(out, "GEN")
        if len(progs) >= num:    # TLC may evaluate a final step twice
            break
    else:
        raise ModelError("generation failed (%d of %d):\n%s" % (len(progs), num, out[-2000:]))
    seen, res = set(), []
    for p in progs:
        if not p["code"] and not p["read"]:
            continue
        k = json.dumps([p["alg"], p["ins"], p["code"], p["outs"], p["read"]])
        if k in seen:
            continue
        seen.add(k)
        p["direct"] = profile == "reading"   # the argument itself is read, without a computation
        p["tup"] = profile == "tuple"
        p["keeps"] = profile in ("bind", "bindl", "bindw")
        res.append(p)
    return res


NS = {"vga": "gal::vga", "pga": "gal::pga", "pga2": "gal::pga2", "cga": "gal::cga",
      "sta": "vh::sta", "mixed": "vh::mixed", "flat": "vh::flat", "deep": "vh::deep", "cra": "vh::cra"}
ALG = {g: "%s::%s_algebra" % (NS[g], g) for g in NS}
FIELDS = {"vector": 3, "rotor": 5, "translator": 4, "motor": 8, "plane": 4, "line": 6, "vpoint": 3, "point": 3,
          "scalar": 1, "real": 1}
CTOR = {"rotor": 4}


def nfields(g, inp):
    k = inp["kind"]
    if k == "ent":
        return len(inp["es"])
    if g == "pga" and k == "point":
        return 4
    if g == "pga2" and k == "line":
        return 3
    if g == "pga2" and k in ("point", "vector"):
        return 2
    return FIELDS[k]


def ctype(g, inp):
    k = inp["kind"]
    if k == "ent":
        return "gal::entity<%s, T%s>" % (ALG[g], "".join(", %d" % e for e in inp["es"]))
    if k == "scalar":
        return "gal::scalar<%s, T>" % ALG[g]
    if k == "real":
        return "T"
    if k == "vpoint":
        return "gal::vga::point<T>"
    return "%s::%s<T>" % (NS[g], k)


def decl(g, inp, i):
    k = inp["kind"]
    t = ctype(g, inp)
    if k == "real":
        return "T x%d = vh::io<T>::in(*v++);" % i
    if k == "ent" and not inp["es"]:
        return "%s x%d{};" % (t, i)
    if k == "scalar" and i % 2 == 1:
        return "%s x%d{vh::io<T>::in(*v++)}; vh::same(x%d[0], x%d.value, static_cast<T>(x%d), *x%d.data());" % (t, i, i, i, i, i)
    if k == "ent" and i % 2 == 1:
        return "%s x%d{{%s}}; v += %d;" % (t, i, ", ".join("vh::io<T>::in(v[%d])" % j for j in range(len(inp["es"]))), len(inp["es"]))
    if g == "pga" and k in ("motor", "line") and i % 4 == 2:
        n = nfields(g, inp)
        return "%s x%d{std::array<T, %d>{%s}}; v += %d;" % (t, i, n, ", ".join("vh::io<T>::in(v[%d])" % j for j in range(n)), n)
    if k in ("ent", "scalar") or (g == "pga" and k == "point"):
        return "%s x%d{}; vh::fill(x%d, v);" % (t, i, i)
    n = CTOR.get(k, nfields(g, inp))
    if k == "vpoint" and i % 2 == 1:      # through its conversion to a projective point
        return "gal::pga::point<T> x%d = gal::vga::point<T>{%s}; v += 3;" % (i, ", ".join("vh::io<T>::in(v[%d])" % j for j in range(3)))
    if k == "rotor" and i % 2 == 1:       # by the names of its members
        return "%s x%d{T(1), T(1), T(1), T(1)}; %s v += 5;" % (t, i, " ".join(
            "x%d.%s = vh::io<T>::in(v[%d]);" % (i, m, j) for j, m in enumerate(["cos_theta", "sin_theta", "x", "y", "z"])))
    if k not in CTOR and i % 2 == 1:      # through the constructor rather than by index
        return "%s x%d{%s}; v += %d;" % (t, i, ", ".join("vh::io<T>::in(v[%d])" % j for j in range(n)), n)
    return "%s x%d{%s}; vh::fill(x%d, v);" % (t, i, ", ".join(["T(1)"] * n), i)


DIM = {"vga": 3, "pga": 4, "pga2": 3, "cga": 5, "sta": 4, "mixed": 4, "flat": 2, "deep": 5, "cra": 4}
MEMBERS = {"vector": ["x", "y", "z"], ("pga2", "vector"): ["x", "y"], "plane": ["d", "x", "y", "z"], ("pga2", "line"): ["d", "x", "y"],
           "line": ["dx", "dy", "dz", "mx", "my", "mz"], "vpoint": ["x", "y", "z"], "point": ["x", "y", "z"], ("pga2", "point"): ["x", "y"],
           "motor": ["data[%d]" % i for i in range(8)]}
ALIAS = {("vga", "vector"): "uvw", ("cga", "point"): "uvw", ("pga2", "point"): ("us", "vt")}
LITNAME = {"vga": "012", "pga2": "012", "pga": "0123"}


def lit(g, n, e, d=1):
    if g not in LITNAME and g != "cga":
        return "vh::lit<%s>(%d, %d)" % (ALG[g], n, e)
    if d > 1:
        return "%d_%s" % (n, "ps" if d == 2 else "ips")
    if g == "cga":
        nm = {1: "e1", 2: "e2", 4: "e3", 8: "no", 16: "ni", 31: "ps"}[e]
    else:
        nm = "e" + "".join(c for i, c in enumerate(LITNAME[g]) if e >> i & 1)
    return "%d_%s" % (n, nm)


BINOP = {"gp": "*", "ep": "^", "rp": "&", "lc": ">>", "sip": "|", "sw": "%", "add": "+", "sub": "-", "div": "/"}


def cexpr(g, i):
    op, a, b, n, d, e = i["op"], "r%d" % i["a"], "r%d" % i["b"], i["n"], i["d"], i["e"]
    N = "(%d)" % n if n < 0 else str(n)
    C = "gal::PI" if e == 0 else "gal::E"
    forms = ["({n} * {C} / {d})", "({C} * {n} / {d})", "({C} / {d} * {n})", "({n} * ({C} / {d}))",
             "({C} / 2 / {d} * 2 * {n})", "({C} * {n} * 3 / {d} / 3)", "(2 * ({n} * {C}) / 2 / {d})", "(-1 * ({C} / {d} / -1) * {n})"]
    c = forms[(i["a"] + 3 * abs(n) + len(op) + d) % len(forms)].format(n=N, C=C, d="(%d)" % d if d < 0 else d)
    if op in BINOP:
        return "%s %s %s" % (a, BINOP[op], b)
    return {
        "lit": lambda: lit(g, n, e, d), "scp": lambda: "gal::scalar_product(%s, %s)" % (a, b),
        "neg": lambda: "-" + a, "rev": lambda: "~" + a, "dual": lambda: "!" + a,
        "comp": lambda: "%s[%d]" % (a, e), "grd": lambda: "%s.select_grade(%d)" % (a, n),
        "nmul": lambda: "%s * %s" % (N, a), "ndiv": lambda: "%s / %s" % (a, N),
        "addn": lambda: "%s + %s" % (a, N), "nadd": lambda: "%s + %s" % (N, a),
        "subn": lambda: "%s - %s" % (a, N), "nsub": lambda: "%s - %s" % (N, a),
        "idiv": lambda: "%s / %s" % (N, a), "cmul": lambda: "%s * %s" % (c, a), "mulc": lambda: "%s * %s" % (a, c),
        "cdiv": lambda: "%s / %s" % (c, a), "divc": lambda: "%s / %s" % (a, c),
        "sqrt": lambda: "gal::sqrt(%s)" % a, "sin": lambda: "gal::sin(%s)" % a, "cos": lambda: "gal::cos(%s)" % a,
        "tan": lambda: "gal::tan(%s)" % a,
    }[op]()


def live(p):
    """Registers the results depend on (dead code is not compiled)."""
    need = set(p["outs"])
    n = len(p["ins"])
    for k in range(len(p["code"]), 0, -1):
        if n + k in need:
            i = p["code"][k - 1]
            if i["op"] != "lit":
                need.add(i["a"])
                if i["op"] in BINOP or i["op"] == "scp":
                    need.add(i["b"])
    return need


def lam(p):
    n = len(p["ins"])
    need = live(p)
    params = ", ".join("auto r%d" % (k + 1) for k in range(n))
    body = ""
    for k, i in enumerate(p["code"]):
        if n + k + 1 in need:
            body += "auto r%d = %s; " % (n + k + 1, cexpr(p["alg"], i))
    if len(p["outs"]) == 1 and not p.get("tup"):
        ret = "r%d" % p["outs"][0]
    else:
        ret = "gal::tuple{%s}" % ", ".join("r%d" % o for o in p["outs"])
    return "[](%s) { %sreturn %s; }" % (params, body, ret)


def program_source(k, p, mode):
    g = p["alg"]
    T = "Fp" if mode == "fp" else "double"
    nv = len(p["vals"]) if mode == "fp" else 1
    s = "static void p%d()\n{\n  using T = %s;\n  using namespace gal; using namespace %s;\n  std::string s;\n" % (k, T, NS[g])
    flat = [str(x) for v in p["vals"][:nv] for inp in v for x in inp]
    s += "  static int const vals[] = {%s};\n  int const* v = vals;\n" % ", ".join(flat + ["0"])
    s += "  for (int k = 0; k != %d; ++k)\n  {\n    int const* const start = v; (void)start;\n" % nv
    for j, inp in enumerate(p["ins"]):
        s += "    " + decl(g, inp, j + 1) + "\n"
    s += "    auto res = x1;\n" if p.get("direct") else "    auto res = %s::compute(%s%s);\n" % (NS[g], lam(p), "".join(", x%d" % (j + 1) for j in range(len(p["ins"]))))
    if p.get("keeps"):     # the arguments are as before
        at = 0
        for j, inp in enumerate(p["ins"]):
            if inp["kind"] != "vpoint":
                s += "    vh::kept(x%d, start + %d);\n" % (j + 1, at)
            at += nfields(g, inp)
    put = "vh::put(s, res, %dLL);" % p.get("den", 1)
    if p.get("read") == "sel":
        put = "vh::put_components<%d>(s, res, %dLL);" % (DIM[g], p.get("den", 1))
    elif p.get("read"):
        kind = p["read"]
        alias = lambda j: "".join(", y." + a for a in ALIAS[g, kind][j]) if (g, kind) in ALIAS else ", y.bivector().select<%d>()" % (0, 3, 5, 6, 9, 10, 12)[j] if kind == "motor" and 0 < j < 7 else ""
        fs = ["vh::same(y.%s, y[%d], c[%d], y.data[%d]%s)" % (m, j, j, j, alias(j))
              for j, m in enumerate(MEMBERS.get((g, kind), MEMBERS.get(kind)))]
        t = ctype(g, dict(kind=kind, es=[]))
        put = "%s y{res}; %s const& c = y; T const f[] = {%s}; vh::put_fields(s, f, %dLL);" % (t, t, ", ".join(fs), p.get("den", 1))
    s += '    s += k ? ",[" : "[";\n    %s\n    s += "]";\n  }\n' % put
    s += '  std::printf("%d [%%s]\\n", s.c_str());\n  std::fflush(stdout);\n}\n' % k
    return s


def unit_source(items, mode):
    s = '#include "prog.hpp"\n#include <cstdlib>\n'
    for k, p in items:
        s += program_source(k, p, mode)
    s += "int main(int argc, char** argv)\n{\n  int from = argc > 1 ? std::atoi(argv[1]) : 0;\n"
    for j, (k, p) in enumerate(items):
        s += "  if (from <= %d) { p%d(); }\n" % (j, k)
    s += "}\n"
    return s


def run_unit(exe, items):
    """Results per program; a program that crashes or hangs yields None."""
    res, start = {}, 0
    while start < len(items):
        try:
            r = subprocess.run([exe, str(start)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, text=True)
            out = r.stdout
        except subprocess.TimeoutExpired as t:
            out = t.stdout or ""
            out = out.decode() if isinstance(out, bytes) else out
        for line in out.splitlines():
            k, _, rest = line.partition(" ")
            try:
                res[int(k)] = json.loads(rest)
            except ValueError:
                pass
        done = start
        while done < len(items) and items[done][0] in res:
            done += 1
        if done == len(items):
            break
        res[items[done][0]] = None
        start = done + 1
    return res


def compile_run(ctx, items, mode, name, flags=()):
    """items: [(key, program)]. Returns {key: result | None (crash) | ('nocompile', log)}."""
    src, exe = ctx.scratch(name + ".cpp"), ctx.scratch(name)
    open(src, "w").write(unit_source(items, mode))
    ok, log = compile_cpp(src, exe, flags)
    if ok:
        r = run_unit(exe, items)
        os.unlink(exe)
        os.unlink(src)
        return r
    if len(items) == 1:
        return {items[0][0]: ("heavy",) if log == HEAVY else ("nocompile", log[:1500])}
    res = {}
    h = len(items) // 2
    res.update(compile_run(ctx, items[:h], mode, name + "a", flags))
    res.update(compile_run(ctx, items[h:], mode, name + "b", flags))
    return res


def run_programs(ctx, progs, mode, per=12, flags=()):
    items = list(enumerate(progs))
    # deal out by estimated cost so that the units finish together
    items.sort(key=lambda kp: -cost(kp[1]))
    nunits = max(1, min(len(items), max(JOBS, (len(items) + per - 1) // per)))
    units = [items[i::nunits] for i in range(nunits)]
    rs = pmap(lambda u: compile_run(ctx, u[1], mode, "u_%s_%d" % (mode, u[0]), flags), list(enumerate(units)))
    out = {}
    for r in rs:
        out.update(r)
    return [out.get(k) for k in range(len(progs))]


def cost(p):
    c = 1
    for i in p["code"]:
        c += {"sw": 3, "gp": 2, "ep": 2, "rp": 2}.get(i["op"], 1)
    return c * (3 if p["alg"] == "cga" else 1)


def check_traces(ctx, recs, tag="t", chunks=None):
    """Run spec/TraceExpr.tla over the records; returns {id: mismatch}."""
    if not recs:
        return {}
    n = chunks or max(1, min(JOBS, len(recs) // 25))
    parts = [recs[i::n] for i in range(n)]

    def one(a):
        i, part = a
        f = ctx.scratch("trace_%s_%d.ndjson" % (tag, i))
        with open(f, "w") as h:
            for r in part:
                h.write(json.dumps(r) + "\n")
        out = tlc_retry(ctx, "TraceExpr", '<<"TRACE-COMPLETE", %d>>' % len(part), env={"TRACE_FILE": f},
                        tag="trace_%s_%d" % (tag, i))
        os.unlink(f)
        return parse_tuples(out, "MISMATCH")
    bad = {}
    for r in pmap(one, list(enumerate(parts))):
        for m in r:
            bad[m["id"]] = m
    ctx.add("traces_validated_against_impl", len(recs))
    return bad


def record(i, p, res, mode):
    nv = len(p["vals"]) if mode == "fp" else 1
    return {"id": i, "alg": p["alg"], "ins": p["ins"], "code": p["code"], "outs": p["outs"],
            "vals": p["vals"][:nv], "res": res, "read": p.get("read", "")}


def describe(p):
    return "%s inputs=%s %s" % (p["alg"], [inp["kind"] + (str(inp["es"]) if inp["kind"] == "ent" else "") for inp in p["ins"]], lam(p)) + (
        " read as " + p["read"] if p.get("read") else "")


def suite(ctx, plan, complaints=None, name="prog", modes=("fp",)):
    """plan: [(profile, alg, count)]. Generates behaviours of the specification, replays them into the
    library through compute(), and checks the recorded results against the specification."""
    jobs, seen = [], {}
    for n, (profile, alg, num) in enumerate(plan):
        k = max(1, num // 150) if profile != "all" else 1   # generation in parallel slices, each with its own seed
        for j in range(k):
            jobs.append((profile, alg, num // k, ctx.seed * 1000 + n * 100 + j))
    progs = []
    for ps in pmap(lambda a: generate(ctx, a[0], a[2], a[1], a[3], tag=name), jobs):
        for p in ps:
            k = json.dumps([p["alg"], p["ins"], p["code"], p["outs"], p["read"]])
            if k not in seen:
                seen[k] = 1
                progs.append(p)
    check_programs(ctx, progs, complaints, name, modes)


def check_programs(ctx, progs, complaints, name, modes, flags=()):
    for mode in modes:
        sel = progs if mode == "fp" else [p for p in progs if p["poly"]]
        rs = run_programs(ctx, sel, mode, flags=flags)
        nocomp = [i for i, r in enumerate(rs) if isinstance(r, tuple) and r[0] == "nocompile"]
        heavy = [i for i, r in enumerate(rs) if isinstance(r, tuple) and r[0] == "heavy"]
        if heavy:
            ctx.note("%d program(s) exhaust the compiler and are not judged" % len(heavy))
            if len(heavy) > len(sel) // 4:
                raise ModelError("the compiler runs out of resources on %d of %d programs" % (len(heavy), len(sel)))
        if nocomp and mode == "fp":
            # Does the library reject the program, or only the verification's field type?
            again = run_programs(ctx, [sel[i] for i in nocomp], "dbl", flags=flags)
            bad = [i for i, r in zip(nocomp, again) if isinstance(r, tuple) and r[0] == "nocompile"]
            if len(bad) < len(nocomp):
                ctx.note("%d program(s) compile over double only; checked there" % (len(nocomp) - len(bad)))
                ok = [(i, r) for i, r in zip(nocomp, again) if not isinstance(r, tuple) and sel[i]["poly"]]
                judge(ctx, [sel[i] for i, r in ok], [r for i, r in ok], "dbl", complaints, name + "_fb")
        else:
            bad = nocomp
        if len(bad) > len(sel) // 2 and len(sel) > 20:
            probe_headers(ctx)
        for i in bad[:20] if not flags else []:
            ctx.violation("a valid program does not compile: %s\n%s" % (describe(sel[i]), "\n".join(
                [l for l in rs[i][1].splitlines() if "error" in l][:3])), dict(kind="program", mode=mode, program=sel[i], nocompile=True))
        idx = [i for i, r in enumerate(rs) if not isinstance(r, tuple)]
        judge(ctx, [sel[i] for i in idx], [rs[i] for i in idx], mode, complaints, name)


def probe_headers(ctx):
    """The headers themselves have to be usable before any verdict about programs makes sense."""
    src, exe = ctx.scratch("probe.cpp"), ctx.scratch("probe")
    open(src, "w").write("#include <gal/cga.hpp>\n#include <gal/pga.hpp>\n#include <gal/pga2.hpp>\n#include <gal/vga.hpp>\nint main() {}\n")
    ok, log = compile_cpp(src, exe)
    if not ok:
        raise ModelError("the library's headers do not compile:\n" + log[:1500])


def judge(ctx, progs, rs, mode, complaints, name):
    recs, ok = [], []
    for i, (p, r) in enumerate(zip(progs, rs)):
        if r is None:
            ctx.violation("compute() crashes or hangs: " + describe(p), dict(kind="program", mode=mode, program=p))
        else:
            recs.append(record(i, p, r, mode))
    bad = check_traces(ctx, recs, tag=name + "_" + mode)
    ctx.add("programs_" + mode, len(recs))
    if recs and len(ctx.samples) < 3:
        ctx.samples.append(dict(program=describe(progs[0]), inputs=progs[0]["vals"][0], results=rs[0][0]))
    hits = sorted(bad.items(), key=lambda im: len(progs[im[0]]["code"]))
    for i, m in hits:
        if complaints is not None and not set(m["what"]) & set(complaints):
            continue
        p = progs[i]
        ctx.violation("%s (%s): %s inputs %s got %s want %s" % ("/".join(m["what"]), mode, describe(p), p["vals"][0], rs[i][0], m["want"][0]),
                      dict(kind="program", mode=mode, program=p, got=rs[i], want=m["want"]))
