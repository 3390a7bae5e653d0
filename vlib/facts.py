"""Facts about the building blocks, recorded by harness/facts.cpp and judged by spec/TraceFacts.tla;
histories of the containers come from spec/GenHist.tla."""
import json, os, subprocess
from .core import *
from . import rt


def run(ctx, exe, args, what, timeout=300):
    """Records printed by a harness; a crash is a violation."""
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as t:
        rc, out = "timeout", (t.stdout or b"").decode() if isinstance(t.stdout, bytes) else (t.stdout or "")
    recs = []
    for line in out.splitlines():
        try:
            recs.append(json.loads(line))
        except ValueError:
            break
    if rc != 0:
        ctx.violation("%s: the code under test crashes or hangs (%s) after %s" % (what, rc, str(recs[-1:])[:300]),
                      dict(kind="facts", what=what, last=recs[-1:]))
    return recs


def brief(r, c):
    """The failing facts of a record."""
    if "f" in r and r["k"] not in ("geo", "num"):
        return "%s %s" % ({k: v for k, v in r.items() if k not in ("f", "id")}, [r["f"][i - 1] for _, i in c[:4]])
    return "%s: %s" % (c[:6], json.dumps({k: v for k, v in r.items() if k != "id"})[:700])


def judge(ctx, recs, name, count=None):
    for i, r in enumerate(recs):
        r["id"] = i
    ctx.add("facts", sum(count(r) if count else len(r.get("f", [0])) for r in recs))
    for m in rt.validate(ctx, "TraceFacts", recs, name):
        r = recs[m["id"]]
        ctx.violation("%s: %s" % (r["k"], brief(r, m["what"])), dict(kind="facts", record=r, complaints=m["what"]))
    if recs and len(ctx.samples) < 4:
        ctx.samples.append(json.dumps(recs[len(recs) // 2])[:400])


def area(ctx, define, args, name, flags=("-O1",)):
    exe = rt.build(ctx, "facts.cpp", name=name, flags=("-D" + define,) + flags)
    return [] if exe is None else run(ctx, exe, args, name)


def high(ctx, rows, kinds):
    """Metrics of dimension up to eight (the most an element can address)."""
    recs = area(ctx, "AREA_BLADE=0", [rows, ctx.seed], "high", ("-O1",))
    recs = [r for r in recs if r["k"] in kinds]
    judge(ctx, recs, "high", count=lambda r: 4 * len(r["gp"]) + 2 if r["k"] == "blade" else 3 << (r["p"] + r["v"] + r["r"]))


def blades(ctx, dims):
    recs = [r for rs in pmap(lambda d: area(ctx, "AREA_BLADE=%d" % d, [0, ctx.seed], "blade%d" % d, ("-O0",)), dims) for r in rs]
    judge(ctx, recs, "blade", count=lambda r: 4 * len(r["gp"]) + 2 if r["k"] == "blade" else 4)


def rats(ctx, grid, big):
    recs = area(ctx, "AREA_RAT", [grid * 100 + big, ctx.seed], "rat")
    judge(ctx, recs, "rat")


def words(ctx, count):
    a = pmap(lambda x: area(ctx, x, [count, ctx.seed], x), ["AREA_WORD", "AREA_CRC"])
    judge(ctx, a[0] + a[1], "word")


def histories(ctx, kind, length, num=None, part=0, deep=False, wide=False):
    args = [] if num is None else ["-simulate", "num=%d" % num, "-depth", str(length + 5), "-seed", str(ctx.seed * 100 + part)]
    for attempt in range(2):
        out, rc = tlc(ctx, "GenHist", args=args, env=dict({"HIST_KIND": kind, "HIST_LEN": str(length)}, **({"HIST_DEEP": "1"} if deep else {}), **({"HIST_WIDE": "1"} if wide else {})),
                      tag="hist_%s_%d_%d" % (kind, length, part))
        hs = parse_tuples(out, "HIST")
        if (num is None and "No error has been found" in out) or (num is not None and len(hs) >= num):
            seen, res = set(), []
            for h in hs:
                k = json.dumps(h)
                if k not in seen:
                    seen.add(k)
                    res.append(h)
            return res
    raise ModelError("history generation failed:\n" + out[-2000:])


def stacks(ctx, exhaustive, length, num):
    exe = rt.build(ctx, "facts.cpp", name="stack", flags=("-DAREA_STACK", "-O1"))
    if exe is None:
        return
    hs = pmap(lambda f: f(), [lambda: histories(ctx, "stack", exhaustive), lambda: histories(ctx, "stack", length, num, 1),
                           lambda: histories(ctx, "stack", 4 * length, num // 3, 2, True)])
    f = ctx.scratch("stack.in")
    with open(f, "w") as h:
        for x in hs[0] + hs[1] + hs[2]:
            h.write("%d %s\n" % (len(x["ops"]), " ".join("%s %d" % tuple(o) for o in x["ops"])))
    judge(ctx, run(ctx, exe, [0, ctx.seed, f], "stack"), "stack", count=lambda r: len(r["ops"]))


def sorts(ctx, depth, num):
    judge(ctx, area(ctx, "AREA_SORT", [depth * 1000 + num, ctx.seed], "sort"), "sort")


TUPLE_PRE = '''#include <cstdio>
#include <string>
#include <type_traits>
#include <gal/tuple.hpp>
template <int K> struct V { int v; };
template <typename T> struct type_of;
template <int K> struct type_of<V<K>> { static constexpr int value = K; };
static std::string n(long long x) { return std::to_string(x); }
template <typename X> static std::string one(X const& x) { return "[" + n(type_of<std::decay_t<X>>::value) + "," + n(x.v) + "]"; }
template <typename... X> static std::string list(X const&... x)
{
    std::string s = "[";
    bool first = true;
    ((s += (first ? "" : ",") + one(x), first = false), ...);
    return s + "]";
}
struct all { template <typename... X> std::string operator()(X const&... x) const { return list(x...); } };
template <typename T, size_t... I> static std::string dump(T const& t, std::index_sequence<I...>) { return list(t.template get<I>()...); }
template <typename... T> static std::string dump(gal::tuple<T...> const& t) { return dump(t, std::make_index_sequence<sizeof...(T)>{}); }
template <typename T> struct shift
{
    int by;
    std::decay_t<T> operator()(std::decay_t<T> x) const { return {x.v + by}; }
};
'''


def tuple_source(hs):
    s = TUPLE_PRE
    for i, h in hs:
        init = ", ".join("V<%d>{%d}" % tuple(x) for x in h["init"])
        s += "static void h%d()\n{\n  std::string s;\n  auto t0 = gal::tuple<%s>{%s};\n" % (i, ", ".join("V<%d>" % x[0] for x in h["init"]), init)
        for j, (op, k, ty, v) in enumerate(h["ops"]):
            a, b = "t%d" % j, "t%d" % (j + 1)
            part = lambda call, keep: "auto p%d = %s.%s; auto %s = p%d.%s; std::string r%d = dump(p%d.%s);" % (
                j, a, call, b, j, "first" if keep == 0 else "second", j, j, "second" if keep == 0 else "first")
            same = "auto %s = %s;" % (b, a)
            none = 'std::string r%d = "[]";' % j
            s += "  " + {
                "push": lambda: "auto %s = %s.push(V<%d>{%d}); %s" % (b, a, ty, v, none),
                "append": lambda: "auto %s = %s.append(V<%d>{%d}); %s" % (b, a, ty, v, none),
                "pop": lambda: "auto p%d = %s.pop(); auto %s = p%d.second; std::string r%d = list(p%d.first);" % (j, a, b, j, j, j),
                "back": lambda: "%s std::string r%d = list(%s.back());" % (same, j, a if j % 2 else "static_cast<decltype(%s) const&>(%s)" % (a, a)),
                "get": lambda: "%s std::string r%d = list(%s.get<%d>());" % (same, j, a if j % 2 else "static_cast<decltype(%s) const&>(%s)" % (a, a), k),
                "set": lambda: "%s %s.set<%d>(std::decay_t<decltype(%s.get<%d>())>{%d}); %s" % (same, b, k, b, k, v, none),
                "find": lambda: "%s std::string r%d = \"[[-1,\" + n(decltype(%s)::find_t<V<%d>>()) + \"]]\";" % (same, j, a, ty),
                "split0": lambda: part("split<%d>()" % k, 0), "split1": lambda: part("split<%d>()" % k, 1),
                "drop0": lambda: part("split_drop<%d>()" % k, 0), "drop1": lambda: part("split_drop<%d>()" % k, 1),
                "attype0": lambda: part("split_at_type<V<%d>>()" % ty, 0), "attype1": lambda: part("split_at_type<V<%d>>()" % ty, 1),
                "apply": lambda: "%s std::string r%d = %s.apply(all{});" % (same, j, a),
                "applyr": lambda: "%s std::string r%d = %s.apply_reverse(all{});" % (same, j, a),
                "mutate": lambda: "%s %s.template mutate<shift>(%d); %s" % (same, b, v, none),
            }[op]() + "\n  s += std::string(%s) + \"[\" + dump(%s) + \",\" + r%d + \"]\";\n" % ('","' if j else '""', b, j)
        s += '  std::printf("{\\"h\\":%d,\\"res\\":[%%s]}\\n", s.c_str());\n}\n' % i
    return s + "int main()\n{\n" + "".join("  h%d();\n" % i for i, h in hs) + "}\n"


def tuples(ctx, length, num):
    n = 8
    hs = [h for r in pmap(lambda i: histories(ctx, "tuple", length, num // n, i, wide=i % 2 == 1), range(n)) for h in r]
    items = list(enumerate(hs))
    units = [items[i::n] for i in range(n)]

    def unit(a):
        i, part = a
        src, exe = ctx.scratch("tuple%s.cpp" % i), ctx.scratch("tuple%s" % i)
        open(src, "w").write(tuple_source(part))
        ok, log = compile_cpp(src, exe)
        if ok:
            return run(ctx, exe, [], "tuple")
        if len(part) == 1:
            return [dict(h=part[0][0], nocompile=log)]
        m = len(part) // 2
        return unit(("%s0" % i, part[:m])) + unit(("%s1" % i, part[m:]))

    src, exe = ctx.scratch("tupleprobe.cpp"), ctx.scratch("tupleprobe")
    open(src, "w").write(TUPLE_PRE + "int main() { auto t = gal::tuple<V<0>, V<1>>{V<0>{1}, V<1>{2}}; auto p = t.pop(); return t.push(V<2>{1}).append(V<3>{2}).size() + p.first.v; }\n")
    if not compile_cpp(src, exe)[0]:
        ctx.note("the tuple's interface has changed; its part is skipped")
        return
    recs = []
    for rs in pmap(lambda a: unit((str(a[0]), a[1])), list(enumerate(units))):
        for r in rs:
            h = hs[r["h"]]
            if "nocompile" in r:
                ctx.violation("a tuple operation does not compile: %s\n%s" % (h, "\n".join([l for l in r["nocompile"].splitlines() if "error" in l][:3])),
                              dict(kind="tuple", history=h))
            else:
                recs.append(dict(k="tuple", init=h["init"], ops=h["ops"], res=r["res"]))
    judge(ctx, recs, "tuple", count=lambda r: len(r["ops"]))


ALGS = {"vga": ("gal/vga.hpp", 3), "pga": ("gal/pga.hpp", 4), "cga": ("gal/cga.hpp", 5), "pga2": ("gal/pga2.hpp", 3),
        "sta": ("gal/geometric_algebra.hpp", 4), "octo": ("gal/geometric_algebra.hpp", 8)}


def texts(ctx, num):
    """Formatted entities: random element sets and values in halves."""
    import random
    rnd = random.Random(ctx.seed)
    cases = []
    for g, (_, dim) in ALGS.items():
        cases.append((g, [], []))
        for e in range(1 << dim):
            cases.append((g, [e], [rnd.randint(-40, 40)]))
        if dim <= 5:
            cases.append((g, list(range(1 << dim)), [rnd.randint(-9, 9) for _ in range(1 << dim)]))
    for _ in range(num):
        g = rnd.choice(list(ALGS))
        es = sorted(rnd.sample(range(1 << ALGS[g][1]), rnd.randint(1, 6)))
        cases.append((g, es, [rnd.choice([0, 1, -1, 2, -2, 3, rnd.randint(-2000, 2000)]) for _ in es]))
    n = 8

    def unit(i):
        part = cases[i::n]
        s = "#include <cstdio>\n#include <gal/format.hpp>\n" + "".join("#include <%s>\n" % h for h, _ in ALGS.values())
        s += "namespace gal { namespace sta { using sta_algebra = algebra<metric<1, 3, 0>>; } namespace octo { using octo_algebra = algebra<metric<5, 1, 2>>; } }\n"
        s += "int main()\n{\n"
        for g, es, vs in part:
            T = "double" if any(v % 2 for v in vs) or len(es) % 2 else "float"
            s += "  { gal::entity<gal::%s::%s_algebra, %s%s> x%s; std::printf(\"%%s\\n\", gal::to_string(x).c_str()); }\n" % (
                g, g, T, "".join(", %d" % e for e in es), "{{%s}}" % ", ".join("%s(%d) / 2" % (T, v) for v in vs) if es else "{}")
        s += "}\n"
        src, exe = ctx.scratch("text%d.cpp" % i), ctx.scratch("text%d" % i)
        open(src, "w").write(s)
        ok, log = compile_cpp(src, exe)
        if not ok:
            return log
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, text=True, timeout=60)
            lines = r.stdout.split("\n")[:-1]
        except subprocess.TimeoutExpired:
            lines = []
        return [dict(k="text", es=es, vs=vs, text=t) for (g, es, vs), t in zip(part, lines)], len(part)
    recs = []
    for r in pmap(unit, range(n)):
        if isinstance(r, str):
            ctx.violation("formatting an entity does not compile: " + "\n".join([l for l in r.splitlines() if "error" in l][:3]), dict(kind="text", log=r[:2000]))
            continue
        if len(r[0]) != r[1]:
            ctx.violation("formatting crashes or prints line breaks", dict(kind="text", got=r[0][-1:]))
        recs += r[0]
    judge(ctx, recs, "text")


def constants(ctx):
    """Constants and functions to the precision of float and double, in every algebra."""
    judge(ctx, area(ctx, "AREA_CONST", [0, ctx.seed], "const", ("-O0",)), "const")


def geometry(ctx, exact, numeric):
    """Constructions and motions in coordinates: exact over the field, and in double precision."""
    def job(a):
        flags, n = a
        exe = rt.build(ctx, "geo.cpp", name="geo%d" % bool(flags), flags=("-O1",) + flags)
        return [] if exe is None else run(ctx, exe, [n, ctx.seed], "geometry")
    recs = [r for rs in pmap(job, [(("-DGEO_EXACT",), exact), ((), numeric)]) for r in rs]
    judge(ctx, recs, "geo", count=lambda r: 1)
