"""Run-time replays: builder (node lists) and symbolic multivectors."""
import json, os, random, subprocess
from .core import *
from . import prog


def encode(key, p):
    out = [key, p["alg"], len(p["ins"])]
    first = 0
    for n, i in enumerate(p["ins"]):
        if "ids" in p:
            first = p["ids"][n]
        es = elements(p["alg"], i)
        out += [first, len(es)] + es
        rich = (p["rich"][n] if "rich" in p else None) or []
        out.append(len(rich))
        for ms in rich:
            out.append(len(ms))
            for q in ms:
                out += [q[0], q[1], len(q[2])] + [x for i in q[2] for x in i]
        first += prog.nfields(p["alg"], i)
    out.append(len(p["code"]))
    for c in p["code"]:
        out += [c["op"], c["a"], c["b"], c["n"], c["d"], c["e"]]
    out += [len(p["outs"])] + p["outs"]
    return " ".join(str(x) for x in out)


def elements(g, inp):
    return inp["es"] if inp["kind"] == "ent" else [0] if inp["kind"] in ("scalar", "real") else []


def build(ctx, src, name=None, flags=("-O1",), std=None):
    """Compile a harness; None (with a note) if it does not compile against this tree."""
    exe = ctx.scratch("bin_" + (name or os.path.basename(src)))
    ok, log = compile_cpp(os.path.join(HARNESS, src), exe, flags)
    if not ok and "-DLEAN" not in flags:                # without the helpers no one but the library calls
        ok, _ = compile_cpp(os.path.join(HARNESS, src), exe, tuple(flags) + ("-DLEAN",))
    if not ok:
        ctx.note("%s does not compile against this tree (internal interfaces changed?); its part is skipped: %s"
                 % (src, [l for l in log.splitlines() if "error" in l][:1]))
        return None
    return exe


def replay(ctx, exe, progs, tag):
    """Feed the programs to a harness in parallel slices; {key: json | None (crash)}."""
    n = min(JOBS, max(1, len(progs) // 20))
    slices = [list(enumerate(progs))[i::n] for i in range(n)]

    def one(a):
        i, items = a
        res = {}
        while items:
            f = ctx.scratch("in_%s_%d" % (tag, i))
            open(f, "w").write("".join(encode(k, p) + "\n" for k, p in items))
            try:
                r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
                out = r.stdout
            except subprocess.TimeoutExpired as t:
                out = (t.stdout or b"").decode() if isinstance(t.stdout, bytes) else (t.stdout or "")
            done = 0
            for line in out.splitlines():
                k, _, rest = line.partition(" ")
                try:
                    res[int(k)] = json.loads(rest)
                    done += 1
                except ValueError:
                    break
            if done == len(items):
                break
            res[items[done][0]] = None
            items = items[done + 1:]
        return res
    out = {}
    for r in pmap(one, list(enumerate(slices))):
        out.update(r)
    return out


def validate(ctx, module, recs, tag, marker_count=True):
    """TLC over the records in parallel chunks; list of mismatch records."""
    if not recs:
        return []
    n = max(1, min(JOBS, len(recs) // 20))

    def one(a):
        i, part = a
        f = ctx.scratch("tr_%s_%d.ndjson" % (tag, i))
        with open(f, "w") as h:
            for r in part:
                h.write(json.dumps(r) + "\n")
        out = tlc_retry(ctx, module, '<<"TRACE-COMPLETE", %d>>' % len(part), env={"TRACE_FILE": f}, tag="%s_%d" % (tag, i))
        os.unlink(f)
        return parse_tuples(out, "MISMATCH")
    res = [m for r in pmap(one, [(i, recs[i::n]) for i in range(n)]) for m in r]
    ctx.add("traces_validated_against_impl", len(recs))
    return res


def generate_all(ctx, plan, tag):
    jobs, seen, progs = [], set(), []
    for n, (profile, alg, num) in enumerate(plan):
        k = max(1, num // 150) if profile != "all" else 1
        jobs += [(profile, alg, num // k, ctx.seed * 1000 + n * 100 + j) for j in range(k)]
    for ps in pmap(lambda a: prog.generate(ctx, a[0], a[2], a[1], a[3], tag=tag), jobs):
        for p in ps:
            k = json.dumps([p["alg"], p["ins"], p["code"], p["outs"], p["read"]])
            if k not in seen:
                seen.add(k)
                progs.append(p)
    return progs


def confirm(ctx, suspects, most=24, flags=()):
    """Node lists are internal: one that the specification reads differently is a violation if the
    program (or the part of it up to the suspect register) then evaluates to something wrong."""
    if not suspects:
        return
    cases = []
    for _, what, r, p in suspects[:most]:
        cases.append(dict(p, read="", direct=False))
        if r > len(p["ins"]):
            cases.append(dict(p, read="", direct=False, tup=False, outs=[r], code=p["code"][:r - len(p["ins"])]))
    before = len(ctx.violations)
    ctx.note("%d built expressions do not denote what they should, e.g. %s: %s" % (len(suspects), suspects[0][1], prog.describe(suspects[0][3])))
    prog.check_programs(ctx, cases, ("value", "arity", "missing"), "confirm", ("fp",), flags)
    if len(ctx.violations) == before:
        ctx.note("none of them evaluates to a wrong result, so their encoding differs from the specified one")


def rpn_suite(ctx, plan, kinds, weak=None):
    """kinds: the complaints that violate this property.  weak: with a checksum of that mask, so that
    different expressions have equal checksums (as they may, if rarely, with the real one)."""
    extra = () if weak is None else (weak_tree(ctx, weak),)
    exe = build(ctx, "rpn.cpp", name="rpn%s" % weak, flags=("-O1",) + extra)
    if exe is None:
        return False
    progs = generate_all(ctx, plan, "rpn")
    res = replay(ctx, exe, progs, "rpn")
    recs, suspects = [], []
    for k, p in enumerate(progs):
        r = res.get(k)
        if r is None:
            suspects.append((len(p["code"]), "crash", 0, p))
        elif "skip" not in r:
            recs.append(dict(prog.record(k, p, [], "fp"), regs=r["regs"], out=r["out"]))
    ctx.add("built_programs", len(recs))
    for m in validate(ctx, "TraceRpn", recs, "rpn"):
        if set(m["what"]) & set(kinds):
            p = progs[m["id"]]
            suspects.append((len(p["code"]), "/".join(m["what"]), max(m["reg"]), p))
    confirm(ctx, sorted(suspects, key=lambda s: s[0]), flags=extra)
    if recs and len(ctx.samples) < 4:
        ctx.samples.append(dict(program=prog.describe(progs[0]), nodes=res[0]))
    return True


def rich_input(rnd, es):
    """Canonical polynomials with rational coefficients and positive and negative exponents, few
    indeterminates, so that monomials of different inputs collide, share prefixes and cancel."""
    res = []
    exponents = rnd.choice([[2, 2, 2, 4], [2, 2, 4, -2, -2, -4], [2, 1, -1, 3, -2, 4]])   # in halves
    for e in es:
        ms = {}
        for _ in range(rnd.choice([1, 1, 2, 2, 3])):
            ids = sorted(rnd.sample(range(5), rnd.choice([0, 1, 1, 2, 2, 3, 4])))
            ms[tuple((i, rnd.choice(exponents)) for i in ids)] = rnd.choice([(1, 1), (-1, 1), (2, 1), (1, 2), (-3, 2), (1, 3)])
        order = sorted(ms, key=lambda m: (sum(d for _, d in m), m))
        res.append([[ms[m][0], ms[m][1], [list(i) for i in m]] for m in order])
    return res


def mv_suite(ctx, plan, wanted):
    """Symbolic multivectors. wanted(what, op) selects the complaints that violate this property."""
    exe = build(ctx, "mv.cpp")
    if exe is None:
        return False
    progs = generate_all(ctx, plan, "mv")
    for k, p in enumerate(progs):
        # inputs share indeterminates in two programs of three, so that monomials collide
        p["ids"] = [0] * len(p["ins"]) if k % 3 == 0 else [(2 * n) % 5 for n in range(len(p["ins"]))] if k % 3 == 1 else \
            [4 * n for n in range(len(p["ins"]))]
        if all(i["es"] == [0] for i in p["ins"]):
            p["ids"] = list(range(len(p["ins"])))
        rnd = random.Random("%d %d" % (ctx.seed, k))
        p["rich"] = [rich_input(rnd, i["es"]) if k % 4 >= 2 and len(i["es"]) < 5 and (len(p["ids"]) == 1 or k % 4 == 3 or p["ids"] != list(range(len(p["ids"])))) else None for i in p["ins"]]
        p["code"] = [dict(c, d=rnd.choice([1, 1, 2, 3]) if c["op"] in ("nmul", "addn", "nadd", "subn", "nsub") else c["d"]) for c in p["code"]]
        size = 1 << prog.DIM[p["alg"]]
        p["keep"] = [sorted(rnd.sample(range(max(size, 8)), 6)), sorted(rnd.sample(range(size), 3))]
        p["outs"] = p["keep"][0] + p["keep"][1]
        p["keep"].append([e for e in range(size) if e != p["keep"][1][0]])
    res = replay(ctx, exe, progs, "mv")
    recs = []
    for k, p in enumerate(progs):
        r = res.get(k)
        if r is None:
            ctx.violation("symbolic evaluation crashes or hangs: " + prog.describe(p), dict(kind="mv", program=p))
        else:
            recs.append(dict(id=k, alg=p["alg"], ins=p["ins"], ids=p["ids"], rich=[1 if r else 0 for r in p["rich"]], code=p["code"], keep=p["keep"], regs=r["regs"], nat=r["nat"], ext=r["ext"], extent=r["extent"], by=r["by"], div=r["div"]))
    ctx.add("symbolic_programs", len(recs))
    for m in sorted(validate(ctx, "TraceMv", recs, "mv"), key=lambda m: len(progs[m["id"]]["code"])):
        if wanted(set(m["what"]), set(m["op"])):
            p = progs[m["id"]]
            ctx.violation("%s of %s: %s" % ("/".join(m["what"]), "/".join(m["op"]), prog.describe(p)), dict(kind="mv", program=p, got=res[m["id"]]))
    if recs and len(ctx.samples) < 4:
        ctx.samples.append(dict(program=prog.describe(progs[0]), multivector=res[0]["regs"][-1]))
    return True
