"""Driver: runs the parts of a property's check, reports verdicts, writes the evidence."""
import hashlib, json, os, sys, time, traceback
from .core import *
from . import checks

REPLAYS = os.path.join(VERIF, "evidence", "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> <what>' of the committed file."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: "):
                f = line.split(None, 3)
                if f[1] == "property=" + prop:
                    res[f[2][4:]] = f[3].strip()
    return res


def write_evidence(ctx, spec):
    cov = dict(ctx.cov)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        cov.setdefault(k, 0)
    cov["samples"] = ctx.samples[:6] or ["no sample recorded"]
    cov["parts"] = ctx.parts
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(ctx.elapsed(), 2),
              violations=len(ctx.violations))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % ctx.prop)
    with open(tmp, "w") as h:
        json.dump(ev, h, indent=1)
    os.replace(tmp, os.path.join(d, ctx.prop + ".json"))


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    ctx.parts = {}
    try:
        for name, part in spec["parts"]:
            t = time.time()
            part(ctx)
            ctx.parts[name] = round(time.time() - t, 2)
            print("%s %s: %.1f s" % (prop, name, time.time() - t), flush=True)
        write_evidence(ctx, spec)
    except Exception as e:
        if not isinstance(e, ModelError):
            traceback.print_exc()
        print("ERROR: the verification machinery failed: %s" % e)
        return 2
    finally:
        ctx.cleanup()
    for n in ctx.notes:
        print("note: " + n)
    known = known_findings(prop)
    unknown = []
    for what, replay in ctx.violations:
        if replay.get("key") in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[replay["key"]]))
        else:
            unknown.append((what, replay))
    if not unknown:
        print("%s held on everything explored (%s)" % (prop, ", ".join("%s=%s" % kv for kv in sorted(ctx.cov.items()))))
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    for what, replay in unknown[:5]:
        replay = dict(replay, property=prop, what=what)
        s = json.dumps(replay, indent=1)
        path = os.path.join(REPLAYS, "%s_%s.json" % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
        open(path, "w").write(s)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + what[:1500])
    print("%d violation(s)" % len(unknown))
    return 1
