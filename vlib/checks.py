"""Which parts decide which property, in which tier."""
from . import core, facts, prog, rt


def scaled(plan, f):
    """More of everything by a factor; enumerations ("all", set/length, stride) get denser instead."""
    return [(p, a, max(1, n // f) if p == "all" else n * f) for p, a, n in plan]


def programs(*plan, complaints=None, factor=12, modes=("fp",), thorough_modes=("fp", "dbl"), name="prog"):
    """Compiled compute() programs generated from spec/Gen.tla, judged by spec/TraceExpr.tla."""
    def part(ctx):
        f = 1 if ctx.tier == "quick" else factor
        prog.suite(ctx, scaled(plan, f), complaints, name=name,
                   modes=modes if ctx.tier == "quick" else thorough_modes)
    return part


def rpn(*plan, kinds, factor=20, weak=None):
    """Expression building and reshaping replayed at run time, judged by spec/TraceRpn.tla."""
    def part(ctx):
        f = 1 if ctx.tier == "quick" else factor
        rt.rpn_suite(ctx, scaled(plan, f), kinds, weak)
    return part


def mv(*plan, wanted, factor=20):
    """Symbolic multivectors replayed at run time, judged by spec/TraceMv.tla."""
    def part(ctx):
        f = 1 if ctx.tier == "quick" else factor
        rt.mv_suite(ctx, scaled(plan, f), wanted)
    return part


def fact(f, quick, thorough):
    """Facts about building blocks, judged by spec/TraceFacts.tla."""
    return lambda ctx: f(ctx, *(quick if ctx.tier == "quick" else thorough))


def laws(module, *runs, thorough=None):
    """Laws of the specification itself, model-checked exhaustively within a bound (each run is an environment)."""
    def part(ctx):
        todo = runs if ctx.tier == "quick" else thorough or runs
        core.pmap(lambda a: core.check_model(ctx, module, tag="%s%d" % (module, a[0]), env=a[1]), list(enumerate(todo)))
    return part


def designs(*sets):
    return [{"ALL_SET": s, "ALL_LEN": str(n), "ALL_STRIDE": "1", "ALL_PHASE": "0", "BUILD_KEY": k} for s, n in sets for k in ("length", "collide")]


DESIGN = laws("MCBuild", *designs(("ops", 1), ("lin", 2), ("scalars", 2)),
              thorough=designs(("ops", 2), ("lin", 3), ("scalars", 3), ("null", 2)))
LEVEL = "model_checking"
VALUE = ("value", "arity")
SELECTIONS = {"rev", "dual", "comp", "grd", "extract"}
CONVERSIONS = {"natural", "null", "roundtrip"}
QUOTIENTS = {"divide"}
CHECKS = {
    "C01": dict(level=LEVEL, parts=[
        ("laws", laws("MCBlade", {"MC_DIM": "3"}, thorough=[{"MC_DIM": "4"}])),
        ("tables", fact(facts.blades, ((1, 2, 3, 4, 5),), ((1, 2, 3, 4, 5, 6),))),
        ("high", fact(facts.high, (14, ("blade", "span")), (100, ("blade", "span"))))]),
    "C02": dict(level=LEVEL, parts=[
        ("symbolic", mv(("mv", "mix", 600), ("mv", "cga", 150), ("mv", "user", 300), ("poly", "mix", 100),
                        wanted=lambda what, op: not op <= SELECTIONS | CONVERSIONS | QUOTIENTS)),
        ("programs", programs(("core", "mix", 150), ("ident", "mix", 300), ("wide", "mix", 100), complaints=VALUE))]),
    "C03": dict(level=LEVEL, parts=[
        ("programs", programs(("core", "mix", 600), ("core", "cga", 150), ("core", "pga", 150), ("core", "user", 200), ("builder", "mix", 150), ("long", "mix", 300), ("all", "one/1", 1), ("all", "two/1", 1), ("all", "ints/1", 4), ("power", "mix", 100), ("mono", "mix", 60), ("many", "mix", 30), ("wide", "mix", 150), ("wide", "user", 100), modes=("fp", "dbl"),
                              complaints=VALUE)),
        ("constructs", programs(("div", "mix", 150), ("builders", "mix", 150), ("share", "mix", 150), ("sel", "mix", 150), ("pair", "mix", 150), ("merges", "mix", 150), ("ident", "mix", 150),
                                ("tuple", "mix", 150), ("bind", "mix", 150), ("cga", "null", 150), ("chain", "mix", 150), complaints=VALUE, name="cons"))]),
    "C04": dict(level=LEVEL, parts=[
        ("design", DESIGN),
        ("building", rpn(("builder", "mix", 600), ("builder", "pga", 300), ("builders", "mix", 450), ("merge", "mix", 450), ("merges", "mix", 300), ("pair", "mix", 900), ("pairs", "mix", 600), ("ident", "mix", 300), ("chain", "mix", 450), ("all", "ints/1", 1), ("all", "fracs/4", 2), ("all", "treep/4", 4), ("all", "ops/2", 1), ("all", "lin/3", 4), ("all", "scalars/2", 1), kinds=("build", "malformed"))),
        ("collisions", rpn(("pair", "mix", 300), ("merge", "mix", 300), ("builders", "mix", 150), ("all", "ops/2", 3), ("all", "lin/3", 8), kinds=("build", "malformed"), weak=0)),
        ("programs", programs(("builder", "mix", 150), ("pair", "mix", 300), ("pairs", "mix", 150), complaints=VALUE))]),
    "C05": dict(level=LEVEL, parts=[
        ("design", DESIGN),
        ("reshaping", rpn(("share", "mix", 450), ("builders", "mix", 450), ("tuple", "mix", 300), ("long", "mix", 300), ("many", "mix", 90), ("many", "cga", 20), ("all", "tree/4", 1), ("all", "treep/4", 3), ("all", "treed/4", 2), ("all", "ops/2", 2), ("all", "lin/3", 4), ("all", "scalars/2", 1), ("all", "null/2", 8),
                          kinds=("reshape", "reshape-malformed", "reshape-operand"))),
        ("collisions", rpn(("share", "mix", 300), ("builders", "mix", 150), ("long", "mix", 300), ("many", "mix", 40), ("all", "tree/4", 2), ("all", "ops/2", 3), ("all", "scalars/2", 1),
                           kinds=("reshape", "reshape-malformed", "reshape-operand"), weak=1)),
        ("programs", programs(("share", "mix", 450), ("share", "pga", 150), ("long", "mix", 450), ("many", "mix", 40), ("all", "tree/4", 24), complaints=VALUE))]),
    "C06": dict(level=LEVEL, parts=[
        ("programs", programs(("shape", "mix", 900), ("shape", "pga", 150), ("shape", "cga", 150), ("ident", "mix", 600), ("long", "mix", 150), ("wide", "mix", 150), ("all", "one/1", 1), ("all", "two/1", 1), complaints=("missing", "order", "extra")))]),
    "C07": dict(level=LEVEL, parts=[
        ("laws", laws("MCRat", {"MC_GRID": "4"}, thorough=[{"MC_GRID": "7"}])),
        ("rationals", fact(facts.rats, (10, 40), (16, 90)))]),
    "C08": dict(level=LEVEL, parts=[
        ("laws", laws("MCNull", {})),
        ("conversion", mv(("mv", "cga", 300), ("mv", "cra", 150), wanted=lambda what, op: bool(op & CONVERSIONS))),
        ("programs", programs(("cga", "cga", 600), ("cga", "cra", 150), ("all", "null/2", 16), ("wide", "null", 60), complaints=VALUE))]),
    "C09": dict(level=LEVEL, parts=[
        ("constants", fact(facts.constants, (), ())),
        ("symbolic", mv(("mv", "mix", 450), ("mv", "user", 100), wanted=lambda what, op: bool(op & QUOTIENTS))),
        ("programs", programs(("div", "mix", 900), ("builders", "mix", 300), ("all", "scalars/2", 1), ("all", "ints/1", 2), ("all", "fracs/4", 32), ("power", "mix", 150), complaints=VALUE))]),
    "C10": dict(level=LEVEL, parts=[
        ("high", fact(facts.high, (0, ("unary",)), (0, ("unary",)))),
        ("symbolic", mv(("mv", "mix", 450), ("mv", "user", 150), wanted=lambda what, op: bool(op & SELECTIONS))),
        ("programs", programs(("sel", "mix", 600), ("sel", "user", 150), ("wide", "mix", 100), complaints=VALUE))]),
    "C11": dict(level=LEVEL, parts=[
        ("programs", programs(("entity", "mix", 600), ("entity", "pga", 300), ("reading", "mix", 450), complaints=("fields", "arity")))]),
    "C12": dict(level=LEVEL, parts=[
        ("programs", programs(("tuple", "mix", 900), ("tuple", "pga", 300), ("chain", "mix", 150), ("chain", "cga", 150), ("many", "mix", 40), complaints=VALUE))]),
    "C13": dict(level=LEVEL, parts=[
        ("laws", laws("MCGeo", {})),
        ("geometry", fact(facts.geometry, (300, 300), (2000, 2000)))]),
    "C14": dict(level=LEVEL, parts=[
        ("programs", programs(("bind", "mix", 900), ("bindl", "mix", 450), ("bindw", "mix", 200), complaints=VALUE))]),
    "C15": dict(level=LEVEL, parts=[
        ("laws", laws("MCHist", {"HIST_KIND": "stack", "HIST_LEN": "4"}, {"HIST_KIND": "tuple", "HIST_LEN": "2"}, thorough=[{"HIST_KIND": "stack", "HIST_LEN": "5"}, {"HIST_KIND": "tuple", "HIST_LEN": "3"}])),
        ("stack", fact(facts.stacks, (4, 14, 600), (5, 24, 8000))),
        ("tuple", fact(facts.tuples, (5, 320), (6, 4000))),
        ("sort", fact(facts.sorts, (5, 400), (7, 999)))]),
    "C16": dict(level=LEVEL, parts=[
        ("words", fact(facts.words, (3000,), (20000,)))]),
    "C17": dict(level=LEVEL, parts=[
        ("text", fact(facts.texts, (600,), (2500,)))]),
}

PROGRAMS = ("TLA+ expression machine (Expr.tla): TLC generates behaviours, they are compiled and replayed through compute(), "
            "and TLC checks the recorded results against the machine (TraceExpr.tla)")
TECHNIQUE = {
    "C01": "TLA+ blade algebra (Blade.tla); TLC checks complete recorded product tables of all small metrics",
    "C02": "TLA+ multivector algebra: recorded symbolic operations validated by TLC (TraceMv.tla); " + PROGRAMS,
    "C03": PROGRAMS,
    "C04": "TLA+ model of the RPN node machine (Rpn.tla): expressions built by the library are executed by TLC (TraceRpn.tla); " + PROGRAMS,
    "C05": "TLA+ model of the RPN node machine (Rpn.tla): reshaped expressions executed by TLC and compared (TraceRpn.tla); " + PROGRAMS,
    "C06": PROGRAMS,
    "C07": "TLA+ rationals (Rat.tla); TLC checks recorded arithmetic facts",
    "C08": "TLA+ null-basis algebra (MV.tla); recorded conversions and conformal programs validated by TLC",
    "C09": PROGRAMS,
    "C10": "TLA+ multivector algebra; recorded symbolic selections and programs validated by TLC",
    "C11": "TLA+ entity model (Entities.tla); TLC-generated programs replayed, fields read back validated by TLC",
    "C12": PROGRAMS,
    "C13": "TLA+ Euclidean geometry in coordinates (Geo.tla); TLC checks recorded constructions and motions",
    "C14": PROGRAMS,
    "C15": "TLA+ container machines (Containers.tla): TLC enumerates and simulates histories, replayed and validated",
    "C16": "TLA+ bit and checksum definitions (Bits.tla); TLC checks recorded facts",
    "C17": "TLA+ rendering function (Text.tla); TLC checks recorded texts",
}
SAMPLED = "The specification is explicit and every recorded result is judged by TLC; coverage of programs and inputs is a seeded sample of the generated behaviours (exact arithmetic over a prime field, several random valuations per program)."
NOTE = {k: SAMPLED for k in TECHNIQUE}
NOTE["C01"] = "Exhaustive over every metric of dimension 1 to 5 (6 in the thorough tier) and every ordered pair of blades."
NOTE["C07"] = "All small rationals of a grid in every representation plus random larger ones; each fact judged by TLC in exact integers."
NOTE["C13"] = "Identities checked at random points of a prime field (Schwartz-Zippel) and, for normalise, logarithm and exponential, in double precision with tolerance."
NOTE["C15"] = "Exhaustive over short histories of the model, simulated long ones; sort exhaustive over short sequences of a small alphabet."
NOTE["C16"] = "All exponents and boundary words plus random words; each fact judged by TLC."
NOTE["C17"] = "Every single element and random element sets of all algebras; each text judged by TLC."
