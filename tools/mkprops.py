#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
OVER = {"C01": ["configurations", "inputs"], "C02": ["inputs"], "C03": ["programs", "inputs"], "C04": ["programs"],
        "C05": ["programs"], "C06": ["programs"], "C07": ["inputs"], "C08": ["programs", "inputs"], "C09": ["programs", "inputs"],
        "C10": ["programs", "inputs"], "C11": ["inputs", "configurations"], "C12": ["programs"], "C13": ["inputs", "programs"],
        "C14": ["programs", "configurations"], "C15": ["histories", "inputs"], "C16": ["inputs"], "C17": ["inputs", "configurations"]}
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=OVER[id], text=qtext + " (" + "; ".join(over) + ")"), why_tests_cant=why,
                  anchors=dict(files=["public/gal/" + f for f in files],
                               mechanism=[dict(name=n, where="public/gal/" + w) for n, w in mech])))

prop("C01", "Basis-blade products obey the Clifford relations of every metric",
 "For every metric signature and every pair of basis blades, the geometric, exterior, left-contraction and symmetric-inner products return the blade and the sign (or zero) that follow from anticommuting orthogonal generators squaring to +1, -1 or 0 (degenerate generators first, then positive, then negative). The derived constants agree: reversion, dual complement, unit pseudoscalar and its inverse, and the enumerations of the even subalgebra and of the bivectors list exactly the right blades in ascending order.",
 ["all metric signatures up to dimension 6", "all ordered pairs of blades", "all four products"],
 "for every signature (P,V,R) and every two blades",
 "The tests touch a handful of blades in two metrics; a sign error for one blade pair in one signature passes them all.",
 ["geometric_algebra.hpp", "algebra.hpp", "numeric.hpp"],
 [("blade products", "geometric_algebra.hpp: algebra<Metric>::geometric/exterior/contract/symmetric_inner"),
  ("diagonal metric", "geometric_algebra.hpp: metric::dot, metric::intercept"),
  ("even/bivector spans", "geometric_algebra.hpp: even_mv, bivector_mv; numeric.hpp: next_even"),
  ("Poincare complement", "algebra.hpp: poincare_complement")])

prop("C02", "Symbolic multivector arithmetic is exact and canonical",
 "Sum, negation, scaling, shift by a constant and all products of indeterminate multivectors equal the corresponding exact polynomial identity over the rationals, for every pair of operands. Every result is canonical: basis elements strictly ascending, monomials of an element strictly ordered and distinct, indeterminates of a monomial strictly ordered with non-zero exponents, no zero coefficients and no empty element, and all recorded sizes, offsets and degrees consistent.",
 ["all pairs of canonical multivectors", "all products", "all model algebras"],
 "for every two multivectors with rational-coefficient polynomial components",
 "Merge and collate code has many interleavings (which side runs out first, equal degrees, partial cancellation); the tests reach few of them and assert only sizes.",
 ["algebra.hpp", "algorithm.hpp", "dfa.hpp"],
 [("sorted merge of terms, monomials, indeterminates", "algebra.hpp: detail::sum"),
  ("product and collation", "algebra.hpp: detail::product, detail::collate"),
  ("scale/shift/negate", "algebra.hpp: detail::scale, shift, negate")])

prop("C03", "An evaluated expression equals its mathematical meaning",
 "Whatever expression a compute lambda builds out of the documented operators, in every provided algebra and in algebras over a metric of the user's own, the numbers returned are the components of the multivector that the expression denotes for the given input values. No combination, nesting, sharing or order of operators changes this.",
 ["all well-typed expressions over the documented operators", "all input values", "VGA, PGA, 2D PGA, CGA, user-defined metrics"],
 "for every expression and every assignment of input values",
 "Expressions compose without bound and each is compiled by a different path through builder, CSE, symbolic expansion and finalisation; tests evaluate a few dozen fixed ones.",
 ["engine.hpp", "dfa.hpp", "expr.hpp", "algebra.hpp", "entity.hpp"],
 [("expression evaluation", "engine.hpp: detail::compute, finalize_temps, finalize_entity"),
  ("RPN interpreter", "dfa.hpp: rpn_ctx"),
  ("operators", "expr.hpp: operators on rpne")])

prop("C04", "Expression building preserves meaning while simplifying",
 "Building a sum, difference, scaling, negation, shift, product, reversion or dual of any two expressions yields an expression whose meaning is that operation applied to the operands' meanings, however the builder reorders, flattens, merges, cancels or rescales summands and factors. Anything combined with an expression that is exactly zero behaves as with zero.",
 ["all pairs of expressions", "all rational scale factors", "all operand orders"],
 "for every expression tree, including ones whose parts cancel or coincide up to a scalar",
 "Merging depends on hash order, on shared subterms and on scale factors; tests check node counts for a few sums.",
 ["expr.hpp"],
 [("sum merging and cancellation", "expr.hpp: operator+(rpne, rpne)"),
  ("chained exterior product", "expr.hpp: operator^"),
  ("scale factors", "expr.hpp: rpne::q, node::q")])

prop("C05", "Common-subexpression elimination never changes a result",
 "Factoring repeated subexpressions into temporaries leaves the meaning of every expression unchanged. Temporaries are defined before they are used, each reference denotes exactly the subexpression it replaced, two subexpressions are shared only if they denote the same value, and the result is a well-formed expression.",
 ["all expressions with shared, nested and overlapping subexpressions"],
 "for every expression, in particular those where subexpressions repeat, nest, differ only by a scalar, or contain division and transcendental functions",
 "Sharing decisions depend on reference counts and positions of nested repetitions; tests only print one reshaped expression.",
 ["dfa.hpp", "stack.hpp", "expr.hpp"],
 [("CSE pass", "dfa.hpp: rpn_reshape, register_se, compare_se"),
  ("operand stack", "stack.hpp: stack"), ("references", "algebra.hpp: mv::create_ref")])

prop("C06", "Results carry exactly the components that can be non-zero",
 "A component that is not identically zero is always present in the result, and components are listed in strictly ascending element order without repetition. For a polynomial expression in which no composite subexpression repeats, a component that the algebra forces to zero for all inputs is absent from the result, and if the expression is identically zero the result is the empty entity, whose every component reads as zero.",
 ["all expressions without repeated composite subexpressions", "all entity shapes"],
 "for every such expression (for others: no non-zero component is ever missing)",
 "Only exact symbolic cancellation of every monomial over every input gives sparsity; sample evaluation in a test cannot tell structurally-zero from incidentally-zero.",
 ["engine.hpp", "algebra.hpp", "entity.hpp"],
 [("sparsity of results", "engine.hpp: compute_entity"), ("cancellation", "algebra.hpp: collate, sum"),
  ("zero entity and component access", "entity.hpp: entity::select, entity<A,T>")])

prop("C07", "Rational coefficient arithmetic is exact",
 "For all rationals within range, addition, subtraction, multiplication, division, negation and reciprocal return the exact value with a positive denominator, comparisons agree with the order of the rationals whatever the representation, and the compound assignments agree with the operators. Only when a reduced denominator reaches 1024 may a result be approximated, and then by less than 1e-6 in absolute value.",
 ["all pairs of rationals whose products fit 32 bits", "all operators"],
 "for all numerators and denominators, reduced or not, of either sign",
 "Edge cases (negative divisors, unreduced operands, equal values in different representation) are sparse in the input space.",
 ["numeric.hpp"],
 [("rational type", "numeric.hpp: rat and its operators"), ("approximation", "numeric.hpp: detail::overflow_gate")])

prop("C08", "Conformal results are correct in the null basis",
 "In the conformal algebra, inputs and results are expressed over the origin and infinity generators, and every operation behaves as in the algebra where these are null vectors with inner product -1. Converting a multivector to the orthonormal basis and back is the identity, for every multivector, literals included.",
 ["all conformal multivectors", "all conformal expressions"],
 "for every multivector and every expression over points, literals and scalars",
 "Tests check one norm that is zero; the change of basis mixes pairs of components and must interact correctly with temporaries, literals and component selection.",
 ["null_algebra.hpp", "cga.hpp", "dfa.hpp", "engine.hpp"],
 [("change of basis", "null_algebra.hpp: to_null_basis, to_natural_basis"),
  ("conversion points", "dfa.hpp: rpn_ctx op_id; engine.hpp: finalize_entity, finalize_temps")])

prop("C09", "Scalar division, roots, trigonometry and constants are exact in structure",
 "Dividing by a scalar expression divides every component by that scalar's value, and square root, sine, cosine and tangent are applied to the whole value of their scalar argument, including its scale factor, wherever they occur in an expression. The constants PI and E denote pi and Euler's number.",
 ["all scalar-valued subexpressions", "all nestings and repetitions"],
 "for every expression containing division, roots, trigonometric functions or constants",
 "These are applied per monomial after extraction to temporaries; whether extraction happens depends on context that tests do not vary.",
 ["expr.hpp", "dfa.hpp", "engine.hpp", "algebra.hpp"],
 [("division", "algebra.hpp: detail::divide; expr.hpp: operator/"),
  ("extraction of operands", "dfa.hpp: rpn_reshape"), ("function application", "engine.hpp: apply_mv_op, ind_constants")])

prop("C10", "Reversion, dual, grade and component selection act componentwise",
 "Reversion flips exactly the grades 2 and 3 modulo 4, the dual maps each element to its complement with the sign that makes element wedge dual the unit pseudoscalar, grade selection keeps all and only the components of that grade, component selection returns exactly that component as a scalar, and extraction keeps exactly the listed components. Each holds for every multivector of every algebra, and at any place in an expression.",
 ["all multivectors", "all grades, elements and element sets", "all algebras"],
 "for every multivector and every selector",
 "Elements are stored in bit order, in which grades interleave; tests select one grade of one value.",
 ["algebra.hpp", "dfa.hpp", "expr.hpp"],
 [("unary maps", "algebra.hpp: reverse, poincare_dual"), ("selection", "algebra.hpp: select_grade, operator[], extract")])

prop("C11", "Entities convert to and from multivectors faithfully",
 "Every provided geometric entity denotes the documented multivector of its fields, and constructing it from a computed multivector reads back those fields, so that entity to multivector to entity is the identity for every field value. Projective points are homogenised when read, absent components read as zero, and surplus components are ignored.",
 ["all entity types of all models", "all field values", "all element subsets of the source multivector"],
 "for every entity and every multivector it is built from",
 "Each entity hand-codes offsets, identifiers and signs; tests read few entities and not all fields.",
 ["pga.hpp", "pga2.hpp", "vga.hpp", "cga.hpp", "entity.hpp"],
 [("entity forms", "pga.hpp/pga2.hpp/vga.hpp/cga.hpp: ie() and entity constructors"),
  ("component access", "entity.hpp: entity::select, construct_ie")])

prop("C12", "Returning several results gives the same as computing each alone",
 "A lambda that returns a tuple of expressions yields, in order, exactly the values each expression would yield by itself, whatever subexpressions the results share and whatever their scale factors.",
 ["all tuples of expressions"],
 "for every tuple of expressions, in particular with shared subexpressions",
 "One two-element tuple without sharing is tested; sharing shortens each result's extent independently.",
 ["dfa.hpp", "engine.hpp", "expr.hpp", "tuple.hpp"],
 [("concatenation of results", "expr.hpp: rpne_concat"), ("extent fix-up", "dfa.hpp: rpn_reshape"),
  ("tuple finalisation", "engine.hpp: finalize_entities")])

prop("C13", "Projective geometry: incidence and rigid motions come out right",
 "In projective space the join of points is the line or plane through them, the meet of planes is their common line or point, and incidence products vanish exactly on incidence; sandwiching with rotors, translators and motors moves every entity by the rotation or translation they encode, composing as products do. Normalising gives unit entities, and logarithm and exponential of motors that turn (by less than a full turn) are mutually inverse.",
 ["all points, lines, planes and motors", "all compositions"],
 "for all coordinates (in general position where division by zero is excluded)",
 "Geometric identities quantify over all coordinates; the tests try single examples.",
 ["pga.hpp", "vga.hpp", "pga2.hpp", "expr.hpp"],
 [("geometric entities", "pga.hpp: plane, line, point, motor, rotor, translator"),
  ("motor normalisation and logarithm", "pga.hpp: motor::normalize, motor::log"), ("sandwich and join", "expr.hpp: operator%, operator&")])

prop("C14", "Each lambda parameter denotes its own argument",
 "The i-th lambda parameter denotes the i-th argument, no matter how often or in what order parameters are used, left unused or repeated, and no matter how entities, scalars and plain floating-point numbers of different sizes are mixed. Arguments are never modified, and entities of a different model are bound through their documented conversion.",
 ["all argument lists", "all use patterns"],
 "for every list of argument types and every subset, order and multiplicity of uses",
 "Identifier offsets accumulate over the sizes of all earlier arguments; tests use at most a few same-shaped ones.",
 ["expr.hpp", "dfa.hpp", "engine.hpp"],
 [("identifier assignment", "expr.hpp: rpne_entities"), ("input collection", "dfa.hpp: rpn_ids, rpn_inputs"),
  ("data binding", "engine.hpp: fill")])

prop("C15", "Compile-time containers behave like their models",
 "The stack is last-in first-out under every sequence of operations, the heterogeneous tuple's push, append, pop, split, apply and search return the elements in the documented order for every arity and index, and sorting returns an ordered permutation of its input for every sequence and ordering.",
 ["all operation sequences", "all tuples and indices", "all sequences"],
 "for every sequence of operations and every input sequence",
 "Boundary arities and indices (empty part of a split, popping to empty, equal keys) are not sampled.",
 ["stack.hpp", "tuple.hpp", "algorithm.hpp"],
 [("stack", "stack.hpp: stack"), ("tuple", "tuple.hpp: tuple"), ("sort", "algorithm.hpp: sort")])

prop("C16", "Integer power, bit and checksum helpers are exact",
 "Raising to an integer power multiplies out exactly for every exponent, zero and negative ones included; bit counting, highest set bit, next power of two, byte rotation and next even-parity value are exact for every argument, and the checksum is the standard CRC-32 of the little-endian bytes.",
 ["all exponents", "all 32-bit words"],
 "for every exponent and every word",
 "A dispatch with one case per exponent and bit tricks per width have isolated failure points.",
 ["numeric.hpp", "crc.hpp"],
 [("power", "numeric.hpp: pow"), ("bit helpers", "numeric.hpp: next_pow_2, rot32, leading_set_index, pop_count, next_even"),
  ("checksum", "crc.hpp: crc32, crc32_8")])

prop("C17", "Text form lists every component with its basis element",
 "Formatting an entity lists its components in element order, each value followed by its basis element's generator indices in ascending order, joined by ' + ', a scalar component without element name, and the empty entity as 0.",
 ["all entity shapes", "all values"],
 "for every element set and every value",
 "Element names are derived from bit patterns; no test checks the text.",
 ["format.hpp", "entity.hpp"],
 [("formatting", "format.hpp: to_string")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
