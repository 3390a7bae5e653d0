--------------------------------- MODULE Build ---------------------------------
(* The design of the expression builder and of the subexpression elimination.   *)
(* An expression is [q, nodes]: an exact rational factor and a node list        *)
(* (Rpn.tla).  Sums are kept flat and ordered by a key, with equal summands     *)
(* collected; exterior products are kept flat.  The key stands for the          *)
(* library's checksum: nothing may depend on it being injective, so the model   *)
(* checker also runs with one under which everything collides.                  *)
EXTENDS Rpn, Rat, IOUtils

NilX == [q |-> <<1, 1>>, nodes |-> <<>>]
IsNil(x) == x.nodes = <<>> \/ x.q[1] = 0
RMul(x, y) == RApply("mul", x, y)
RAdd(x, y) == RApply("add", x, y)
RDiv(x, y) == RApply("div", x, y)
LastNode(x) == x.nodes[Len(x.nodes)]
Node(o, ex) == <<o, ex, 0, 1>>

KeyMode == IF "BUILD_KEY" \in DOMAIN IOEnv THEN IOEnv.BUILD_KEY ELSE "length"
Weight(n) == CASE Nm(n) = "id" -> 3 + Ex(n) [] Nm(n) = "lit" -> 5 + Ex(n) [] Nm(n) = "ep" -> 7 [] Nm(n) = "sum" -> 2 [] OTHER -> 11
Key(body) == IF KeyMode = "collide" THEN 0 ELSE
    LET f[i \in 0..Len(body)] == IF i = 0 THEN 0 ELSE (f[i - 1] * 3 + Weight(body[i])) % 17 IN f[Len(body)]

(* The delimited parts of a sum or an exterior product: <<factor, body>>.        *)
RECURSIVE PartsFrom(_, _, _)
PartsFrom(nodes, i, lim) ==
    IF i = lim THEN <<>>
    ELSE LET n == nodes[i] IN << <<<<n[3], n[4]>>, SubSeq(nodes, i + 1, i + Ex(n))>> >> \o PartsFrom(nodes, i + 1 + Ex(n), lim)
IsSumX(x) == Nm(LastNode(x)) = "sum"
IsEpX(x) == Nm(LastNode(x)) = "ep"
(* Its summands, each with the factor of the whole applied.                      *)
SummandsOf(x) == IF ~IsSumX(x) THEN << <<x.q, x.nodes>> >>
    ELSE LET p == PartsFrom(x.nodes, 1, Len(x.nodes)) IN [i \in DOMAIN p |-> <<RMul(p[i][1], x.q), p[i][2]>>]
Delimited(q, body) == << <<"se", Len(body), q[1], q[2]>> >> \o body
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Concat(Tail(s))
SumOf(s) ==
    IF s = <<>> THEN NilX
    ELSE IF Len(s) = 1 THEN [q |-> s[1][1], nodes |-> s[1][2]]
    ELSE [q |-> <<1, 1>>, nodes |-> Concat([i \in DOMAIN s |-> Delimited(s[i][1], s[i][2])]) \o <<Node("sum", Len(s))>>]
(* Ordered merge; equal heads are collected and dropped when they cancel.        *)
RECURSIVE Merge(_, _)
Merge(s, t) ==
    IF s = <<>> THEN t ELSE IF t = <<>> THEN s
    ELSE IF s[1][2] = t[1][2]
         THEN LET q == RAdd(s[1][1], t[1][1]) IN (IF q[1] = 0 THEN <<>> ELSE << <<q, s[1][2]>> >>) \o Merge(Tail(s), Tail(t))
    ELSE IF Key(s[1][2]) < Key(t[1][2]) THEN <<s[1]>> \o Merge(Tail(s), t)
    ELSE <<t[1]>> \o Merge(s, Tail(t))
AddX(x, y) == IF IsNil(x) THEN IF IsNil(y) THEN NilX ELSE y ELSE IF IsNil(y) THEN x
              ELSE SumOf(Merge(SummandsOf(x), SummandsOf(y)))
ScaleX(q, x) == IF q[1] = 0 \/ IsNil(x) THEN NilX ELSE [x EXCEPT !.q = RMul(q, @)]
BinX(o, x, y) == IF IsNil(x) \/ IsNil(y) THEN NilX ELSE [q |-> RMul(x.q, y.q), nodes |-> x.nodes \o y.nodes \o <<Node(o, 0)>>]
(* Factors are delimited with a zero, which marks them as unscaled.              *)
FactorsOf(x) == IF IsEpX(x) THEN SubSeq(x.nodes, 1, Len(x.nodes) - 1) ELSE Delimited(<<0, 1>>, x.nodes)
CountOf(x) == IF IsEpX(x) THEN Ex(LastNode(x)) ELSE 1
EpX(x, y) == IF IsNil(x) \/ IsNil(y) THEN NilX
    ELSE [q |-> RMul(x.q, y.q), nodes |-> FactorsOf(x) \o FactorsOf(y) \o <<Node("ep", CountOf(x) + CountOf(y))>>]
UnX(o, ex, x) == IF IsNil(x) THEN NilX ELSE [x EXCEPT !.nodes = Append(@, Node(o, ex))]
RevX(x) == IF IsNil(x) THEN NilX
           ELSE IF Nm(LastNode(x)) = "rev" THEN [x EXCEPT !.nodes = SubSeq(@, 1, Len(@) - 1)] ELSE UnX("rev", 0, x)
ScpX(x, y) == LET g == IF IsNil(x) \/ IsNil(y) THEN NilX ELSE IF Key(x.nodes) < Key(y.nodes) THEN BinX("gp", x, y) ELSE BinX("gp", y, x)
              IN UnX("comp", 0, g)
NumX(n) == IF n = 0 THEN NilX ELSE [q |-> <<n, 1>>, nodes |-> <<Node("lit", 0)>>]
ConstX(i) == [q |-> Reduced(i.n, i.d), nodes |-> <<Node(IF i.e = 0 THEN "pi" ELSE "e", 0)>>]
DivX(x, y) == IF IsNil(x) THEN NilX
    ELSE LET q == RDiv(x.q, y.q) IN [q |-> <<1, 1>>, nodes |-> x.nodes \o y.nodes \o << <<"div", 0, q[1], q[2]>> >>]
FunX(o, x) == IF IsNil(x) THEN IF o = "cos" THEN NumX(1) ELSE NilX
    ELSE [q |-> <<1, 1>>, nodes |-> Append(x.nodes, <<o, 0, x.q[1], x.q[2]>>)]

BuildIns(i, x, y) ==
    CASE i.op = "lit" -> IF i.n = 0 THEN NilX ELSE [q |-> <<IF i.d = 3 THEN -i.n ELSE i.n, 1>>, nodes |-> <<Node("lit", i.e)>>]
      [] i.op \in {"gp", "lc", "sip"} -> BinX(i.op, x, y)
      [] i.op = "ep" -> EpX(x, y)
      [] i.op = "rp" -> UnX("dual", 0, EpX(UnX("dual", 0, x), UnX("dual", 0, y)))
      [] i.op = "sw" -> BinX("gp", BinX("gp", y, x), RevX(y))
      [] i.op = "scp" -> ScpX(x, y)
      [] i.op = "add" -> AddX(x, y)
      [] i.op = "sub" -> AddX(x, ScaleX(<<-1, 1>>, y))
      [] i.op = "div" -> DivX(x, y)
      [] i.op = "neg" -> ScaleX(<<-1, 1>>, x)
      [] i.op = "rev" -> RevX(x)
      [] i.op = "dual" -> UnX("dual", 0, x)
      [] i.op = "comp" -> UnX("comp", i.e, x)
      [] i.op = "grd" -> UnX("grd", i.n, x)
      [] i.op = "nmul" -> ScaleX(<<i.n, 1>>, x)
      [] i.op = "ndiv" -> ScaleX(Reduced(1, i.n), x)
      [] i.op \in {"addn", "nadd"} -> AddX(NumX(i.n), x)
      [] i.op = "subn" -> AddX(NumX(-i.n), x)
      [] i.op = "nsub" -> AddX(NumX(i.n), ScaleX(<<-1, 1>>, x))
      [] i.op = "idiv" -> DivX(NumX(i.n), x)
      [] i.op \in {"cmul", "mulc"} -> BinX("gp", x, ConstX(i))
      [] i.op = "cdiv" -> DivX(ConstX(i), x)
      [] i.op = "divc" -> DivX(x, ConstX(i))
      [] i.op \in {"sqrt", "sin", "cos", "tan"} -> FunX(i.op, x)

(******************************************************************************)
(* Subexpression elimination.  A tree is <<node, children>>, the children of a  *)
(* sum or exterior product being <<factor, tree>>.                              *)
(******************************************************************************)
Leaves == {"id", "lit", "zero", "pi", "e", "cse"}
Unaries == {"rev", "dual", "comp", "grd", "sqrt", "sin", "cos", "tan"}
Poly == {"sum", "ep"}
RECURSIVE ParseRun(_, _, _, _)
ParseRun(nodes, i, lim, st) ==
    IF i = lim THEN st
    ELSE LET n == nodes[i] d == Len(st) IN
         IF Nm(n) = "se" THEN
            ParseRun(nodes, i + 1 + Ex(n), lim, Append(st, <<<<n[3], n[4]>>, ParseRun(nodes, i + 1, i + 1 + Ex(n), <<>>)[1]>>))
         ELSE LET k == IF Nm(n) \in Leaves THEN 0 ELSE IF Nm(n) \in Unaries THEN 1 ELSE IF Nm(n) \in Poly THEN Ex(n) ELSE 2
              IN ParseRun(nodes, i + 1, lim, Append(SubSeq(st, 1, d - k), <<n, SubSeq(st, d - k + 1, d)>>))
Parse(nodes) == ParseRun(nodes, 1, Len(nodes) + 1, <<>>)[1]
Kids(t) == [j \in DOMAIN t[2] |-> IF Nm(t[1]) \in Poly THEN t[2][j][2] ELSE t[2][j]]

(* How often each subtree occurs: as a bag over all of them.                     *)
RECURSIVE Subtrees(_)
Subtrees(t) == <<t>> \o Concat([j \in DOMAIN t[2] |-> Subtrees(Kids(t)[j])])
Composite(t) == t[2] # <<>>
(* Candidates are repeated composite subtrees other than selections.             *)
Repeated(t) == LET s == Subtrees(t) IN
    {s[i] : i \in {i \in DOMAIN s : /\ Composite(s[i]) /\ Nm(s[i][1]) \notin {"comp", "grd"}
                                    /\ \E j \in DOMAIN s : j # i /\ s[j] = s[i]}}
(* Quotients and function values, and their composite operands, have to be       *)
(* evaluated before the expression that contains them.                           *)
Extractors == {"div", "sqrt", "sin", "cos", "tan"}
Required(t) == LET s == Subtrees(t) IN UNION {
    {s[i]} \union {Kids(s[i])[j] : j \in {j \in DOMAIN s[i][2] : Composite(Kids(s[i])[j])}}
    : i \in {i \in DOMAIN s : Nm(s[i][1]) \in Extractors}}

RECURSIVE SizeT(_), Flat(_, _, _)
SizeT(t) == LET f[j \in 0..Len(t[2])] == IF j = 0 THEN 1 ELSE f[j - 1] + SizeT(Kids(t)[j]) IN f[Len(t[2])]
(* The nodes of a tree, in which the subtrees of order (a sequence) are          *)
(* references; top: the tree itself is not replaced.                             *)
IndexIn(order, t) == CHOOSE i \in DOMAIN order : order[i] = t
Flat(t, order, top) ==
    IF ~top /\ \E i \in DOMAIN order : order[i] = t THEN <<Node("cse", IndexIn(order, t) - 1)>>
    ELSE Concat([j \in DOMAIN t[2] |->
            LET b == Flat(Kids(t)[j], order, FALSE) IN
            IF Nm(t[1]) \in Poly THEN Delimited(t[2][j][1], b) ELSE b]) \o <<t[1]>>
(* Any choice of repeated subtrees may be extracted.                             *)
ReshapeWith(x, S) ==
    LET order == SetToSortSeq(S, LAMBDA a, b : SizeT(a) < SizeT(b) \/ (SizeT(a) = SizeT(b) /\ Key(Flat(a, <<>>, TRUE)) < Key(Flat(b, <<>>, TRUE))))
        pre == Concat([i \in DOMAIN order |-> Flat(order[i], order, TRUE) \o <<Node("noop", 0)>>])
    IN [x EXCEPT !.nodes = pre \o Flat(Parse(x.nodes), order, FALSE)]
Reshapes(x) == IF IsNil(x) THEN {NilX} ELSE
    LET t == Parse(x.nodes) IN {ReshapeWith(x, S \union Required(t)) : S \in SUBSET (Repeated(t) \ Required(t))}
================================================================================
