---------------------------------- MODULE Rpn ----------------------------------
(* Meaning of the node lists (reverse Polish notation with length-delimited    *)
(* summands and factors, and temporaries) that the builder and the             *)
(* subexpression elimination produce.  A node is <<name, ex, num, den>>.        *)
EXTENDS Expr

Nm(n) == n[1]
Ex(n) == n[2]
Num(n) == n[3]
Qf(n) == FRat(n[3], n[4])

(* All values are per valuation.                                               *)
V1(F(_), x) == [k \in DOMAIN x |-> F(x[k])]
V2(F(_, _), x, y) == [k \in DOMAIN x |-> F(x[k], y[k])]
ConstV(m) == [k \in 1..NumVals |-> m]

RECURSIVE SumV(_), EpV(_)
SumV(s) == IF Len(s) = 1 THEN s[1] ELSE V2(Add, s[1], SumV(Tail(s)))
EpV(s) == IF Len(s) = 1 THEN s[1] ELSE V2(LAMBDA a, b : Ep(alg, a, b), s[1], EpV(Tail(s)))

Bad(st) == [st EXCEPT !.ok = FALSE]
Depth(st) == Len(st.stack)
Top(st) == st.stack[Depth(st)]
Pop(st, n) == SubSeq(st.stack, 1, Depth(st) - n)
LastN(st, n) == SubSeq(st.stack, Depth(st) - n + 1, Depth(st))
Push(st, n, v) == [st EXCEPT !.stack = Append(Pop(st, n), v)]
AllScalar(x) == \A k \in DOMAIN x : IsScalar(x[k])

Fn1(name, q, x) == V1(LAMBDA m : LET s == FMul(q, SVal(m)) IN
    Scalar(CASE name = "sqrt" -> FSqrt(s) [] name = "sin" -> FSin(s) [] name = "cos" -> FCos(s) [] name = "tan" -> FTan(s)), x)

(* One node other than a delimiter.                                            *)
Step(n, st) ==
    LET o == Nm(n) d == Depth(st) IN
    CASE o = "id" -> IF Ex(n) + 1 \in 1..Len(inputs) THEN Push(st, 0, reg[Ex(n) + 1]) ELSE Bad(st)
      [] o = "lit" -> Push(st, 0, ConstV(In(alg, Blade1(Ex(n), 1))))
      [] o = "zero" -> Push(st, 0, ConstV(Zero))
      [] o = "pi" -> Push(st, 0, ConstV(Scalar(FPi)))
      [] o = "e" -> Push(st, 0, ConstV(Scalar(FE)))
      [] o = "cse" -> IF Ex(n) + 1 \in 1..Len(st.temps) THEN Push(st, 0, st.temps[Ex(n) + 1]) ELSE Bad(st)
      [] o = "noop" -> IF d = 1 THEN [st EXCEPT !.stack = <<>>, !.temps = Append(@, Top(st))] ELSE Bad(st)
      [] o = "rev" -> IF d >= 1 THEN Push(st, 1, V1(Rev, Top(st))) ELSE Bad(st)
      [] o = "dual" -> IF d >= 1 THEN Push(st, 1, V1(LAMBDA m : Dual(alg, m), Top(st))) ELSE Bad(st)
      [] o = "comp" -> IF d >= 1 THEN Push(st, 1, V1(LAMBDA m : Comp(alg, m, Ex(n)), Top(st))) ELSE Bad(st)
      [] o = "grd" -> IF d >= 1 THEN Push(st, 1, V1(LAMBDA m : GradeSel(m, Ex(n)), Top(st))) ELSE Bad(st)
      [] o = "sum" -> IF Ex(n) >= 1 /\ d >= Ex(n) THEN Push(st, Ex(n), SumV(LastN(st, Ex(n)))) ELSE Bad(st)
      [] o = "ep" -> IF Ex(n) >= 1 /\ d >= Ex(n) THEN Push(st, Ex(n), EpV(LastN(st, Ex(n)))) ELSE Bad(st)
      [] o \in {"gp", "lc", "sip"} /\ d >= 2 ->
            LET x == st.stack[d - 1] y == Top(st) IN
            Push(st, 2, CASE o = "gp" -> V2(LAMBDA a, b : Gp(alg, a, b), x, y)
                          [] o = "lc" -> V2(LAMBDA a, b : Lc(alg, a, b), x, y)
                          [] o = "sip" -> V2(LAMBDA a, b : Sip(alg, a, b), x, y))
      [] o = "div" /\ d >= 2 /\ AllScalar(Top(st)) ->
            Push(st, 2, V2(LAMBDA a, b : Scale(FDiv(Qf(n), SVal(b)), a), st.stack[d - 1], Top(st)))
      [] o \in {"sqrt", "sin", "cos", "tan"} /\ d >= 1 /\ AllScalar(Top(st)) -> Push(st, 1, Fn1(o, Qf(n), Top(st)))
      [] OTHER -> Bad(st)

(* The nodes from i up to (excluding) lim, run on a stack.  A delimiter runs    *)
(* its Ex(n) nodes on a stack of its own; a non-zero constant scales the        *)
(* result (a summand), zero marks a factor of an exterior product.             *)
RECURSIVE Run(_, _, _, _)
Run(nodes, i, lim, st) ==
    IF ~st.ok \/ i = lim THEN st
    ELSE LET n == nodes[i] IN
         IF Nm(n) = "se" THEN
            LET last == i + 1 + Ex(n) IN
            IF last > lim THEN Bad(st)
            ELSE LET sub == Run(nodes, i + 1, last, [st EXCEPT !.stack = <<>>]) IN
                 IF ~sub.ok \/ Depth(sub) # 1 \/ Len(sub.temps) # Len(st.temps) THEN Bad(st)
                 ELSE Run(nodes, last, lim, Push(st, 0, IF Num(n) = 0 THEN Top(sub)
                                                        ELSE V1(LAMBDA m : Scale(Qf(n), m), Top(sub))))
         ELSE Run(nodes, i + 1, lim, Step(n, st))

Start0 == [ok |-> TRUE, stack |-> <<>>, temps |-> <<>>]
(* An expression [q, nodes] has w results (each its own delimited part if w>1). *)
Eval(x, w) ==
    LET st == Run(x.nodes, 1, Len(x.nodes) + 1, Start0)
        q == FRat(x.q[1], x.q[2])
    IN IF Len(x.nodes) = 0 /\ w = 1 THEN [ok |-> TRUE, res |-> << ConstV(Zero) >>]
       ELSE IF ~st.ok \/ Depth(st) # w THEN [ok |-> FALSE, res |-> <<>>]
       ELSE [ok |-> TRUE, res |-> [j \in 1..w |-> V1(LAMBDA m : Scale(q, m), st.stack[j])]]

(* Divisors and arguments of scalar functions are leaves, and the quotients    *)
(* and function values are evaluated on their own: the evaluator inverts and   *)
(* applies functions to single indeterminates only.                            *)
Leaf(n) == Nm(n) \in {"id", "lit", "zero", "pi", "e", "cse"}
Evaluable(nodes) == \A i \in DOMAIN nodes :
    Nm(nodes[i]) \in {"div", "sqrt", "sin", "cos", "tan"} =>
        i > 1 /\ Leaf(nodes[i - 1]) /\ i < Len(nodes) /\ Nm(nodes[i + 1]) = "noop"
=============================================================================
