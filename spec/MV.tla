---------------------------------- MODULE MV ----------------------------------
(* Multivectors over the field: sparse functions from elements to non-zero     *)
(* coefficients.  The algebras are the models the library provides.            *)
EXTENDS Field, Blade, Functions, Sequences, TLC

(* The library's own, and metrics a user may define.                           *)
Provided == {"vga", "pga2", "pga", "cga"}
UserDefined == {"sta", "mixed", "flat", "deep", "cra"}
Algs == Provided \union UserDefined
Sig == [vga |-> <<1, 1, 1>>, pga2 |-> <<0, 1, 1>>, pga |-> <<0, 1, 1, 1>>, cga |-> <<1, 1, 1, 1, -1>>,
        sta |-> <<1, -1, -1, -1>>, mixed |-> <<0, 1, 1, -1>>, flat |-> <<1, 1>>, deep |-> <<0, 0, 1, 1, -1>>,
        cra |-> <<1, 1, 1, -1>>]
N == [g \in Algs |-> Len(Sig[g])]

Tables(Coeff(_, _, _)) == [g \in Algs |-> Table(Sig[g], Coeff)]
GpT == Tables(GpCoeff)
EpT == Tables(EpCoeff)
LcT == Tables(LcCoeff)
SipT == Tables(SipCoeff)
RevT == [a \in Elems(5) |-> RevCoeff(a)]
DualT == [g \in Algs |-> [a \in Elems(N[g]) |-> DualCoeff(N[g], a)]]
GradeT == [a \in Elems(5) |-> Grade(a)]

Zero == [e \in {} |-> 0]
Trim(f) == IF \A e \in DOMAIN f : f[e] # 0 THEN f
           ELSE [e \in {d \in DOMAIN f : f[d] # 0} |-> f[e]]
Coef(x, e) == IF e \in DOMAIN x THEN x[e] ELSE 0
Blade1(e, c) == IF FInt(c) = 0 THEN Zero ELSE [d \in {e} |-> FInt(c)]
Scalar(c) == Blade1(0, c)

Add(x, y) == IF DOMAIN x = {} THEN y ELSE IF DOMAIN y = {} THEN x
             ELSE Trim([e \in DOMAIN x \union DOMAIN y |-> FAdd(Coef(x, e), Coef(y, e))])
Scale(c, x) == IF c = 0 THEN Zero ELSE [e \in DOMAIN x |-> FMul(c, x[e])]
Neg(x) == [e \in DOMAIN x |-> FNeg(x[e])]
Sub(x, y) == Add(x, Neg(y))

Prod(T, x, y) ==
    LET D == {a ^^ b : a \in DOMAIN x, b \in DOMAIN y}
        Val(e) == LET S == {a \in DOMAIN x : (a ^^ e) \in DOMAIN y}
                      Term(a) == LET c == T[a][a ^^ e]
                                 IN IF c = 0 THEN 0 ELSE ((x[a] * y[a ^^ e]) % P) * c
                  IN MapThenSumSet(Term, S) % P
    IN Trim([e \in D |-> Val(e)])

Gp(g, x, y) == Prod(GpT[g], x, y)
Ep(g, x, y) == Prod(EpT[g], x, y)
Lc(g, x, y) == Prod(LcT[g], x, y)
Sip(g, x, y) == Prod(SipT[g], x, y)
Rev(x) == [e \in DOMAIN x |-> (x[e] * RevT[e]) % P]
Dual(g, x) == LET n == Pow2(N[g]) - 1
              IN [e \in {n - d : d \in DOMAIN x} |-> (x[n - e] * DualT[g][n - e]) % P]
Regr(g, x, y) == Dual(g, Ep(g, Dual(g, x), Dual(g, y)))
Sandwich(g, x, y) == Gp(g, Gp(g, y, x), Rev(y))
GradeSel(x, k) == [e \in {d \in DOMAIN x : GradeT[d] = k} |-> x[e]]
Restrict2(x, S) == [e \in DOMAIN x \intersect S |-> x[e]]
IsScalar(x) == DOMAIN x \subseteq {0}

(*****************************************************************************)
(* Null basis of the conformal models (of space, and "cra" of the plane, as a *)
(* user would define it).  Over the last two generators no and ni:             *)
(* no = (e+ + e-)/2 and ni = e- - e+, with e+ and e- the last two generators   *)
(* of the orthonormal basis; no^ni = e+^e-.                                    *)
(*****************************************************************************)
Half == FRat(1, 2)
NullAlgs == {"cga", "cra"}
ToNatural(g, x) ==
    LET QBit == Pow2(N[g] - 1) PBit == QBit \div 2 PQ == QBit + PBit
        D == DOMAIN x \union {e ^^ PQ : e \in {d \in DOMAIN x : (d & PQ) \in {PBit, QBit}}}
        V(e) == CASE (e & PQ) \in {0, PQ} -> Coef(x, e)
                  [] (e & PQ) = PBit -> FSub(FMul(Half, Coef(x, e)), Coef(x, e ^^ PQ))
                  [] OTHER -> FAdd(FMul(Half, Coef(x, e ^^ PQ)), Coef(x, e))
    IN Trim([e \in D |-> V(e)])
ToNull(g, x) ==
    LET QBit == Pow2(N[g] - 1) PBit == QBit \div 2 PQ == QBit + PBit
        D == DOMAIN x \union {e ^^ PQ : e \in {d \in DOMAIN x : (d & PQ) \in {PBit, QBit}}}
        V(e) == CASE (e & PQ) \in {0, PQ} -> Coef(x, e)
                  [] (e & PQ) = PBit -> FAdd(Coef(x, e), Coef(x, e ^^ PQ))
                  [] OTHER -> FMul(Half, FSub(Coef(x, e), Coef(x, e ^^ PQ)))
    IN Trim([e \in D |-> V(e)])
In(g, x) == IF g \in NullAlgs THEN ToNatural(g, x) ELSE x
Out(g, x) == IF g \in NullAlgs THEN ToNull(g, x) ELSE x
Comp(g, x, e) == Scalar(Coef(Out(g, x), e))
=============================================================================
