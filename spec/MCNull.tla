--------------------------------- MODULE MCNull --------------------------------
(* Laws of the null basis, checked exhaustively over pairs of its blades: the    *)
(* change of basis of MV.tla is invertible, and carries the generators no and ni *)
(* to null vectors with inner product -1 that are orthogonal to the rest.        *)
EXTENDS MV, Entities
VARIABLES a, b
Init == a \in Elems(5) /\ b = 0
Next == b < 31 /\ b' = b + 1 /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>

B(e) == Blade1(e, 1)
Mul(x, y) == ToNull("cga", Gp("cga", ToNatural("cga", x), ToNatural("cga", y)))
X == Add(Blade1(a, 5), Blade1(b, 7))
Invertible == ToNull("cga", ToNatural("cga", X)) = X /\ ToNatural("cga", ToNull("cga", X)) = X
Linear == ToNatural("cga", X) = Add(ToNatural("cga", Blade1(a, 5)), ToNatural("cga", Blade1(b, 7)))
Generators ==
    /\ Mul(B(8), B(8)) = Zero /\ Mul(B(16), B(16)) = Zero
    /\ Add(Mul(B(8), B(16)), Mul(B(16), B(8))) = Scalar(-2)
    /\ \A i \in {1, 2, 4} : /\ Mul(B(i), B(i)) = Scalar(1)
                            /\ \A j \in {1, 2, 4, 8, 16} \ {i} : Add(Mul(B(i), B(j)), Mul(B(j), B(i))) = Zero
(* The exterior product does not depend on the basis (no ^ ni = e+ ^ e-).         *)
Exterior == ToNull("cga", Ep("cga", ToNatural("cga", B(a)), ToNatural("cga", B(b)))) = Blade1(a ^^ b, EpCoeff(Sig["cga"], a, b))
(* Points: the inner product measures distance, with coordinates from a and b.   *)
Pt(n) == Denote("cga", "point", <<>>, <<n % 4, (n \div 4) % 4, FInt((n \div 16) - 1)>>)
Xyz(n) == <<n % 4, (n \div 4) % 4, (n \div 16) - 1>>
Sq(n) == n * n
Distance == LET u == Xyz(a) v == Xyz(b) IN
    Sip("cga", ToNatural("cga", Pt(a)), ToNatural("cga", Pt(b))) = Scalar(FMul(FRat(-1, 2), Sq(u[1] - v[1]) + Sq(u[2] - v[2]) + Sq(u[3] - v[3])))
Laws == Invertible /\ Linear /\ Generators /\ Exterior /\ Distance
================================================================================
