-------------------------------- MODULE Blade --------------------------------
(* Basis blades of a Clifford algebra with a diagonal metric.  A blade is a    *)
(* set of generators coded as a bit mask; a signature is the sequence of the   *)
(* generators' squares.  All signs are defined by counting inversions, which   *)
(* is how anticommutation defines them.                                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Bitwise

Pow2(n) == 2^n
Dim(sig) == Len(sig)
Elems(n) == 0 .. (Pow2(n) - 1)
Bits(a) == {i \in 0..7 : (a \div Pow2(i)) % 2 = 1}
Grade(a) == Cardinality(Bits(a))
Compl(n, a) == (Pow2(n) - 1) - a
Subset(a, b) == (a & b) = a

(* Signature as the library orders generators: r null, then p positive, then   *)
(* v negative ones.                                                            *)
Signature(p, v, r) == [i \in 1..(p + v + r) |-> IF i <= r THEN 0 ELSE IF i <= r + p THEN 1 ELSE -1]

(* Number of transpositions that sort the concatenation of two blades.         *)
Inversions(a, b) == Cardinality({ij \in Bits(a) \X Bits(b) : ij[1] > ij[2]})
Parity(k) == IF k % 2 = 0 THEN 1 ELSE -1
SquareProduct(sig, c) == LET B == Bits(c) IN
    IF \E i \in B : sig[i + 1] = 0 THEN 0 ELSE Parity(Cardinality({i \in B : sig[i + 1] = -1}))

(* Coefficient of the geometric product e_a e_b = coeff * e_(a xor b).         *)
GpCoeff(sig, a, b) == Parity(Inversions(a, b)) * SquareProduct(sig, a & b)
(* Exterior product: the part of top grade.                                    *)
EpCoeff(sig, a, b) == IF (a & b) = 0 THEN Parity(Inversions(a, b)) ELSE 0
(* Left contraction: the part of grade |b| - |a|.                              *)
LcCoeff(sig, a, b) == IF Subset(a, b) THEN GpCoeff(sig, a, b) ELSE 0
(* Hestenes' inner product: grade ||a| - |b||, and zero on scalars.            *)
SipCoeff(sig, a, b) == IF a # 0 /\ b # 0 /\ (Subset(a, b) \/ Subset(b, a))
                       THEN GpCoeff(sig, a, b) ELSE 0

(* Reversion reverses the order of the generators.                             *)
RevCoeff(a) == Parity((Grade(a) * (Grade(a) - 1)) \div 2)
(* The dual of e_a is the signed complement with e_a ^ dual(e_a) = e_full.     *)
DualCoeff(n, a) == EpCoeff(<<>>, a, Compl(n, a))
(* Inverse of the unit pseudoscalar: coefficient c with I * (c I) = 1.         *)
PsInvCoeff(sig) == LET I == Pow2(Dim(sig)) - 1 IN GpCoeff(sig, I, I)

Table(sig, Coeff(_, _, _)) == [a \in Elems(Dim(sig)) |-> [b \in Elems(Dim(sig)) |-> Coeff(sig, a, b)]]
=============================================================================
