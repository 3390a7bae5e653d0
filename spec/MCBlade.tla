-------------------------------- MODULE MCBlade --------------------------------
(* Laws of the blade algebra, checked exhaustively by TLC for every signature   *)
(* up to a dimension: the definitions of Blade.tla, which count inversions, do  *)
(* describe an associative algebra with anticommuting generators of the given   *)
(* squares.  A state is one triple of blades of one signature.                  *)
EXTENDS Blade, IOUtils, TLC
MaxDim == atoi(IOEnv.MC_DIM)
VARIABLES sig, a, b, c
vars == <<sig, a, b, c>>

(* Every ordering of squares, not only the library's.                           *)
Sigs == UNION {[1..n -> {-1, 0, 1}] : n \in 1..MaxDim}
Init == /\ sig \in Sigs
        /\ a \in Elems(Dim(sig)) /\ b = 0 /\ c = 0
Next == \/ b = 0 /\ b' \in Elems(Dim(sig)) /\ UNCHANGED <<sig, a, c>>
        \/ c = 0 /\ c' \in Elems(Dim(sig)) /\ UNCHANGED <<sig, a, b>>
Spec == Init /\ [][Next]_vars

G(x, y) == GpCoeff(sig, x, y)
E(x, y) == EpCoeff(sig, x, y)
L(x, y) == LcCoeff(sig, x, y)
Full == Pow2(Dim(sig)) - 1
Gen(i) == Pow2(i)

(* Products of blades are signed blades, so associativity is about signs.       *)
Associative == /\ G(a, b) * G(a ^^ b, c) = G(b, c) * G(a, b ^^ c)
               /\ E(a, b) * E(a ^^ b, c) = E(b, c) * E(a, b ^^ c)
Unital == G(0, a) = 1 /\ G(a, 0) = 1 /\ E(0, a) = 1 /\ E(a, 0) = 1
Generators == \A i, j \in 0..(Dim(sig) - 1) :
    IF i = j THEN G(Gen(i), Gen(i)) = sig[i + 1] ELSE G(Gen(i), Gen(j)) = -G(Gen(j), Gen(i)) /\ G(Gen(i), Gen(j)) # 0
(* Reversion is the anti-automorphism that fixes the generators.                *)
Reversion == /\ RevCoeff(a) * RevCoeff(b) * G(b, a) = RevCoeff(a ^^ b) * G(a, b)
             /\ \A i \in 0..(Dim(sig) - 1) : RevCoeff(Gen(i)) = 1
(* The products are the parts of the geometric product of one grade.            *)
Parts == /\ E(a, b) = (IF Grade(a ^^ b) = Grade(a) + Grade(b) THEN G(a, b) ELSE 0)
         /\ L(a, b) = (IF Grade(a ^^ b) = Grade(b) - Grade(a) THEN G(a, b) ELSE 0)
         /\ SipCoeff(sig, a, b) = (IF a # 0 /\ b # 0 /\ Grade(a ^^ b) \in {Grade(a) - Grade(b), Grade(b) - Grade(a)} THEN G(a, b) ELSE 0)
(* Contraction is adjoint to the exterior product: (a ^ b) >> c = a >> (b >> c).*)
Adjoint == E(a, b) * L(a ^^ b, c) = L(b, c) * L(a, b ^^ c)
Complement == /\ Grade(Compl(Dim(sig), a)) = Dim(sig) - Grade(a)
              /\ DualCoeff(Dim(sig), a) \in {-1, 1}
              /\ E(a, Compl(Dim(sig), a)) * DualCoeff(Dim(sig), a) = 1
              (* twice the dual is the identity up to the sign of the grades     *)
              /\ DualCoeff(Dim(sig), a) * DualCoeff(Dim(sig), Compl(Dim(sig), a)) = Parity(Grade(a) * (Dim(sig) - Grade(a)))
Pseudo == (\A i \in DOMAIN sig : sig[i] # 0) => G(Full, Full) * PsInvCoeff(sig) = 1
Laws == Associative /\ Unital /\ Generators /\ Reversion /\ Parts /\ Adjoint /\ Complement /\ Pseudo
================================================================================
