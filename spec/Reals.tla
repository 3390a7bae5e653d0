--------------------------------- MODULE Reals ---------------------------------
(* Real constants to the precision of the floating-point types: the value in    *)
(* units of 1e-15 and of 1e-7, as four limbs of four decimal digits.            *)
EXTENDS Integers, Sequences

Real == [pi |-> <<<<3141, 5926, 5358, 9793>>, <<0, 0, 3141, 5927>>>>,
         invpi |-> <<<<318, 3098, 8618, 3791>>, <<0, 0, 318, 3099>>>>,
         e |-> <<<<2718, 2818, 2845, 9045>>, <<0, 0, 2718, 2818>>>>,
         inve |-> <<<<367, 8794, 4117, 1442>>, <<0, 0, 367, 8794>>>>,
         sqrt2 |-> <<<<1414, 2135, 6237, 3095>>, <<0, 0, 1414, 2136>>>>,
         sin1 |-> <<<<841, 4709, 8480, 7897>>, <<0, 0, 841, 4710>>>>,
         cos1 |-> <<<<540, 3023, 586, 8140>>, <<0, 0, 540, 3023>>>>,
         tan1 |-> <<<<1557, 4077, 2465, 4902>>, <<0, 0, 1557, 4077>>>>,
         half |-> <<<<500, 0, 0, 0>>, <<0, 0, 500, 0>>>>,
         one |-> <<<<1000, 0, 0, 0>>, <<0, 0, 1000, 0>>>>,
         third |-> <<<<333, 3333, 3333, 3333>>, <<0, 0, 333, 3333>>>>]
(* A recorded number <<sign, limbs...>> is within tol units of a constant; the  *)
(* leading limbs, where the units would overflow, have to agree.                *)
RealNear(name, cut, v, tol) ==
    LET w == Real[name][IF cut = 4 THEN 1 ELSE 2]
        hi(x) == x[1] * 10000 + x[2]
        lo(x) == x[3] * 10000 + x[4]
        got == <<v[2], v[3], v[4], v[5]>>
        d == (hi(got) - hi(w))
    IN /\ Len(v) = 5 /\ v[1] = 1
       /\ d \in {-1, 0, 1}
       /\ (d * 100000000 + lo(got) - lo(w)) \in (-tol)..tol
================================================================================
