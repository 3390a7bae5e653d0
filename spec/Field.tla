-------------------------------- MODULE Field --------------------------------
(* The coefficient field of the specification: integers modulo a prime.       *)
(* Rational coefficients embed exactly (n/d |-> n * d^-1), so a polynomial     *)
(* identity over the rationals holds here too, and a false one fails at a      *)
(* random point with probability at most degree/P.  P*P fits TLC's 32 bits.    *)
EXTENDS Integers

P == 46337

FInt(n) == n % P
FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b) % P
FMul(a, b) == (a * b) % P
FNeg(a) == (-a) % P

RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 1
              ELSE LET h == FPow(FMul(a, a), n \div 2)
                   IN IF n % 2 = 1 THEN FMul(a, h) ELSE h

FInv(a) == FPow(a, P - 2)
FDiv(a, b) == FMul(a, FInv(b))
FRat(n, d) == IF d = 1 THEN FInt(n) ELSE FDiv(FInt(n), FInt(d))

(* Integer power with a possibly negative exponent.                            *)
FPowZ(a, n) == IF n >= 0 THEN FPow(a, n) ELSE FInv(FPow(a, -n))

(* Square root, sine, cosine and tangent are uninterpreted except at zero      *)
(* (where they are 0, 0, 1 and 0): the library may rely on no other identity   *)
(* of theirs.  The C++ harness gives the same functions to its field type.     *)
(* PI and E are two independent field elements.                                *)
FFun(k, x) == (((((x * x) % P) * x) % P) + (((k * 7919 + 13) * x) % P) + (IF k = 3 THEN 1 ELSE 0)) % P
FSqrt(x) == FFun(1, x)
FSin(x) == FFun(2, x)
FCos(x) == FFun(3, x)
FTan(x) == FFun(4, x)
FPi == 31415
FE == 27182
=============================================================================
