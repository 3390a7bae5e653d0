---------------------------------- MODULE Rat ----------------------------------
(* Exact rational arithmetic.  A rational is <<num, den>> with den > 0; several *)
(* representations may denote the same value.                                   *)
EXTENDS Integers, Sequences

RAbs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* The canonical representative (any sign of the denominator on input).         *)
Reduced(n, d) ==
    LET g == Gcd(RAbs(n), RAbs(d)) s == IF d < 0 THEN -1 ELSE 1
    IN <<s * (n \div g), s * (d \div g)>>
(* \div is floor division: exact here because g divides both.                   *)
REqual(x, y) == Reduced(x[1], x[2]) = Reduced(y[1], y[2])
RLt(x, y) == x[1] * y[2] < y[1] * x[2]

(* The value of an operation, in canonical form.                                *)
RApply(op, x, y) ==
    CASE op \in {"add", "cadd"} -> Reduced(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
      [] op = "sub" -> Reduced(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
      [] op \in {"mul", "cmul"} -> Reduced(x[1] * y[1], x[2] * y[2])
      [] op \in {"div", "cdiv"} -> Reduced(x[1] * y[2], x[2] * y[1])
      [] op = "imul" -> Reduced(x[1] * y[1], x[2])
      [] op = "divi" -> Reduced(x[1], x[2] * y[1])
      [] op \in {"neg", "neg2"} -> Reduced(-x[1], x[2])
      [] op = "rec" -> Reduced(x[2], x[1])
      [] op = "gate" -> Reduced(x[1], x[2])
(* Operations that may approximate, once the canonical denominator is large.    *)
Gated == {"add", "sub", "mul", "div", "divi", "gate"}
MaxDen == 1024
RDefined(op, x, y) ==
    /\ op \in {"div", "cdiv", "divi"} => y[1] # 0
    /\ op = "rec" => x[1] # 0

(* Value times 10^7, truncated: integer part and seven digits, by long division *)
(* so that no intermediate number leaves 32 bits.                               *)
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0 ELSE IF d > 200000000 THEN Digits(r \div 8, d \div 8, k) ELSE ((r * 10) \div d) * 10^(k - 1) + Digits((r * 10) % d, d, k - 1)
Close(x, y) ==
    (* |x - y| <= 1e-6, decided on the expansions (never refuses a closer pair)  *)
    LET xi == x[1] \div x[2] yi == y[1] \div y[2]
        xf == Digits(x[1] % x[2], x[2], 7) yf == Digits(y[1] % y[2], y[2], 7)
    IN /\ xi - yi \in -1..1
       /\ RAbs((xi - yi) * 10000000 + (xf - yf)) <= 12

RJudge(op, x, y, z) ==
    LET w == RApply(op, x, y) IN
    IF z[2] <= 0 THEN {"denominator"}
    ELSE IF Reduced(z[1], z[2]) = w THEN {}
    ELSE IF op \in Gated /\ w[2] >= MaxDen /\ Close(w, z) THEN {}
    ELSE {"value"}
RTruth(op, x, y) ==
    CASE op = "eq" -> REqual(x, y) [] op = "ne" -> ~REqual(x, y)
      [] op = "lt" -> RLt(x, y) [] op = "gt" -> RLt(y, x)
      [] op = "nei" -> ~REqual(x, <<y[1], 1>>)
      [] op = "iszero" -> x[1] = 0
      [] op = "isunit" -> x[1] = x[2]
(* Conversion to floating point, reported times 1000.                           *)
RNear(x, milli) == RAbs(milli * x[2] - 1000 * x[1]) <= x[2]
================================================================================
