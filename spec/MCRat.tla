--------------------------------- MODULE MCRat ---------------------------------
(* Laws of the rationals of Rat.tla over a grid, in every representation: an     *)
(* ordered field, decided on canonical representatives, and a judgement that     *)
(* accepts the value and nothing else.                                           *)
EXTENDS Rat, TLC, IOUtils
R == atoi(IOEnv.MC_GRID)
Grid == {<<n, d>> : n \in -R..R, d \in 1..R}
VARIABLES x, y, z
Init == x \in Grid /\ y \in Grid /\ z = <<0, 1>>
Next == z = <<0, 1>> /\ z' \in Grid /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y, z>>
A(u, v) == RApply("add", u, v)
M(u, v) == RApply("mul", u, v)
Canonical == \A op \in {"add", "sub", "mul"} : LET w == RApply(op, x, y) IN w[2] > 0 /\ Gcd(RAbs(w[1]), w[2]) = 1
FieldLaws == /\ A(x, y) = A(y, x) /\ M(x, y) = M(y, x)
             /\ A(A(x, y), z) = A(x, A(y, z)) /\ M(M(x, y), z) = M(x, M(y, z))
             /\ M(x, A(y, z)) = A(M(x, y), M(x, z))
             /\ A(x, RApply("neg", x, x)) = <<0, 1>>
             /\ x[1] # 0 => M(x, RApply("rec", x, x)) = <<1, 1>>
             /\ y[1] # 0 => M(RApply("div", x, y), y) = Reduced(x[1], x[2])
             /\ A(RApply("sub", x, y), y) = Reduced(x[1], x[2])
Order == /\ (IF RLt(x, y) THEN 1 ELSE 0) + (IF RLt(y, x) THEN 1 ELSE 0) + (IF REqual(x, y) THEN 1 ELSE 0) = 1
         /\ RLt(x, y) /\ RLt(y, z) => RLt(x, z)
         /\ RLt(x, y) => RLt(A(x, z), A(y, z))
Judging == \A op \in {"add", "sub", "mul"} : RJudge(op, x, y, z) = {} <=> REqual(z, RApply(op, x, y))
Laws == Canonical /\ FieldLaws /\ Order /\ Judging
================================================================================
