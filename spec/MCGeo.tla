--------------------------------- MODULE MCGeo ---------------------------------
(* Laws of the coordinate geometry of Geo.tla, checked over points of a small    *)
(* grid: it is Euclidean geometry, so that the facts it judges mean what they    *)
(* say.                                                                          *)
EXTENDS Geo, TLC
VARIABLES p, q, r
C == {0, 1, P - 2}
Pts == C \X C \X C
Init == p \in Pts /\ q \in Pts /\ r = <<0, 0, 0>>
Next == r = <<0, 0, 0>> /\ r' \in Pts /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_<<p, q, r>>
Rotors == {<<1, 1, 1, 2, 3>>, <<3, 2, 0, 1, P - 1>>, <<2, P - 1, 1, 0, 0>>}
Trans == <<5, 1, P - 3, 2>>
D2(u, v) == Dot(VSub(u, v), VSub(u, v))
Joining == /\ OnLine(p, LineThrough(p, q)) /\ OnLine(q, LineThrough(p, q))
           /\ OnPlane(p, PlaneThrough(p, q, r)) = 0 /\ OnPlane(q, PlaneThrough(p, q, r)) = 0 /\ OnPlane(r, PlaneThrough(p, q, r)) = 0
           /\ Dot(Dir(LineThrough(p, q)), Mom(LineThrough(p, q))) = 0
Rigid == /\ \A m \in Rotors : /\ D2(MoveByRotor(m, p), MoveByRotor(m, q)) = D2(p, q)
                              /\ Proportional(<<1>> \o MoveByRotor(m, SubSeq(m, 3, 5)), <<1>> \o SubSeq(m, 3, 5))
                              (* orientation is kept                              *)
                              /\ Dot(MoveByRotor(m, p), Cross(MoveByRotor(m, q), MoveByRotor(m, r))) = Dot(p, Cross(q, r))
                              /\ Rotate(m, Unit(m, Rotate(m, p, P - 1)), 1) = VScale(RotNorm(m), p)
         /\ VSub(MoveByTranslator(Trans, p), MoveByTranslator(Trans, q)) = VSub(p, q)
(* Linear in the vector, quadratic in the rotor.                                  *)
Linear == \A m \in Rotors : Rotate(m, VAdd(p, q), 1) = VAdd(Rotate(m, p, 1), Rotate(m, q, 1))
Laws == Joining /\ Rigid /\ Linear
================================================================================
