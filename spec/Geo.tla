---------------------------------- MODULE Geo ----------------------------------
(* Projective geometry in Euclidean terms: points are coordinate triples, a     *)
(* plane <<d, a, b, c>> is the set ax + by + cz + d = 0, a line has a direction *)
(* and a moment (point x direction), motions act on coordinates.  Everything    *)
(* is over the field, so a statement that holds at random arguments is an       *)
(* identity.  "Up to scale" is proportionality with a non-zero factor.          *)
EXTENDS Field, Sequences

Sum3(x, y, z) == FAdd(FAdd(x, y), z)
Dot(u, v) == Sum3(FMul(u[1], v[1]), FMul(u[2], v[2]), FMul(u[3], v[3]))
Cross(u, v) == <<FSub(FMul(u[2], v[3]), FMul(u[3], v[2])),
                 FSub(FMul(u[3], v[1]), FMul(u[1], v[3])),
                 FSub(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
VAdd(u, v) == [i \in DOMAIN u |-> FAdd(u[i], v[i])]
VSub(u, v) == [i \in DOMAIN u |-> FSub(u[i], v[i])]
VScale(k, v) == [i \in DOMAIN v |-> FMul(k, v[i])]
VNull(v) == \A i \in DOMAIN v : v[i] = 0
Proportional(u, v) ==
    /\ \A i, j \in DOMAIN u : FMul(u[i], v[j]) = FMul(u[j], v[i])
    /\ VNull(u) = VNull(v)

(* Join and meet.                                                               *)
LineThrough(p, q) == LET d == VSub(q, p) IN d \o Cross(p, d)
Dir(l) == SubSeq(l, 1, 3)
Mom(l) == SubSeq(l, 4, 6)
PlaneThrough(p, q, r) == LET n == Cross(VSub(q, p), VSub(r, p)) IN <<FNeg(Dot(n, p))>> \o n
Normal(pl) == SubSeq(pl, 2, 4)
OnPlane(p, pl) == FAdd(Dot(Normal(pl), p), pl[1])
OnLine(p, l) == VNull(VSub(Cross(p, Dir(l)), Mom(l)))

(* Motions.  A rotor is <<cos, sin, x, y, z>> of the half angle; its action on  *)
(* a vector is Rodrigues' formula without assuming unit norm.  In projective    *)
(* space the sense of rotation is opposite to that of the vector-space model.   *)
RotNorm(r) == LET a == SubSeq(r, 3, 5) IN FAdd(FMul(r[1], r[1]), FMul(FMul(r[2], r[2]), Dot(a, a)))
Rotate(r, v, sense) ==
    LET c == r[1] s == r[2] a == SubSeq(r, 3, 5)
        ss == FMul(s, s)
        k1 == FSub(FMul(c, c), FMul(ss, Dot(a, a)))
        k2 == FMul(2, FMul(ss, Dot(a, v)))
        k3 == FMul(FMul(2, sense), FMul(c, s))
    IN VAdd(VAdd(VScale(k1, v), VScale(k2, a)), VScale(FInt(k3), Cross(a, v)))
Unit(r, v) == VScale(FInv(RotNorm(r)), v)
MoveByRotor(r, p) == Unit(r, Rotate(r, p, P - 1))
(* A translator <<d, x, y, z>> moves by d(x, y, z).                             *)
MoveByTranslator(t, p) == VAdd(p, VScale(t[1], SubSeq(t, 2, 4)))

(* Facts <<name, inputs, outputs>>.                                             *)
GeoTrue(f) ==
    LET k == f[1] x == f[2] y == f[3] IN
    CASE k = "join2" -> Proportional(y[1], LineThrough(x[1], x[2]))
      [] k = "join3" -> Proportional(y[1], PlaneThrough(x[1], x[2], x[3]))
      [] k = "joinline" -> Proportional(y[1], PlaneThrough(x[1], x[2], x[3]))
      (* three planes: the common point; the determinant is non-zero            *)
      [] k = "meet3" -> \A i \in 1..3 : OnPlane(y[1], x[i]) = 0
      (* two planes: a line in both                                             *)
      [] k = "meet2" -> /\ Proportional(Dir(y[1]), Cross(Normal(x[1]), Normal(x[2])))
                        /\ Dot(Dir(y[1]), Mom(y[1])) = 0
                        /\ \A i \in 1..2 : Cross(Normal(x[i]), Mom(y[1])) = VScale(x[i][1], Dir(y[1]))
      [] k = "meetline" -> OnPlane(y[1], x[3]) = 0 /\ OnLine(y[1], LineThrough(x[1], x[2]))
      (* incidence vanishes exactly on incidence, and is linear in the distance *)
      [] k = "incident" -> y[1][1] \in {OnPlane(x[1], x[2]), FNeg(OnPlane(x[1], x[2]))}
      [] k = "rotpoint" -> y[1] = MoveByRotor(x[1], x[2])
      [] k = "rotvec" -> y[1] = Rotate(x[1], x[2], 1)
      [] k = "rotplane" -> FMul(OnPlane(MoveByRotor(x[1], x[2]), y[1]), 1) = FMul(RotNorm(x[1]), OnPlane(x[2], x[3]))
      [] k = "rotline" -> Proportional(y[1], LineThrough(MoveByRotor(x[1], x[2]), MoveByRotor(x[1], x[3])))
      [] k = "rotideal" -> Proportional(y[1], Rotate(x[1], x[2], P - 1))
      [] k = "trpoint" -> y[1] = MoveByTranslator(x[1], x[2])
      [] k = "trplane" -> OnPlane(MoveByTranslator(x[1], x[2]), y[1]) = OnPlane(x[2], x[3])
      [] k = "trline" -> y[1] = LineThrough(MoveByTranslator(x[1], x[2]), MoveByTranslator(x[1], x[3]))
                         \/ y[1] = VScale(P - 1, LineThrough(MoveByTranslator(x[1], x[2]), MoveByTranslator(x[1], x[3])))
      [] k = "trideal" -> y[1] = x[2]
      (* rotate, then translate; as a product of entities and through a motor   *)
      [] k = "motpoint" -> y[1] = MoveByTranslator(x[1], MoveByRotor(x[2], x[3])) /\ y[2] = y[1] /\ y[3] = y[1]
      [] k = "motline" -> Proportional(y[1], LineThrough(MoveByTranslator(x[1], MoveByRotor(x[2], x[3])),
                                                         MoveByTranslator(x[1], MoveByRotor(x[2], x[4]))))
      [] k = "motplane" -> OnPlane(MoveByTranslator(x[1], MoveByRotor(x[2], x[3])), y[1]) = FMul(RotNorm(x[2]), OnPlane(x[3], x[4]))
      (* products of motions: the right factor acts first                       *)
      [] k = "compose" -> \A i \in 1..3 : y[i] = MoveByRotor(x[1], MoveByRotor(x[2], x[3]))
      [] k = "turnmove" -> \A i \in 1..2 : y[i] = MoveByRotor(x[2], MoveByTranslator(x[1], x[3]))
      [] k = "motors" -> \A i \in 1..3 : y[i] = MoveByTranslator(x[1], MoveByRotor(x[2], MoveByRotor(x[4], MoveByTranslator(x[3], x[5]))))
      [] k = "slides" -> y[1] = MoveByTranslator(x[1], MoveByTranslator(x[2], x[3]))
      [] k = "rotvecs" -> y[1] = Rotate(x[1], Rotate(x[2], x[3], 1), 1)
      (* special position                                                       *)
      [] k = "nil" -> VNull(y[1])
      (* two lines meet (or are parallel) iff their product vanishes            *)
      [] k = "lines" -> LET w == Dot(VSub(x[3], x[1]), Cross(VSub(x[2], x[1]), VSub(x[4], x[3]))) IN y[1][1] \in {w, FNeg(w)}
      (* parallel planes meet in the line at infinity of their normal           *)
      [] k = "parallel" -> /\ VNull(Dir(y[1]))
                           /\ Proportional(Mom(y[1]), VSub(VScale(x[1][1], Normal(x[2])), VScale(x[2][1], Normal(x[1]))))
      (* three planes along one direction meet in it at infinity                *)
      [] k = "prism" -> VNull(Cross(y[1], Cross(Normal(x[1]), Normal(x[2]))))
      [] k = "ray" -> Proportional(y[1], x[2] \o Cross(x[1], x[2]))
      [] k = "mirror" -> LET n == Normal(x[2])
                             r == VSub(x[1], VScale(FMul(2, FMul(OnPlane(x[1], x[2]), FInv(Dot(n, n)))), n))
                         IN y[1] = r /\ y[2] = r
      (* the plane (coordinates <<x, y>>, lines <<d, a, b>> are ax + by + d = 0) *)
      [] k = "join2d" -> \A i \in 1..2 : Sum3(FMul(y[1][2], x[i][1]), FMul(y[1][3], x[i][2]), y[1][1]) = 0
      [] k = "meet2d" -> \A i \in 1..2 : Sum3(FMul(x[i][2], y[1][1]), FMul(x[i][3], y[1][2]), x[i][1]) = 0
      [] k = "incident2d" -> LET w == Sum3(FMul(x[2][2], x[1][1]), FMul(x[2][3], x[1][2]), x[2][1]) IN y[1][1] \in {w, FNeg(w)}
      (* conformal points: the inner product of two points measures distance    *)
      [] k = "cgadist" -> y[1][1] = FMul(FRat(-1, 2), Dot(VSub(x[1], x[2]), VSub(x[1], x[2])))
      [] k = "cganull" -> y[1][1] = 0
      (* the same result, computed two ways                                     *)
      [] k = "same" -> y[1] = y[2]

(* Facts over floating point, in units of 1e-4 (values rounded).                *)
Near(a, b, t) == a - b <= t /\ b - a <= t
NumTrue(f) ==
    LET k == f[1] x == f[2] y == f[3] IN
    CASE k = "near" -> \A i \in DOMAIN x : Near(x[i], y[i], 6)
      [] k = "unit" -> Near(y[1], 10000, 4) /\ \A i \in 2..Len(y) : Near(y[i], 0, 4)
      (* rotation by the angle with cosine x[1]/x[3], sine x[2]/x[3], of (x,y)   *)
      [] k = "turn" -> /\ Near(y[1] * x[3], (x[1] * x[4] - x[2] * x[5]) * 10000, 4 * x[3])
                       /\ Near(y[2] * x[3], (x[2] * x[4] + x[1] * x[5]) * 10000, 4 * x[3])
================================================================================
