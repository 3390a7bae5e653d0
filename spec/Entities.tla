------------------------------- MODULE Entities -------------------------------
(* The multivector that each provided entity denotes as a function of its      *)
(* stored fields, and the fields that are read back from a multivector.        *)
(* Element masks: bit i is generator i (pga, pga2: bit 0 is the degenerate e0; *)
(* cga: bit 3 is the origin no, bit 4 the point at infinity ni).               *)
EXTENDS MV, Sequences, SequencesExt

FromSeq(es, vs) ==
    FoldFunctionOnSet(Add, Zero, [i \in DOMAIN es |-> Blade1(es[i], vs[i])], DOMAIN es)

F2(a, b) == FMul(a, b)
H(a) == FMul(FRat(1, 2), a)

(* Multivector denoted by an entity, over the basis in which the model is      *)
(* presented to users (the null basis in cga).                                 *)
Denote(g, kind, es, v) ==
    CASE kind \in {"scalar", "real"} -> Scalar(v[1])
      [] kind = "ent" -> FromSeq(es, v)
      [] g = "vga" /\ kind = "vector" -> FromSeq(<<1, 2, 4>>, v)
      (* cos, sin, x, y, z *)
      [] g = "vga" /\ kind = "rotor" ->
            FromSeq(<<0, 3, 5, 6>>, <<v[1], FNeg(F2(v[5], v[2])), F2(v[4], v[2]), FNeg(F2(v[3], v[2]))>>)
      [] g = "pga" /\ kind = "rotor" ->
            FromSeq(<<0, 6, 10, 12>>, <<v[1], F2(v[5], v[2]), FNeg(F2(v[4], v[2])), F2(v[3], v[2])>>)
      (* d, x, y, z *)
      [] g = "pga" /\ kind = "translator" ->
            FromSeq(<<0, 3, 5, 9>>, <<1, FNeg(H(F2(v[1], v[2]))), FNeg(H(F2(v[1], v[3]))), FNeg(H(F2(v[1], v[4])))>>)
      [] g = "pga" /\ kind = "motor" -> FromSeq(<<0, 3, 5, 6, 9, 10, 12, 15>>, v)
      [] g = "pga" /\ kind = "plane" -> FromSeq(<<1, 2, 4, 8>>, v)
      [] g = "pga" /\ kind = "point" -> FromSeq(<<7, 11, 13, 14>>, v)
      [] g = "pga" /\ kind = "vector" -> FromSeq(<<13, 11, 7>>, <<FNeg(v[1]), v[2], FNeg(v[3])>>)
      (* dx, dy, dz, mx, my, mz *)
      [] g = "pga" /\ kind = "line" ->
            FromSeq(<<12, 10, 6, 3, 5, 9>>, <<FNeg(v[1]), v[2], FNeg(v[3]), FNeg(v[4]), FNeg(v[5]), FNeg(v[6])>>)
      (* a Euclidean point bound into projective space *)
      [] g = "pga" /\ kind = "vpoint" -> FromSeq(<<13, 11, 7, 14>>, <<FNeg(v[1]), v[2], FNeg(v[3]), 1>>)
      [] g = "pga2" /\ kind = "line" -> FromSeq(<<1, 2, 4>>, v)
      [] g = "pga2" /\ kind = "point" -> FromSeq(<<5, 3, 6>>, <<FNeg(v[1]), v[2], 1>>)
      [] g = "pga2" /\ kind = "vector" -> FromSeq(<<5, 3>>, <<FNeg(v[1]), v[2]>>)
      [] g = "cga" /\ kind = "point" ->
            FromSeq(<<1, 2, 4, 8, 16>>, <<v[1], v[2], v[3], 1,
                H(FAdd(FAdd(F2(v[1], v[1]), F2(v[2], v[2])), F2(v[3], v[3])))>>)

(* Fields read back when the entity is constructed from a multivector (over    *)
(* the presented basis).  Projective points are homogenised.                   *)
ReadBack(g, kind, x) ==
    LET c(e) == Coef(x, e) IN
    CASE g = "vga" /\ kind = "vector" -> <<c(1), c(2), c(4)>>
      [] g = "pga" /\ kind = "motor" -> <<c(0), c(3), c(5), c(6), c(9), c(10), c(12), c(15)>>
      [] g = "pga" /\ kind = "plane" -> <<c(1), c(2), c(4), c(8)>>
      [] g = "pga" /\ kind = "vector" -> <<FNeg(c(13)), c(11), FNeg(c(7))>>
      [] g = "pga" /\ kind = "line" -> <<FNeg(c(12)), c(10), FNeg(c(6)), FNeg(c(3)), FNeg(c(5)), FNeg(c(9))>>
      [] g = "pga" /\ kind = "vpoint" ->
            LET w == FInv(c(14)) IN <<FNeg(F2(c(13), w)), F2(c(11), w), FNeg(F2(c(7), w))>>
      [] g = "pga2" /\ kind = "line" -> <<c(1), c(2), c(4)>>
      [] g = "pga2" /\ kind = "point" -> LET w == FInv(c(6)) IN <<FNeg(F2(c(5), w)), F2(c(3), w)>>
      [] g = "pga2" /\ kind = "vector" -> <<FNeg(c(5)), c(3)>>
      [] g = "cga" /\ kind = "point" -> <<c(1), c(2), c(4)>>

Fields == [vector |-> 3, rotor |-> 5, translator |-> 4, motor |-> 8, plane |-> 4,
           line |-> 6, vpoint |-> 3, point |-> 3, scalar |-> 1, real |-> 1]
Size(g, kind, es) ==
    CASE kind = "ent" -> Len(es)
      [] g = "pga" /\ kind = "point" -> 4
      [] g = "pga2" /\ kind = "line" -> 3
      [] g = "pga2" /\ kind \in {"point", "vector"} -> 2
      [] OTHER -> Fields[kind]

Kinds == [vga |-> {"vector", "rotor"},
          pga |-> {"rotor", "translator", "motor", "plane", "point", "vector", "line", "vpoint"},
          pga2 |-> {"line", "point", "vector"},
          cga |-> {"point"}, sta |-> {}, mixed |-> {}, flat |-> {}, deep |-> {}, cra |-> {}]
Readable == [vga |-> {"vector"},
             pga |-> {"motor", "plane", "vector", "line", "vpoint"},
             pga2 |-> {"line", "point", "vector"},
             cga |-> {"point"}, sta |-> {}, mixed |-> {}, flat |-> {}, deep |-> {}, cra |-> {}]
=============================================================================
