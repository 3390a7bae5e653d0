---------------------------------- MODULE Text ---------------------------------
(* Text form of an entity.  Values are given in halves.                         *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Gens(_, _)
Gens(e, i) == IF e = 0 THEN "" ELSE (IF e % 2 = 1 THEN ToString(i) ELSE "") \o Gens(e \div 2, i + 1)
Num(h) == LET a == IF h < 0 THEN -h ELSE h
          IN (IF h < 0 THEN "-" ELSE "") \o ToString(a \div 2) \o (IF a % 2 = 1 THEN ".5" ELSE "")
RECURSIVE Render(_, _)
Render(es, vs) ==
    IF es = <<>> THEN "0"
    ELSE LET one == Num(vs[1]) \o (IF es[1] = 0 THEN "" ELSE "e" \o Gens(es[1], 0))
         IN IF Len(es) = 1 THEN one ELSE one \o " + " \o Render(Tail(es), Tail(vs))
================================================================================
