-------------------------------- MODULE GenHist --------------------------------
(* Histories of the containers, for replay.  In checking mode every history of  *)
(* length HIST_LEN is printed; in simulation mode, random ones.                 *)
EXTENDS Containers, Json, IOUtils, TLC
Kind == IOEnv.HIST_KIND
MaxLen == atoi(IOEnv.HIST_LEN)
(* Long histories go deep: a large capacity, and pushes outnumber the rest.     *)
Deep == "HIST_DEEP" \in DOMAIN IOEnv
Cap == IF Deep THEN 40 ELSE 6
VARIABLES st, init, hist, step
vars == <<st, init, hist, step>>

Fresh == 10 + Len(hist)
StackOps == {<<"push", Fresh>>, <<"pop", 0>>, <<"peek", 0>>, <<"poke", Fresh + 50>>, <<"clear", 0>>, <<"empty", 0>>}
            \union {<<o, n>> : o \in {"popn", "peekn"}, n \in {1, 2, 3}} \union {<<"at", n>> : n \in 0..2}
            \union (IF ~Deep THEN {} ELSE {<<"push", Fresh + n>> : n \in 1..18} \union {<<"peekn", n>> : n \in {5, 8, 12}} \union {<<"at", n>> : n \in {4, 9, 15, 20}}
                    \union {<<"popn", 4>>})
Types == 0..3
TupleOps(t) == {<<"push", 0, ty, Fresh>> : ty \in Types} \union {<<"append", 0, ty, Fresh>> : ty \in Types}
            \union {<<o, 0, 0, 0>> : o \in {"pop", "back", "apply", "applyr"}}
            \union {<<o, n, 0, Fresh>> : o \in {"split0", "split1", "drop0", "drop1", "set", "get"}, n \in 0..Len(t)}
            \union {<<o, 0, ty, 0>> : o \in {"find", "attype0", "attype1"}, ty \in Types}
            \union {<<"mutate", 0, 0, 100>>}
Arity == IF "HIST_WIDE" \in DOMAIN IOEnv THEN 10 ELSE 5
(* Starts of every arity with all, some or no types repeated.                   *)
TupleInits == {[i \in 1..n |-> <<(a + i * k) % 4, i>>] : n \in 0..Arity, a \in 0..3, k \in 0..3}

Init == /\ hist = <<>> /\ step = 0
        /\ init \in (IF Kind = "tuple" THEN TupleInits ELSE {<<>>})
        /\ st = init
Step == /\ step < MaxLen
        /\ step' = step + 1
        /\ IF Kind = "stack"
           THEN \E o \in StackOps : StackDefined(st, o, Cap) /\ (o[1] = "poke" => st # <<>>)
                    /\ st' = StackStep(st, o) /\ hist' = Append(hist, o)
           ELSE \E o \in TupleOps(st) : TupleDefined(st, o) /\ (o[1] \in {"push", "append"} => Len(st) < Arity + 2)
                    /\ st' = TupleStep(st, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED init
Emit == /\ step = MaxLen /\ step' = MaxLen + 1
         /\ PrintT(<<"HIST", ToJson([init |-> init, ops |-> hist])>>)
         /\ UNCHANGED <<st, init, hist>>
Next == Step \/ Emit
================================================================================
