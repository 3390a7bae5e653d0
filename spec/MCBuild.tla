-------------------------------- MODULE MCBuild --------------------------------
(* The design of Build.tla refines the expression machine: for every program    *)
(* within the bound of GenAll.tla, every built expression denotes its register,  *)
(* sums stay ordered and collected, and every admissible choice of shared        *)
(* subexpressions denotes the same and can be evaluated.                         *)
EXTENDS GenAll, Build
VARIABLES built
allvars == <<vars, built>>
InputX(r) == [q |-> <<1, 1>>, nodes |-> <<Node("id", r - 1)>>]
InitB == Init /\ built = [r \in DOMAIN inputs |-> InputX(r)]
GrowB == /\ ~done /\ Len(code) < MaxLen
         /\ \E i \in Candidates :
             /\ Sound(i) /\ Open(Append(code, i)) <= MaxLen - Len(code)
             /\ Exec(i)
             /\ built' = Append(built, BuildIns(i, built[i.a], IF i.op \in Bin THEN built[i.b] ELSE NilX))
         /\ UNCHANGED done
StopB == ~done /\ Len(code) = MaxLen /\ done' = TRUE /\ UNCHANGED <<machine, built>>
NextB == GrowB \/ StopB
SpecB == InitB /\ [][NextB]_allvars

LastX == built[Len(built)]
Builds == LET e == Eval(LastX, 1) IN e.ok /\ e.res[1] = reg[Len(reg)]
Collected == IsNil(LastX) \/ ~IsSumX(LastX) \/
    LET s == SummandsOf(LastX) IN
    /\ Len(s) >= 2
    /\ \A i \in DOMAIN s : s[i][1][1] # 0
    /\ KeyMode # "collide" => \A i, j \in DOMAIN s : i < j => Key(s[i][2]) <= Key(s[j][2])
Shares == done => \A y \in Reshapes(LastX) :
    LET e == Eval(y, 1) IN e.ok /\ e.res[1] = reg[Len(reg)] /\ Evaluable(y.nodes)
(* Registers never change once written.                                          *)
Frame == [][\A r \in DOMAIN reg : r \in DOMAIN reg' /\ reg'[r] = reg[r] /\ built'[r] = built[r]]_allvars
================================================================================
