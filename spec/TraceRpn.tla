-------------------------------- MODULE TraceRpn --------------------------------
(* Conformance of the builder and the subexpression elimination: every node    *)
(* list recorded while a program was built denotes the register of the         *)
(* expression machine, and the reshaped list denotes what the list before did. *)
EXTENDS Rpn, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES idx, phase, bad
vars == <<machine, idx, phase, bad>>
Rec == Trace[idx]
NIn == Len(inputs)

(* The expression of register r: recorded, or an input.                        *)
Expr0(r) == IF r <= NIn THEN [q |-> <<1, 1>>, nodes |-> << <<"id", r - 1, 0, 0>> >>] ELSE Rec.regs[r - NIn]
Nodes(r) == Expr0(r)

BuildComplaint(r) ==
    LET e == Eval(Rec.regs[r - NIn], 1) IN
    IF ~e.ok THEN {<<"malformed", r>>} ELSE IF e.res[1] # reg[r] THEN {<<"build", r>>} ELSE {}
ReshapeComplaint ==
    LET w == Len(Rec.outs)
        e == Eval(Rec.out, w)
        before == [o \in 1..w |-> Eval(Nodes(Rec.outs[o]), 1)]
    IN IF \E o \in 1..w : ~before[o].ok THEN {}
       ELSE IF ~e.ok THEN {<<"reshape-malformed", 0>>}
       ELSE IF \E o \in 1..w : e.res[o] # before[o].res[1] THEN {<<"reshape", 0>>}
       ELSE IF ~Evaluable(Rec.out.nodes) THEN {<<"reshape-operand", 0>>}
       ELSE {}

Init == /\ alg = "vga" /\ inputs = <<>> /\ vals = <<>> /\ code = <<>> /\ reg = <<>>
        /\ idx = 0 /\ phase = "next" /\ bad = {}
Load == /\ phase = "next" /\ idx < Len(Trace)
        /\ idx' = idx + 1 /\ phase' = "run" /\ bad' = {}
        /\ Start(Trace[idx + 1].alg, Trace[idx + 1].ins, Trace[idx + 1].vals)
Build == /\ phase = "run" /\ Len(code) < Len(Rec.code)
         /\ Exec(Rec.code[Len(code) + 1])
         /\ phase' = "look"
         /\ UNCHANGED <<idx, bad>>
Look == /\ phase = "look"
        /\ bad' = IF bad = {} THEN BuildComplaint(Len(reg)) ELSE bad
        /\ phase' = "run" /\ UNCHANGED <<machine, idx>>
Compare == /\ phase = "run" /\ Len(code) = Len(Rec.code)
           /\ LET c == bad \union ReshapeComplaint IN
              IF c = {} THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([id |-> Rec.id, what |-> SetToSeq({x[1] : x \in c}),
                  reg |-> SetToSeq({x[2] : x \in c})])>>)
           /\ phase' = "next" /\ UNCHANGED <<machine, idx, bad>>
Finish == /\ phase = "next" /\ idx = Len(Trace) /\ phase' = "done"
          /\ PrintT(<<"TRACE-COMPLETE", idx>>)
          /\ UNCHANGED <<machine, idx, bad>>
Next == Load \/ Build \/ Look \/ Compare \/ Finish
=============================================================================
