------------------------------ MODULE TraceExpr -------------------------------
(* Conformance: recorded evaluations of compute() are behaviours of the        *)
(* expression machine.  Each record is re-executed with the machine's own      *)
(* actions, then the recorded results are compared with the registers.         *)
EXTENDS Expr, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES idx, phase
vars == <<machine, idx, phase>>

Rec == Trace[idx]

(* The elements listed are strictly ascending.                                 *)
Ascending(els) == \A i \in 1..(Len(els) - 1) : els[i] < els[i + 1]
Listed(els) == {els[i] : i \in DOMAIN els}
(* A result lists every non-zero component with its value.                     *)
SameValue(x, els, vs) ==
    /\ Len(els) = Len(vs)
    /\ \A i \in DOMAIN els : vs[i] = Coef(x, els[i])
    /\ DOMAIN x \subseteq Listed(els)

(* A program in which no subterm occurs twice (up to a scale factor) and       *)
(* nothing has to be extracted is evaluated as a single polynomial, so its     *)
(* result lists no component that is identically zero.                         *)
Operands(i) == IF i.op = "lit" THEN <<>> ELSE IF i.op \in Bin THEN <<i.a, i.b>> ELSE <<i.a>>
ScaleOps == {"nmul", "ndiv", "neg"}
Sums == {"add", "sub", "addn", "nadd", "subn", "nsub"}
RECURSIVE Base(_, _)
Base(c, r) == LET n == Len(inputs) IN
    IF r <= n THEN r ELSE IF c[r - n].op \in ScaleOps THEN Base(c, c[r - n].a) ELSE r
Pieces(c, i) ==
    LET a == Base(c, i.a) b == Base(c, i.b) IN
    CASE i.op = "rp" -> {<<"dual", a>>, <<"dual", b>>, <<"rp", a, b>>}
      [] i.op = "sw" -> {<<"rev", b>>, <<"gp", b, a>>, <<"sw", a, b>>}
      [] i.op = "scp" -> {<<"gp", a, b>>, <<"gp", b, a>>}
      [] i.op \in {"rev", "dual"} -> {<<i.op, a>>}
      [] i.op \in Bin -> {<<i.op, a, b>>}
      [] i.op = "lit" -> {<<i.op, i.e>>}
      [] i.op \in Sums -> {<<"sum", a>>}
      [] OTHER -> {<<i.op, a, i.n, i.e>>}
Simple(c) ==
    LET n == Len(inputs)
        Real == {j \in DOMAIN c : c[j].op \notin ScaleOps}
        OpndBase(j) == LET o == Operands(c[j]) IN [q \in DOMAIN o |-> Base(c, o[q])]
        Uses(r) == Cardinality({<<j, q>> \in Real \X {1, 2} : q <= Len(Operands(c[j])) /\ OpndBase(j)[q] = r})
                   + Cardinality({o \in DOMAIN Rec.outs : Base(c, Rec.outs[o]) = r})
        Composite(r) == r > n /\ c[r - n].op # "lit"
        OpOf(r) == IF r > n THEN c[r - n].op ELSE "input"
        Chain(j, op) == c[j].op = op /\ \E q \in DOMAIN Operands(c[j]) : OpOf(OpndBase(j)[q]) \in {op} \union Sums
    (* (the harness passes Euclidean points at odd positions as projective points,    *)
    (* whose weight is then an argument like the others)                              *)
    IN /\ \A r \in DOMAIN inputs : inputs[r].kind = "vpoint" => r % 2 = 0
       /\ \A j \in DOMAIN c : c[j].op \notin UnC \union {"div", "idiv", "sqrt", "sin", "cos", "tan"}
       /\ \A j \in DOMAIN c : c[j].op \in UnI \union {"lit"} => c[j].n # 0
       /\ \A r \in (n + 1)..(n + Len(c)) : Composite(r) => Uses(r) <= 1
       /\ \A j \in DOMAIN c : c[j].op = "sw" => ~Composite(OpndBase(j)[2])
       /\ \A j \in DOMAIN c : c[j].op \in {"rp", "add", "sub", "scp"} => OpndBase(j)[1] # OpndBase(j)[2]
       /\ \A j \in DOMAIN c : c[j].op = "rev" => OpOf(OpndBase(j)[1]) # "rev"
       /\ \A j, k \in Real : j # k => Pieces(c, c[j]) \intersect Pieces(c, c[k]) = {}
       /\ Cardinality({j \in DOMAIN c : Chain(j, "ep")}) <= 1
       /\ Cardinality({j \in DOMAIN c : c[j].op \in {"add", "sub"}}) <= 1
Minimal(o) == \A e \in Listed(Rec.res[1][o][1]) :
    \E k \in 1..Len(vals) : Coef(Out(alg, reg[Rec.outs[o]][k]), e) # 0

(* What an entity constructed from the result has to hold.                     *)
FieldsOf(k) == LET x == Out(alg, reg[Rec.outs[1]][k]) IN
    IF Rec.read = "sel" THEN [e \in 1..Pow2(N[alg]) |-> Coef(x, e - 1)] ELSE ReadBack(alg, Rec.read, x)
FieldComplaints == IF \A k \in 1..Len(vals) : Rec.res[k][1][2] = FieldsOf(k) THEN {} ELSE {"fields"}

Complaints ==
    IF Rec.read # "" THEN FieldComplaints ELSE
    LET O == 1..Len(Rec.outs)
        V == 1..Len(vals)
        Want(k, o) == Out(alg, reg[Rec.outs[o]][k])
    IN (IF Len(Rec.res) # Len(vals) \/ \E k \in V : Len(Rec.res[k]) # Len(Rec.outs) THEN {"arity"}
        ELSE UNION {
         {"value" : k \in {k \in V : \E o \in O : ~SameValue(Want(k, o), Rec.res[k][o][1], Rec.res[k][o][2])}},
         {"missing" : k \in {k \in V : \E o \in O : ~(DOMAIN Want(k, o) \subseteq Listed(Rec.res[k][o][1]))}},
         {"order" : k \in {k \in V : \E o \in O : ~Ascending(Rec.res[k][o][1])}},
         {"extra" : o \in {o \in O : Len(vals) > 1 /\ Simple(code) /\ ~Minimal(o)}}})

Report(c) == IF c = {} THEN TRUE ELSE
    PrintT(<<"MISMATCH", ToJson([id |-> Rec.id, what |-> SetToSeq(c),
        want |-> [k \in 1..Len(vals) |-> [o \in 1..Len(Rec.outs) |->
            IF Rec.read # "" THEN <<<<>>, FieldsOf(k)>> ELSE
            LET x == Out(alg, reg[Rec.outs[o]][k]) s == SetToSortSeq(DOMAIN x, <) IN <<s, [j \in DOMAIN s |-> x[s[j]]]>>]]])>>)

Init == /\ alg = "vga" /\ inputs = <<>> /\ vals = <<>> /\ code = <<>> /\ reg = <<>>
        /\ idx = 0 /\ phase = "next"
Load == /\ phase = "next" /\ idx < Len(Trace)
        /\ idx' = idx + 1 /\ phase' = "run"
        /\ Start(Trace[idx + 1].alg, Trace[idx + 1].ins, Trace[idx + 1].vals)
Run == /\ phase = "run" /\ Len(code) < Len(Rec.code)
       /\ Exec(Rec.code[Len(code) + 1])
       /\ UNCHANGED <<idx, phase>>
Compare == /\ phase = "run" /\ Len(code) = Len(Rec.code)
           /\ Report(Complaints)
           /\ phase' = "next" /\ UNCHANGED <<machine, idx>>
Finish == /\ phase = "next" /\ idx = Len(Trace) /\ phase' = "done"
          /\ PrintT(<<"TRACE-COMPLETE", idx>>)
          /\ UNCHANGED <<machine, idx>>
Next == Load \/ Run \/ Compare \/ Finish
=============================================================================
