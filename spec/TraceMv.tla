-------------------------------- MODULE TraceMv --------------------------------
(* Conformance of the symbolic multivector algebra: every recorded multivector *)
(* is canonical, and its value at pseudo-random points is the operation applied *)
(* to the values of its operands.  Works in the orthonormal basis throughout.  *)
EXTENDS Expr, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES idx, pc, bad
vars == <<machine, idx, pc, bad>>
Rec == Trace[idx]
Points == 1..2
MaxId == 24
(* The square root of the value of each indeterminate at each point (exponents *)
(* may be halves).                                                             *)
Y == [id \in 0..MaxId |-> [k \in Points |-> FPow(3 + 4 * k, 37 * id + 11 + 1000 * k)]]
X == [id \in 0..MaxId |-> [k \in Points |-> FMul(Y[id][k], Y[id][k])]]

(* Recorded form: inds <<id, num, den>>, mons <<num, den, dnum, dden, count,    *)
(* offset>>, terms <<element, count, offset>>.                                  *)
MonInds(m, j) == SubSeq(m.inds, m.mons[j][6] + 1, m.mons[j][6] + m.mons[j][5])
TermMons(m, t) == (m.terms[t][3] + 1)..(m.terms[t][3] + m.terms[t][2])

(* ranges [offset, offset + count) of the items tile 0..n-1                     *)
Tile(off, cnt, n) ==
    /\ \A i \in DOMAIN off : cnt[i] >= 0 /\ off[i] >= 0 /\ off[i] + cnt[i] <= n
    /\ \A i, j \in DOMAIN off : i < j => off[i] + cnt[i] <= off[j] \/ off[j] + cnt[j] <= off[i] \/ cnt[i] = 0 \/ cnt[j] = 0
    /\ FoldFunction(+, 0, cnt) = n

(* rational comparison (positive denominators)                                  *)
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
IndLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ RLess(<<x[2], x[3]>>, <<y[2], y[3]>>))
RECURSIVE SeqLess(_, _, _)
SeqLess(x, y, i) ==
    IF i > Len(x) THEN Len(y) >= i
    ELSE IF i > Len(y) THEN FALSE
    ELSE IndLess(x[i], y[i]) \/ (~IndLess(y[i], x[i]) /\ SeqLess(x, y, i + 1))
MonLess(m, a, b) ==
    LET da == <<m.mons[a][3], m.mons[a][4]>> db == <<m.mons[b][3], m.mons[b][4]>> IN
    RLess(da, db) \/ (REq(da, db) /\ SeqLess(MonInds(m, a), MonInds(m, b), 1))

WellFormed(m) ==
    /\ m.size = <<Len(m.inds), Len(m.mons), Len(m.terms)>>
    /\ Tile([t \in DOMAIN m.terms |-> m.terms[t][3]], [t \in DOMAIN m.terms |-> m.terms[t][2]], Len(m.mons))
    /\ Tile([j \in DOMAIN m.mons |-> m.mons[j][6]], [j \in DOMAIN m.mons |-> m.mons[j][5]], Len(m.inds))
    /\ \A t \in DOMAIN m.terms : m.terms[t][1] \in Elems(N[alg])
    /\ \A i \in DOMAIN m.inds : m.inds[i][1] \in 0..MaxId /\ m.inds[i][3] > 0 /\ (2 * m.inds[i][2]) % m.inds[i][3] = 0
    /\ \A j \in DOMAIN m.mons : m.mons[j][2] > 0 /\ m.mons[j][4] > 0
Canonical(m) ==
    /\ \A t \in 1..(Len(m.terms) - 1) : m.terms[t][1] < m.terms[t + 1][1]
    /\ \A t \in DOMAIN m.terms :
        /\ m.terms[t][2] > 0
        /\ \A j \in TermMons(m, t) : j + 1 \in TermMons(m, t) => MonLess(m, j, j + 1)
    /\ \A j \in DOMAIN m.mons :
        LET is == MonInds(m, j) IN
        /\ m.mons[j][1] # 0
        /\ \A i \in 1..(Len(is) - 1) : is[i][1] < is[i + 1][1]
        /\ \A i \in DOMAIN is : is[i][2] # 0
        /\ REq(<<m.mons[j][3], m.mons[j][4]>>, <<FoldFunction(+, 0, [i \in DOMAIN is |-> (2 * is[i][2]) \div is[i][3]]), 2>>)

MonVal(m, j, k) ==
    LET is == MonInds(m, j)
    IN FMul(FRat(m.mons[j][1], m.mons[j][2]),
            FoldFunction(FMul, 1, [i \in DOMAIN is |-> FPowZ(Y[is[i][1]][k], (2 * is[i][2]) \div is[i][3])]))
TermVal(m, t, k) == FoldFunctionOnSet(FAdd, 0, [j \in DOMAIN m.mons |-> MonVal(m, j, k)], TermMons(m, t))
At(m, k) == Trim([e \in {m.terms[t][1] : t \in DOMAIN m.terms} |->
    LET t == CHOOSE t \in DOMAIN m.terms : m.terms[t][1] = e IN TermVal(m, t, k)])
Value2(m) == [k \in Points |-> At(m, k)]

(* Orthonormal meaning of the operations (no change of basis).                  *)
MeaningO(i, x, y) ==
    CASE i.op = "lit" -> LitValue(i)
      [] i.op = "comp" -> Scalar(Coef(x, i.e))
      (* scaled and shifted by rationals here *)
      [] i.op = "nmul" -> Scale(FRat(i.n, i.d), x)
      [] i.op \in {"addn", "nadd"} -> Add(x, Scalar(FRat(i.n, i.d)))
      [] i.op = "subn" -> Sub(x, Scalar(FRat(i.n, i.d)))
      [] i.op = "nsub" -> Sub(Scalar(FRat(i.n, i.d)), x)
      [] OTHER -> Meaning(alg, i, x, y)

NIn == Len(Rec.ins)
(* An input is what it was recorded to be, if it carries monomials of its own,  *)
(* or one indeterminate per element.                                            *)
Want(r) == IF r <= NIn THEN IF Rec.rich[r] = 1 THEN Value2(Rec.regs[r]) ELSE
    [k \in Points |-> FromSeq(Rec.ins[r].es, [j \in DOMAIN Rec.ins[r].es |-> X[Rec.ids[r] + j - 1][k]])]
    ELSE LET i == Rec.code[r - NIn] IN
         [k \in Points |-> MeaningO(i, IF i.op = "lit" THEN Zero ELSE reg[i.a][k], IF i.op \in Bin THEN reg[i.b][k] ELSE Zero)]

(* A common denominator of the coefficients (capped): where those that arise    *)
(* may reach 1024, the library is free to approximate them.                     *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Cap0 == 4000
Join(a, b) == IF a >= Cap0 \/ b >= Cap0 THEN Cap0 ELSE (a \div Gcd(a, b)) * b
Denom(m) == FoldFunction(Join, 1, [j \in DOMAIN m.mons |-> m.mons[j][2]])
Times(a, b) == IF a >= Cap0 \/ b >= Cap0 THEN Cap0 ELSE a * b
Approximate(r) == r > NIn /\
    LET i == Rec.code[r - NIn]
        x == IF i.op = "lit" THEN 1 ELSE Denom(Rec.regs[i.a])
        y == IF i.op \in Bin THEN Denom(Rec.regs[i.b]) ELSE IF i.op = "ndiv" THEN IF i.n < 0 THEN -i.n ELSE i.n ELSE i.d
    IN Times(Times(x, y), IF i.op = "sw" THEN y ELSE 1) >= 1024
ComplainM(m, want) ==
    IF ~WellFormed(m) THEN {"malformed"}
    ELSE (IF Canonical(m) THEN {} ELSE {"canonical"}) \union (IF Value2(m) = want THEN {} ELSE {"value"})
Tag(c, t) == {t : x \in c}

Init == /\ alg = "vga" /\ inputs = <<>> /\ vals = <<>> /\ code = <<>> /\ reg = <<>>
        /\ idx = 0 /\ pc = 0 /\ bad = {}
Load == /\ pc = 0 /\ idx < Len(Trace)
        /\ idx' = idx + 1 /\ pc' = 1 /\ bad' = {}
        /\ alg' = Trace[idx + 1].alg /\ reg' = <<>>
        /\ UNCHANGED <<inputs, vals, code>>
(* Register r: judge the record, then continue from what was recorded.          *)
StepR == /\ pc > 0 /\ pc <= Len(Rec.regs)
         /\ LET c0 == ComplainM(Rec.regs[pc], Want(pc))
                c == IF "value" \in c0 /\ Approximate(pc) THEN c0 \ {"value"} ELSE c0
            IN
            /\ bad' = bad \union {<<x, IF pc <= NIn THEN "input" ELSE Rec.code[pc - NIn].op>> : x \in c}
            /\ IF "malformed" \in c
               THEN pc' = -1 /\ UNCHANGED reg
               ELSE pc' = pc + 1 /\ reg' = Append(reg, Value2(Rec.regs[pc]))
         /\ UNCHANGED <<alg, inputs, vals, code, idx>>
Most(s) == FoldFunction(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)
Extent(m) == <<Most([j \in DOMAIN m.mons |-> m.mons[j][5]]), Most([t \in DOMAIN m.terms |-> m.terms[t][2]]), Len(m.terms)>>
(* Changes of basis and extraction of the last register, then the report.       *)
LastC == IF Denom(Rec.regs[Len(reg)]) >= 256 THEN {} ELSE
    LET x == reg[Len(reg)]
        E(m, w, t) == {<<y, t>> : y \in ComplainM(m, w)}
    IN (IF Rec.nat = <<>> THEN {} ELSE
        E(Rec.nat[1], [k \in Points |-> ToNatural(Rec.alg, x[k])], "natural")
        \union E(Rec.nat[2], [k \in Points |-> ToNull(Rec.alg, x[k])], "null")
        \union E(Rec.nat[3], x, "roundtrip"))
       (* dividing by (n/d) times a power (in halves) of an indeterminate: the order of *)
       (* the monomials need not be kept, for quotients are only ever referred to       *)
       \union UNION {E(Rec.div[j], [k \in Points |-> Scale(FDiv(FPowZ(Y[Rec.by[j][3]][k], -Rec.by[j][4]), FRat(Rec.by[j][1], Rec.by[j][2])), x[k])], "divide")
                       \ {<<"canonical", "divide">>} : j \in DOMAIN Rec.div}
       \union (IF Rec.extent = Extent(Rec.regs[Len(reg)]) THEN {} ELSE {<<"value", "extent">>})
       \union UNION {E(Rec.ext[j], [k \in Points |-> Restrict2(x[k], {Rec.keep[j][i] : i \in DOMAIN Rec.keep[j]})], "extract") : j \in DOMAIN Rec.ext}
Report(c) == IF c = {} THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([id |-> Rec.id, what |-> SetToSeq({x[1] : x \in c}),
                 op |-> SetToSeq({x[2] : x \in c})])>>)
Judged == /\ idx > 0 /\ pc > 0 /\ pc = Len(Rec.regs) + 1
          /\ Report(bad \union LastC)
          /\ pc' = 0 /\ UNCHANGED <<machine, idx, bad>>
Broken == /\ pc = -1 /\ Report(bad) /\ pc' = 0 /\ UNCHANGED <<machine, idx, bad>>
Finish == /\ pc = 0 /\ idx = Len(Trace) /\ pc' = -2
          /\ PrintT(<<"TRACE-COMPLETE", idx>>) /\ UNCHANGED <<machine, idx, bad>>
Next == Load \/ StepR \/ Judged \/ Broken \/ Finish
=============================================================================
