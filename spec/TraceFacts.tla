------------------------------- MODULE TraceFacts ------------------------------
(* Conformance of the pure building blocks: every recorded fact is judged by    *)
(* the module that specifies it.  A record carries a batch of facts of a kind.  *)
EXTENDS Rat, Bits, Containers, Text, Blade, Geo, Reals, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES idx, phase
Rec == Trace[idx]

(* Blades: the signature, one row of each product table, and derived facts.     *)
PairOf(sig, c, e) == IF c = 0 THEN <<0, 0>> ELSE <<e, c>>
SamePair(got, c, e) == IF c = 0 THEN got[2] = 0 ELSE got = <<e, c>>
BladeRow(r) ==
    LET sig == Signature(r.p, r.v, r.r) n == Len(sig) a == r.a
        Row(name, got, Coeff(_, _, _)) ==
            {<<name, b - 1>> : b \in {b \in 1..Pow2(n) : ~SamePair(got[b], Coeff(sig, a, b - 1), a ^^ (b - 1))}}
    IN Row("gp", r.gp, GpCoeff) \union Row("ep", r.ep, EpCoeff) \union Row("lc", r.lc, LcCoeff) \union Row("sip", r.sip, SipCoeff)
       \union (IF r.rev # RevCoeff(a) THEN {<<"rev", a>>} ELSE {})
       \union (IF r.dual # <<Compl(n, a), DualCoeff(n, a)>> THEN {<<"dual", a>>} ELSE {})
BladeSpans(r) ==
    LET sig == Signature(r.p, r.v, r.r) n == Len(sig)
        Asc(S) == SetToSortSeq(S, <)
    IN (IF r.ps # <<Pow2(n) - 1, 1>> THEN {<<"ps", 0>>} ELSE {})
       \union (IF r.r = 0 /\ r.psinv # <<Pow2(n) - 1, PsInvCoeff(sig)>> THEN {<<"psinv", 0>>} ELSE {})
       \union (IF r.even # Asc({e \in Elems(n) : Grade(e) % 2 = 0}) THEN {<<"even", 0>>} ELSE {})
       \union (IF n >= 2 /\ r.biv # Asc({e \in Elems(n) : Grade(e) = 2}) THEN {<<"biv", 0>>} ELSE {})

(* The maps of the multivector whose component e is e + 1.                       *)
UnaryMaps(r) ==
    LET n == r.p + r.v + r.r
        All(S, C(_)) == LET s == SetToSortSeq(S, <) IN [i \in DOMAIN s |-> <<s[i], C(s[i])>>]
    IN (IF r.rev # All(Elems(n), LAMBDA e : RevCoeff(e) * (e + 1)) THEN {<<"rev", n>>} ELSE {})
       \union (IF r.dual # All(Elems(n), LAMBDA e : DualCoeff(n, Compl(n, e)) * (Compl(n, e) + 1)) THEN {<<"dual", n>>} ELSE {})
       \union {<<"grd", g>> : g \in {g \in 0..n : r.grd[g + 1] # All({e \in Elems(n) : Grade(e) = g}, LAMBDA e : e + 1)}}

Judge(r) ==
    CASE r.k = "blade" -> BladeRow(r)
      [] r.k = "unary" -> UnaryMaps(r)
      [] r.k = "span" -> BladeSpans(r)
      [] r.k = "rat" -> {<<r.op, i>> : i \in {i \in DOMAIN r.f :
            RDefined(r.op, r.x, <<r.f[i][1], r.f[i][2]>>)
            /\ RJudge(r.op, r.x, <<r.f[i][1], r.f[i][2]>>, <<r.f[i][3], r.f[i][4]>>) # {}}}
      [] r.k = "rcmp" -> {<<r.op, i>> : i \in {i \in DOMAIN r.f :
            (r.f[i][3] = 1) # RTruth(r.op, r.x, <<r.f[i][1], r.f[i][2]>>)}}
      [] r.k = "rflt" -> {<<"float", i>> : i \in {i \in DOMAIN r.f : ~RNear(<<r.f[i][1], r.f[i][2]>>, r.f[i][3])}}
      [] r.k = "word" -> {<<r.op, i>> : i \in {i \in DOMAIN r.f : r.f[i][2] # BitsApply(r.op, r.f[i][1])}}
      [] r.k = "pow" -> {<<"pow", i>> : i \in {i \in DOMAIN r.f : r.f[i][2] # FPowZ(r.f[i][1], r.n)}}
      [] r.k = "root" -> {<<"root", i>> : i \in {i \in DOMAIN r.f :
            IF r.n >= 0 THEN RAbs(r.f[i][2] - 1000 * r.f[i][1]^r.n) > 1
            ELSE RAbs(r.f[i][2] * r.f[i][1]^(-r.n) - 1000000) > r.f[i][1]^(-r.n)}}
      [] r.k = "stack" -> IF StackRun(<<>>, r.ops) # r.res THEN {<<"stack", 0>>} ELSE {}
      [] r.k = "tuple" -> IF TupleRun(r.init, r.ops) # r.res THEN {<<"tuple", 0>>} ELSE {}
      [] r.k = "sort" -> {<<r.ord, i>> : i \in {i \in DOMAIN r.f : ~Sorted(r.ord, r.f[i][1], r.f[i][2], r.f[i][3], r.f[i][4])}}
      [] r.k = "geo" -> IF GeoTrue(r.f) THEN {} ELSE {<<r.f[1], 0>>}
      [] r.k = "num" -> IF NumTrue(r.f) THEN {} ELSE {<<r.f[1], 0>>}
      [] r.k = "const" -> IF RealNear(r.name, r.cut, r.v, r.tol) THEN {} ELSE {<<r.name, 0>>}
      [] r.k = "text" -> IF r.text # Render(r.es, r.vs) THEN {<<"text", 0>>} ELSE {}

Init == idx = 0 /\ phase = "next"
Load == phase = "next" /\ idx < Len(Trace) /\ idx' = idx + 1 /\ phase' = "judge"
Check == /\ phase = "judge"
         /\ LET c == Judge(Rec) IN
            IF c = {} THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([id |-> Rec.id, what |-> SetToSeq(c)])>>)
         /\ phase' = "next" /\ UNCHANGED idx
Finish == phase = "next" /\ idx = Len(Trace) /\ phase' = "done" /\ PrintT(<<"TRACE-COMPLETE", idx>>) /\ UNCHANGED idx
Next == Load \/ Check \/ Finish
================================================================================
