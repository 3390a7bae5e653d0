--------------------------------- MODULE Gen ----------------------------------
(* Random behaviours of the expression machine, for replay into the library.   *)
(* Run by TLC in simulation mode; the seed determines everything.              *)
EXTENDS Expr, Json, IOUtils

Env(n, default) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE default
Profile == Env("GEN_PROFILE", "core")
AlgList == Env("GEN_ALG", "mix")
K == IF Profile \in {"builder", "merge", "pair"} THEN 2 ELSE 3

VARIABLES info, fuel, target, out
vars == <<machine, info, fuel, target, out>>

Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
Chance(p) == RandomElement(1..100) <= p

(* Multiplicities of the operators per profile.                                *)
RepeatOp(op, n) == [i \in 1..n |-> op]
RECURSIVE Bag(_)
Bag(s) == IF s = <<>> THEN <<>> ELSE RepeatOp(s[1][1], s[1][2]) \o Bag(Tail(s))
Linear == << <<"add", 5>>, <<"sub", 4>>, <<"neg", 2>>, <<"nmul", 4>>, <<"ndiv", 2>>,
             <<"addn", 1>>, <<"nadd", 1>>, <<"subn", 1>>, <<"nsub", 1>> >>
Products == << <<"gp", 5>>, <<"ep", 5>>, <<"rp", 2>>, <<"lc", 3>>, <<"sip", 3>>, <<"sw", 2>>, <<"scp", 2>> >>
Unary == << <<"rev", 3>>, <<"dual", 3>> >>
Select == << <<"comp", 3>>, <<"grd", 3>> >>
ScalarOps == << <<"div", 5>>, <<"idiv", 3>>, <<"sqrt", 3>>, <<"sin", 3>>, <<"cos", 3>>, <<"tan", 2>>,
                <<"cmul", 2>>, <<"mulc", 2>>, <<"cdiv", 2>>, <<"divc", 2>> >>
OpBag == [core |-> Bag(Linear \o Products \o Unary \o << <<"lit", 3>>, <<"comp", 1>>, <<"grd", 1>> >>),
          builder |-> Bag(Linear \o Linear \o Products \o Unary \o << <<"lit", 2>>, <<"comp", 1>>, <<"grd", 1>> >>),
          builders |-> Bag(Linear \o Products \o Unary \o ScalarOps \o << <<"lit", 2>>, <<"comp", 6>>, <<"grd", 1>> >>),
          shape |-> Bag(<< <<"add", 4>>, <<"sub", 4>>, <<"nmul", 1>> >> \o Products \o Unary \o Select \o << <<"lit", 2>> >>),
          long |-> Bag(<< <<"add", 8>>, <<"sub", 6>>, <<"neg", 2>>, <<"nmul", 3>>, <<"ndiv", 1>>, <<"addn", 1>>, <<"nsub", 1>>, <<"gp", 2>>, <<"ep", 4>>, <<"sip", 2>>,
                          <<"lc", 2>>, <<"rp", 1>>, <<"rev", 4>>, <<"dual", 2>>, <<"comp", 3>>, <<"grd", 3>>, <<"lit", 3>>, <<"div", 2>>, <<"sqrt", 1>>, <<"cos", 1>> >>),
          share |-> Bag(Linear \o Products \o Unary \o << <<"lit", 1>>, <<"comp", 2>>, <<"grd", 1>> >>),
          sel |-> Bag(Linear \o Products \o Unary \o Unary \o Select \o Select \o Select \o << <<"lit", 2>> >>),
          div |-> Bag(<< <<"add", 2>>, <<"sub", 2>>, <<"nmul", 2>>, <<"ndiv", 1>>, <<"nadd", 1>>, <<"neg", 1>> >>
                      \o << <<"gp", 3>>, <<"ep", 1>>, <<"sip", 1>>, <<"scp", 2>>, <<"comp", 6>> >> \o ScalarOps),
          tuple |-> Bag(Linear \o Products \o Unary \o << <<"lit", 1>>, <<"comp", 2>>, <<"grd", 1>>, <<"div", 1>>, <<"sqrt", 1>> >>),
          cga |-> Bag(Linear \o Products \o Unary \o << <<"lit", 6>>, <<"comp", 3>>, <<"grd", 2>>, <<"div", 1>> >>),
          atoms |-> Bag(Products \o << <<"ep", 6>>, <<"gp", 4>>, <<"rev", 1>>, <<"dual", 1>>, <<"lit", 1>>, <<"comp", 1>>, <<"nmul", 1>> >>),
          atomss |-> Bag(<< <<"gp", 2>>, <<"ep", 2>>, <<"scp", 2>>, <<"comp", 5>>, <<"sip", 1>>, <<"nmul", 2>> >> \o ScalarOps),
          sums |-> Bag(<< <<"add", 8>>, <<"sub", 6>>, <<"neg", 1>>, <<"nmul", 2>>, <<"ndiv", 1>>, <<"addn", 1>>, <<"nsub", 1>>, <<"ep", 1>>, <<"gp", 1>> >>),
          mv |-> Bag(Linear \o Products \o Products \o Unary \o Select \o << <<"lit", 2>> >>),
          entity |-> Bag(<< <<"add", 3>>, <<"sub", 2>>, <<"nmul", 1>>, <<"sw", 3>>, <<"gp", 3>>, <<"ep", 3>>, <<"rp", 3>>, <<"lit", 2>>,
                            <<"dual", 1>>, <<"rev", 1>>, <<"grd", 1>> >>),
          chain |-> Bag(<< <<"ep", 12>>, <<"add", 5>>, <<"sub", 3>>, <<"nmul", 1>>, <<"neg", 1>>, <<"rev", 1>> >>),
          bindl |-> Bag(<< <<"add", 5>>, <<"sub", 4>>, <<"gp", 5>>, <<"ep", 1>>, <<"nmul", 1>>, <<"rev", 1>> >>),
          power |-> Bag(<< <<"gp", 12>>, <<"div", 4>>, <<"idiv", 2>>, <<"add", 2>>, <<"sub", 1>>, <<"nmul", 1>>, <<"ndiv", 1>>, <<"neg", 1>>, <<"sqrt", 1>> >>),
          wide |-> Bag(Products \o Unary \o Select \o << <<"add", 2>>, <<"sub", 2>>, <<"nmul", 1>> >>),
          poly |-> Bag(<< <<"gp", 4>>, <<"sub", 3>>, <<"add", 2>>, <<"ep", 1>>, <<"rev", 1>>, <<"nmul", 1>> >>),
          many |-> Bag(<< <<"gp", 1>> >>),
          mono |-> Bag(<< <<"gp", 1>> >>),
          bindw |-> Bag(<< <<"add", 6>>, <<"sub", 5>>, <<"gp", 1>>, <<"nmul", 1>> >>),
          bind |-> Bag(<< <<"add", 4>>, <<"sub", 3>>, <<"gp", 4>>, <<"ep", 1>>, <<"nmul", 2>>, <<"scp", 1>>, <<"lit", 1>> >>)]

Algebras == CASE AlgList = "mix" -> << "vga", "pga", "cga", "pga2" >>
              [] AlgList = "user" -> << "sta", "mixed", "flat", "deep" >>
              [] AlgList = "null" -> << "cga", "cga", "cra" >>
              [] OTHER -> << AlgList >>

Lits == [vga |-> {1, 2, 4, 3, 5, 6, 7}, pga2 |-> {1, 2, 4, 3, 5, 6, 7}, pga |-> 1..15, cga |-> {1, 2, 4, 8, 16, 31},
         sta |-> 1..15, mixed |-> 1..15, flat |-> 1..3, deep |-> 1..31, cra |-> {1, 2, 4, 8, 12, 15}]

(* Inputs *)
Swapped(s) == LET i == Pick(DOMAIN s) j == Pick(DOMAIN s) IN [s EXCEPT ![i] = s[j], ![j] = s[i]]
RandEs(g) == IF Profile = "bind" /\ Chance(12) THEN <<>> ELSE
             LET sz == Pick(IF Profile = "reading" THEN 1..7 ELSE IF N[g] = 5 THEN 1..3 ELSE 1..4)
                 S == {Pick(Elems(N[g])) : i \in 1..sz}
             (* components may be stored in any order *)
             IN IF Profile # "mv" /\ Chance(IF Profile \in {"reading", "bind", "entity"} THEN 50 ELSE 15)
                THEN PickSeq(<<SetToSortSeq(S, >), Swapped(SetToSortSeq(S, <)), Swapped(SetToSortSeq(S, >))>>)
                ELSE SetToSortSeq(S, <)
RandInput(g, first, p) ==
    LET c == Pick(1..100) IN
    CASE Profile = "poly" -> [kind |-> "ent", es |-> <<0>>]
      [] Profile = "many" -> IF first \/ c <= 75 THEN [kind |-> "scalar", es |-> <<>>] ELSE [kind |-> "ent", es |-> <<1, 2>>]
      [] Profile = "mono" -> IF first \/ c <= 70 THEN [kind |-> "scalar", es |-> <<>>] ELSE [kind |-> "ent", es |-> <<Pick(Elems(N[g]))>>]
      [] Profile = "bindw" /\ Kinds[g] # {} /\ c > 60 -> [kind |-> IF "motor" \in Kinds[g] /\ Chance(60) THEN "motor" ELSE Pick(Kinds[g]), es |-> <<>>]
      [] Profile = "bindw" /\ c > 8 -> [kind |-> "ent", es |-> LET S == {e \in Elems(N[g]) : Chance(60)} IN IF c % 2 = 0 THEN SetToSortSeq(S, <) ELSE SetToSortSeq(S, >)]
      [] Profile = "power" -> [kind |-> IF first \/ c <= 50 THEN "scalar" ELSE "real", es |-> <<>>]
      [] Profile = "wide" /\ c <= 80 -> [kind |-> "ent", es |-> LET S == {e \in Elems(N[g]) : Chance(75)} IN SetToSortSeq(S, <)]
      [] Profile = "chain" /\ c <= 60 -> [kind |-> "ent", es |-> LET S == {Pow2(Pick(0..(N[g] - 1))) : i \in 1..Pick(1..3)} IN SetToSortSeq(S, <)]
      [] Profile = "chain" /\ g = "cga" -> [kind |-> "point", es |-> <<>>]
      [] Profile = "reading" -> [kind |-> "ent", es |-> RandEs(g)]
      [] Profile = "entity" /\ Kinds[g] # {} /\ c > 30 -> [kind |-> Pick(Kinds[g]), es |-> <<>>]
      [] c <= 55 \/ Profile = "mv" -> [kind |-> "ent", es |-> RandEs(g)]
      [] c <= 65 -> [kind |-> "scalar", es |-> <<>>]
      [] c <= 75 -> [kind |-> IF first /\ Profile # "bind" THEN "scalar" ELSE "real", es |-> <<>>]
      [] Kinds[g] = {} -> [kind |-> "ent", es |-> RandEs(g)]
      [] OTHER -> [kind |-> Pick(Kinds[g]), es |-> <<>>]
(* Entities whose fields multiply are kept to the small profiles of one.        *)
NumInputs(g) == CASE Profile = "reading" -> 1 [] Profile = "wide" -> PickSeq(<<1, 2, 2>>) [] Profile = "poly" -> PickSeq(<<2, 3, 3>>) [] Profile \in {"bindw", "mono"} -> Pick(5..9) [] Profile = "many" -> Pick(3..4) [] Profile = "bind" -> PickSeq(<<2, 3, 3, 4, 4, 5, 6, 8, 10, 15>>) [] Profile = "bindl" -> Pick(3..5) [] Profile = "chain" -> IF g = "cga" THEN Pick(3..5) ELSE IF Chance(70) THEN Pick(3..7) ELSE Pick(8..12) [] Profile \in {"builder", "builders"} -> Pick(1..3) [] Profile \in {"merge", "merges", "pair", "pairs"} -> Pick(2..3) [] Profile = "ident" -> Pick(PickSeq(<<1..1, 2..2, 2..2, 2..3>>)) [] OTHER -> Pick(1..3)
RandInputs(g, n) == LET f[i \in 1..n] == RandInput(g, i = 1, Profile) IN f

SmallVal(z) == IF Chance(IF Profile \in {"entity", "reading"} THEN 25 ELSE 8) THEN 0 ELSE Pick(-9..9)
RandVals(g, ins) ==
    [k \in 1..K |-> [r \in 1..Len(ins) |-> [j \in 1..Size(g, ins[r].kind, ins[r].es) |->
        IF k = 1 THEN SmallVal(j) ELSE Pick(1..(P - 1))]]]
NormVals(vs) == [k \in DOMAIN vs |-> [r \in DOMAIN vs[k] |-> [j \in DOMAIN vs[k][r] |-> FInt(vs[k][r][j])]]]

(* Static bounds: hn bounds the sum of the absolute numerators, hd the common  *)
(* denominator of a register's polynomial coefficients.                        *)
Abs(n) == IF n < 0 THEN -n ELSE n
InputInfo(g, in) ==
    LET sz == Size(g, in.kind, in.es) IN
    [sc |-> in.kind \in {"scalar", "real"},
     hn |-> (IF g \in NullAlgs THEN IF in.kind = "point" THEN 20 ELSE 4 * sz ELSE IF in.kind = "translator" THEN 6 ELSE sz + 1),
     hd |-> IF (g \in NullAlgs /\ in.kind \notin {"scalar", "real"}) \/ in.kind = "translator" THEN 2 ELSE 1]
Lcm(a, b) == LET G == CHOOSE x \in 1..b : a % x = 0 /\ b % x = 0 /\ \A y \in (x + 1)..b : ~(a % y = 0 /\ b % y = 0)
             IN (a \div G) * b
Cap(n) == IF n > 30000 THEN 30000 ELSE n
ResInfo(i) ==
    LET x == info[i.a] y == info[i.b] IN
    CASE i.op = "lit" -> [sc |-> FALSE, hn |-> 2 * Abs(i.n) + 1, hd |-> IF alg \in NullAlgs THEN 2 ELSE 1]
      [] i.op \in {"gp", "ep", "rp", "lc", "sip"} ->
            [sc |-> x.sc /\ y.sc /\ i.op \in {"gp", "ep"}, hn |-> Cap(x.hn * y.hn), hd |-> Cap(x.hd * y.hd)]
      [] i.op = "scp" -> [sc |-> TRUE, hn |-> Cap(x.hn * y.hn), hd |-> Cap(x.hd * y.hd)]
      [] i.op = "sw" -> [sc |-> FALSE, hn |-> Cap(y.hn * Cap(x.hn * y.hn)), hd |-> Cap(y.hd * Cap(x.hd * y.hd))]
      [] i.op \in {"add", "sub"} -> [sc |-> x.sc /\ y.sc, hn |-> Cap(x.hn * y.hd + y.hn * x.hd), hd |-> Cap(x.hd * y.hd)]
      [] i.op \in {"neg", "rev", "dual"} -> [x EXCEPT !.sc = @ /\ i.op # "dual"]
      [] i.op = "comp" -> [sc |-> TRUE, hn |-> IF alg \in NullAlgs THEN Cap(3 * x.hn) ELSE x.hn, hd |-> IF alg \in NullAlgs THEN Cap(2 * x.hd) ELSE x.hd]
      [] i.op = "grd" -> [x EXCEPT !.sc = (i.n = 0)]
      [] i.op = "nmul" -> [x EXCEPT !.hn = Cap(@ * Abs(i.n))]
      [] i.op = "ndiv" -> [x EXCEPT !.hd = Cap(@ * Abs(i.n))]
      [] i.op \in {"addn", "nadd", "subn", "nsub"} -> [x EXCEPT !.hn = Cap(@ + Abs(i.n) * x.hd)]
      [] i.op \in {"cmul", "mulc", "divc"} -> [sc |-> x.sc, hn |-> Cap(x.hn * Abs(i.n) * Abs(i.d)), hd |-> Cap(x.hd * Abs(i.d) * Abs(i.n))]
      [] OTHER -> [sc |-> i.op # "div" \/ x.sc, hn |-> 16, hd |-> 4]

Building == Profile \in {"builder", "builders", "merge", "merges", "pair", "pairs"}
MaxHn == IF Profile \in {"chain", "poly", "mono", "many"} THEN 30000 ELSE IF Building THEN 6000 ELSE 1200
MaxHd == IF Building THEN 500 ELSE 250
Fits(r) == r.hn <= MaxHn /\ r.hd <= MaxHd

ScRegs == {r \in 1..Len(reg) : info[r].sc}
(* Prefer recent registers, so that expressions grow deep, and re-use others,  *)
(* so that they share.                                                         *)
Pairing == Profile \in {"pair", "pairs"}
Merging == Pairing \/ Profile \in {"merge", "merges"}
RandA(z) == LET n == Len(reg) IN IF Merging /\ Chance(60) THEN Pick(1..n) ELSE IF Chance(75) THEN n ELSE IF Chance(40) /\ n > 1 THEN n - 1 ELSE Pick(1..n)
RandB(z) == LET n == Len(reg) IN IF Chance(20) THEN n ELSE IF Chance(30) /\ n > 1 THEN n - 1 ELSE Pick(1..n)
RandSc(z) == IF Chance(60) /\ info[Len(reg)].sc THEN Len(reg) ELSE Pick(ScRegs)
SmallN(z) == PickSeq(<<-3, -2, -1, 1, 2, 3, 0, 2, -2, 5>>)
SmallD(z) == PickSeq(<<2, 3, -2, 4, -1, 2>>)
RandElem(z) == IF Chance(70) /\ \E k \in 1..Len(vals) : DOMAIN Out(alg, reg[Len(reg)][k]) # {}
            THEN Pick(UNION {DOMAIN Out(alg, reg[Len(reg)][k]) : k \in 1..Len(vals)})
            ELSE Pick(Elems(N[alg]))

BagNow == CASE Pairing /\ Len(code) < 3 -> IF Profile = "pair" THEN OpBag.atoms ELSE OpBag.atomss
            [] Pairing -> OpBag.sums
            [] Profile = "merge" -> IF Len(code) < 3 THEN OpBag.atoms ELSE OpBag.sums
            [] Profile = "ident" -> OpBag.sums
            [] Profile = "merges" -> IF Len(code) < 4 THEN OpBag.atomss ELSE OpBag.sums
            [] OTHER -> OpBag[Profile]
(* The unit pseudoscalar and its inverse have literals of their own (d = 2, 3). *)
Full == Pow2(N[alg]) - 1
RandLit == LET n == IF Chance(90) THEN Pick(0..3) ELSE Pick(4..20) IN
    IF Chance(20) THEN Ins("lit", 0, 0, n, 2, Full)
    ELSE IF Chance(12) /\ alg \in {"vga", "cga"} THEN Ins("lit", 0, 0, n, 3, Full)
    ELSE Ins("lit", 0, 0, n, 1, Pick(Lits[alg]))
(* An earlier application again: the same, with its operands exchanged, or with *)
(* one of them replaced.                                                        *)
Earlier == {j \in DOMAIN code : code[j].op \in Bin}
Mirror == LET i == code[Pick(Earlier)] c == Pick(1..100) IN
    IF c <= 50 THEN [i EXCEPT !.a = i.b, !.b = i.a]
    ELSE IF c <= 65 THEN i
    ELSE IF c <= 82 THEN [i EXCEPT !.a = Pick(1..Len(reg))] ELSE [i EXCEPT !.b = Pick(1..Len(reg))]
(* Two sums with related summands, added: registers of the summands, then the   *)
(* sums, then their sum.                                                        *)
AddSub == PickSeq(<<"add", "add", "sub">>)
PairIns(op) == LET n == Len(inputs) c == Len(code) IN
    CASE c = 1 /\ Earlier # {} /\ Chance(70) -> Mirror
      [] c = 3 -> IF Chance(50) THEN Ins(AddSub, n + 1, Pick(1..(n + 3)), 0, 1, 0) ELSE Ins(AddSub, Pick(1..(n + 3)), n + 1, 0, 1, 0)
      [] c = 4 -> IF Chance(50) THEN Ins(AddSub, n + 2, Pick(1..(n + 3)), 0, 1, 0) ELSE Ins(AddSub, Pick(1..(n + 4)), n + 2, 0, 1, 0)
      [] c = 5 -> IF Chance(50) THEN Ins(AddSub, n + 4, n + 5, 0, 1, 0) ELSE Ins(AddSub, n + 5, n + 4, 0, 1, 0)
      [] OTHER -> Ins("none", 0, 0, 0, 0, 0)
(* Two different products of the same operands, combined: like terms meet in a  *)
(* sum without any subexpression being repeated, and often cancel.              *)
ProdOp == PickSeq(<<"gp", "gp", "gp", "sip", "sip", "ep", "ep", "lc", "scp", "rp", "sw">>)
UnOp(r) == LET c == Pick(1..100) IN
    IF c <= 30 THEN Ins("rev", r, 0, 0, 1, 0)
    ELSE IF c <= 45 THEN Ins("dual", r, 0, 0, 1, 0)
    ELSE IF c <= 70 THEN Ins("grd", r, 0, Pick(0..N[alg]), 1, 0)
    ELSE IF c <= 85 THEN Ins("comp", r, 0, 0, 1, RandElem(r))
    ELSE Ins("nmul", r, 0, SmallN(r), 1, 0)
IdentIns(op) == LET n == Len(inputs) c == Len(code) f == code[1] IN
    CASE c = target - 1 -> IF Chance(70) THEN Ins(PickSeq(<<"add", "sub", "sub">>), n + c, n + c - 1, 0, 1, 0)
                           ELSE Ins(PickSeq(<<"add", "sub", "sub">>), n + c - 1, n + c, 0, 1, 0)
      [] target = 6 /\ c = 0 -> Ins("rev", Pick(1..n), 0, 0, 1, 0)
      [] target = 6 /\ c = 1 -> Ins("rev", Pick(1..n), 0, 0, 1, 0)
      [] target = 6 /\ c = 2 -> Ins(ProdOp, f.a, code[2].a, 0, 1, 0)
      [] target = 6 /\ c = 3 -> Ins(PickSeq(<<code[3].op, "gp">>), n + 2, n + 1, 0, 1, 0)
      [] target = 6 -> Ins("rev", n + 3, 0, 0, 1, 0)
      [] c = 0 -> Ins(ProdOp, Pick(1..n), Pick(1..n), 0, 1, 0)
      [] c = 1 -> IF Chance(60) THEN Ins(PickSeq(<<f.op, ProdOp>>), f.b, f.a, 0, 1, 0) ELSE Ins(ProdOp, f.a, f.b, 0, 1, 0)
      [] c = 2 /\ target = 5 -> UnOp(n + 1)
      [] OTHER -> UnOp(n + 2)
(* Many operands joined by one associative operator.                            *)
ChainIns(op) == LET n == Len(inputs) c == Len(code) L == Len(reg) x == IF c + 1 < n THEN c + 2 ELSE Pick(1..n) IN
    IF c = 0 THEN Ins(op, 1, 2, 0, 1, 0) ELSE IF op \notin {"ep", "add", "sub"} \/ Chance(15) THEN Ins("none", 0, 0, 0, 0, 0)
    ELSE LET o == IF c > 0 /\ code[c].op \in Bin /\ Chance(75) THEN code[c].op ELSE op IN
         IF Chance(80) THEN Ins(o, L, x, 0, 1, 0) ELSE Ins(o, x, L, 0, 1, 0)
(* Powers of a sum: many like terms meet.                                       *)
PolyIns(op) == LET n == Len(inputs) c == Len(code) L == Len(reg) IN
    CASE c < n - 1 -> Ins(AddSub, IF c = 0 THEN 1 ELSE n + c, c + 2, 0, 1, 0)
      [] c = n - 1 -> Ins("gp", L, L, 0, 1, 0)
      [] c = n -> Ins("gp", L, IF Chance(50) THEN L ELSE L - 1, 0, 1, 0)
      [] c = n + 1 -> Ins("gp", L, Pick((L - 2)..L), 0, 1, 0)
      [] OTHER -> Ins("none", 0, 0, 0, 0, 0)
(* A product of many different numbers, some of them repeated.                 *)
MonoIns(op) == LET n == Len(inputs) c == Len(code) L == Len(reg)
                   x == IF c < n - 1 THEN c + 2 ELSE IF Chance(50) THEN n ELSE Pick(1..n)
                   o == IF info[x].sc /\ Chance(25) THEN "div" ELSE "gp" IN
    IF c = 0 THEN Ins("gp", 1, 2, 0, 1, 0) ELSE IF o = "gp" /\ Chance(40) THEN Ins(o, x, L, 0, 1, 0) ELSE Ins(o, L, x, 0, 1, 0)
(* Many different products, each used more than once.                          *)
ManyIns(op) == LET n == Len(inputs) c == Len(code) L == Len(reg) m == (target + 1) \div 3 k == c - m t == (k + 1) \div 2 IN
    CASE k < 0 -> Ins(IF c >= 6 /\ Chance(25) THEN "ep" ELSE "gp", (c % n) + 1, (((c \div n) + c) % n) + 1, 0, 1, 0)
      [] k > 0 /\ k % 2 = 0 -> Ins(AddSub, L - 1, L, 0, 1, 0)
      [] OTHER -> Ins("gp", n + (t % m) + 1, n + ((t + Pick(1..(m - 1))) % m) + 1, 0, 1, 0)
RandIns ==
    LET op == PickSeq(BagNow) pr == IF Profile = "many" THEN ManyIns(op) ELSE IF Profile = "mono" THEN MonoIns(op) ELSE IF Profile = "poly" THEN PolyIns(op) ELSE IF Profile = "chain" THEN ChainIns(op) ELSE IF Profile = "ident" THEN IdentIns(op) ELSE IF Pairing THEN PairIns(op) ELSE Ins("none", 0, 0, 0, 0, 0) IN
    CASE pr.op # "none" -> pr
      [] Profile \notin {"mv", "chain", "poly", "mono", "many"} /\ Earlier # {} /\ Chance(IF Merging THEN 25 ELSE 10) -> Mirror
      [] op = "lit" -> RandLit
      [] op \in {"div"} /\ ScRegs # {} -> Ins(op, RandA(op), RandSc(op), 0, 1, 0)
      [] op \in {"sqrt", "sin", "cos", "tan"} /\ ScRegs # {} -> Ins(op, RandSc(op), 0, 0, 1, 0)
      [] op = "idiv" /\ ScRegs # {} -> Ins(op, RandSc(op), 0, PickSeq(<<1, 2, -1, 3>>), 1, 0)
      [] op = "cdiv" /\ ScRegs # {} -> Ins(op, RandSc(op), 0, PickSeq(<<1, 2, -1>>), PickSeq(<<1, 2, -2>>), Pick(0..1))
      [] op \in UnC -> Ins(op, RandA(op), 0, PickSeq(<<1, 2, -1>>), PickSeq(<<1, 2, -2>>), Pick(0..1))
      [] op \in Bin -> IF Chance(70) THEN Ins(op, RandA(op), RandB(op), 0, 1, 0) ELSE Ins(op, RandB(op), RandA(op), 0, 1, 0)
      [] op = "ndiv" -> Ins(op, RandA(op), 0, SmallD(op), 1, 0)
      [] op \in UnI -> Ins(op, RandA(op), 0, SmallN(op), 1, 0)
      [] op = "comp" -> Ins(op, IF Chance(70) THEN Len(reg) ELSE RandA(op), 0, 0, 1, RandElem(op))
      [] op = "grd" -> Ins(op, RandA(op), 0, Pick(0..N[alg]), 1, 0)
      [] OTHER -> Ins(op, RandA(op), 0, 0, 1, 0)

(* Known to divide by a scalar register whose meaning is one polynomial only.  *)
Usable(i) ==
    /\ Defined(i)
    /\ (i.op \in {"div"}) => info[i.b].sc
    /\ (i.op \in {"idiv", "cdiv", "sqrt", "sin", "cos", "tan"}) => info[i.a].sc

Targets == CASE Profile = "long" -> 9..15 [] Profile = "wide" -> 1..2 [] Profile = "poly" -> 4..6 [] Profile = "bindw" -> 2..4 [] Profile = "power" -> 3..8 [] Profile = "chain" -> 4..8 [] Profile = "bindl" -> 6..10 [] Profile = "reading" -> 0..0 [] Profile = "ident" -> 3..6 [] Profile \in {"pair", "pairs"} -> 6..8 [] Profile \in {"merge", "merges"} -> 5..9 [] Profile \in {"builder", "builders"} -> 3..9 [] Profile = "bind" -> 2..5 [] Profile = "tuple" -> 3..6
             [] Profile = "entity" -> 0..3
             [] Profile = "mv" -> 4..7
             [] OTHER -> 2..6

NoTarget == 99
Init ==
    /\ alg = "vga" /\ inputs = <<>> /\ vals = <<>> /\ code = <<>> /\ reg = <<>>
    /\ info = <<>> /\ fuel = 60 /\ target = NoTarget /\ out = <<>>

Begin ==
    /\ target = NoTarget
    /\ \E g \in {PickSeq(Algebras)} : \E n \in {NumInputs(g)} : \E ins \in {RandInputs(g, n)} :
       \E vs \in {RandVals(g, ins)} :
          /\ Start(g, ins, NormVals(vs))
          /\ info' = [r \in 1..n |-> InputInfo(g, ins[r])]
          /\ target' = Pick(IF Profile = "chain" /\ g = "cga" THEN 3..5 ELSE IF Profile = "chain" /\ n > 7 THEN (n - 1)..(n + 2) ELSE IF Profile = "mono" THEN n..(n + 2) ELSE IF Profile = "many" THEN {3 * Pick(6..11) - 1} ELSE Targets)
          /\ fuel' = 60 /\ out' = <<>>

Grow ==
    /\ target # NoTarget /\ Len(code) < target /\ fuel > 0 /\ out = <<>>
    /\ \E i \in {RandIns} :
         IF Usable(i) /\ (Chance(20) \/ \E k \in 1..K : Value(i)[k] # Zero) /\ Fits(ResInfo(IF i.op = "lit" THEN [i EXCEPT !.a = 1, !.b = 1] ELSE IF i.b = 0 THEN [i EXCEPT !.b = i.a] ELSE i))
         THEN /\ Exec(i)
              /\ info' = Append(info, ResInfo(IF i.op = "lit" THEN [i EXCEPT !.a = 1, !.b = 1] ELSE IF i.b = 0 THEN [i EXCEPT !.b = i.a] ELSE i))
         ELSE UNCHANGED <<machine, info>>
    /\ fuel' = fuel - 1 /\ UNCHANGED <<target, out>>

NumOuts(z) == IF Profile = "many" THEN PickSeq(<<1, 1, 1, 2, 4>>) ELSE IF Profile = "chain" THEN PickSeq(<<1, 1, 2>>) ELSE IF Profile = "tuple" THEN PickSeq(<<1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9>>) ELSE 1
Outs == LET n == NumOuts(Len(reg)) L == Len(reg) IN
        [j \in 1..n |-> IF j = 1 THEN L ELSE IF Chance(50) /\ L - j + 1 >= 1 THEN L - j + 1 ELSE Pick(1..L)]
NonPoly == UnC \union {"div", "idiv", "sqrt", "sin", "cos", "tan"}
(* A common denominator of the results, for the runs over doubles.             *)
Den(o) == LET f[j \in 0..Len(o)] == IF j = 0 THEN 1 ELSE f[j - 1] * info[o[j]].hd
          IN (IF alg \in NullAlgs THEN 2 ELSE 1) * f[Len(o)]
(* The entity the result is read into ("" none, "sel" single components).      *)
Reads(o) == {k \in Readable[alg] :
    /\ (alg = "pga" /\ k = "vpoint") => \A v \in 1..K : Coef(reg[o][v], 14) # 0
    /\ (alg = "pga2" /\ k = "point") => \A v \in 1..K : Coef(reg[o][v], 6) # 0}
Own(o) == IF o <= Len(inputs) /\ inputs[o].kind \in Reads(o) THEN {inputs[o].kind} ELSE Reads(o)
Read(o) == IF Profile \notin {"entity", "reading"} THEN "" ELSE IF Chance(20) THEN "sel" ELSE IF Chance(50) THEN Pick(Own(o)) ELSE Pick(Reads(o))
Finish ==
    /\ target # NoTarget /\ (Len(code) = target \/ fuel = 0) /\ out = <<>>
    /\ \E o \in {Outs} :
        /\ out' = o
        /\ PrintT(<<"GEN", ToJson([alg |-> alg, ins |-> inputs, vals |-> vals, code |-> code, outs |-> o,
               den |-> Den(o), read |-> Read(o[1]), poly |-> Profile \notin {"power", "mono"} /\ \A j \in 1..Len(code) : code[j].op \notin NonPoly])>>)
    /\ UNCHANGED <<machine, info, fuel, target>>

Next == Begin \/ Grow \/ Finish
=============================================================================
