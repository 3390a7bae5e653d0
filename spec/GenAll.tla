-------------------------------- MODULE GenAll ---------------------------------
(* All behaviours of the expression machine within a bound, for replay: every   *)
(* program of a given length over a set of instructions in which each step is   *)
(* used by the result.  TLC enumerates them in checking mode.                   *)
EXTENDS Expr, Json, IOUtils

Set == IOEnv.ALL_SET
MaxLen == atoi(IOEnv.ALL_LEN)
K == 2
(* Only every ALL_STRIDE-th program (by its own digest) is emitted.              *)
Stride == atoi(IOEnv.ALL_STRIDE)
Phase == atoi(IOEnv.ALL_PHASE)

VARIABLES done
vars == <<machine, done>>

Ent(es) == [kind |-> "ent", es |-> es]
Kind(k) == [kind |-> k, es |-> <<>>]
(* The arguments: two of mixed grades, or every pair of provided entities.      *)
Starts ==
    CASE Set = "treed" -> {<<"vga", <<Kind("scalar")>> >>}
      [] Set \in {"fracs", "tree", "treep"} -> {<<"vga", <<Ent(<<1, 2, 6>>)>> >>}
      [] Set \in {"lin", "ops", "scalars", "ints"} ->
            {<<"vga", <<Ent(<<1, 2, 6>>), IF Set \in {"scalars", "ints"} THEN Kind("scalar") ELSE Ent(<<2, 4, 5>>)>> >>}
      [] Set = "null" -> {<<"cga", <<Ent(<<1, 8>>), Ent(<<2, 16, 24>>)>> >>}
      [] Set = "one" -> UNION {{<<g, <<Kind(k)>> >> : k \in Kinds[g]} : g \in Provided}
      [] Set = "two" -> UNION {{<<g, <<Kind(k), Kind(m)>> >> : k \in Kinds[g] \union {"scalar"}, m \in Kinds[g] \union {"real"}} : g \in Provided}
ValOf(k, r, j) == (7919 * k + 613 * r + 211 * j + 97 * k * r * j + 5 * j * j * j) % P
ValsFor(g, ins) == [k \in 1..K |-> [r \in DOMAIN ins |-> [j \in 1..Size(g, ins[r].kind, ins[r].es) |-> ValOf(k, r, j)]]]

(* Integers in every position that takes one, small and large.                  *)
Ints == (-12..12) \union {-65536, -1023, -257, -128, -100, -30, 16, 25, 30, 64, 100, 127, 128, 255, 256, 257, 360, 1000, 1023, 32768, 65537, 1000003}
(* Fractions of one operand, and their sums: x n / d + x / e.                    *)
Fracs == CASE Len(code) = 0 -> {Ins("nmul", 1, 0, n, 1, 0) : n \in {1, -1, 2, 3, 4, 6, -10, 12, 35}}
           [] Len(code) = 1 -> {Ins("ndiv", 2, 0, n, 1, 0) : n \in {1, -1, 2, 3, -4, 5, 6, 7, 9, 12, 14, -15}}
           [] Len(code) = 2 -> {Ins("ndiv", 1, 0, n, 1, 0) : n \in {1, 2, -3, 4, 5, 6, -6, 7, 15, 12, 20}}
           [] OTHER -> {Ins(op, 3, 4, 0, 1, 0) : op \in {"add", "sub", "gp"}} \union {Ins(op, 4, 3, 0, 1, 0) : op \in {"sub", "ep"}}
BinOps == CASE Set = "ints" -> {}
            [] Set = "tree" -> {"add", "gp"}        (* every shape of sharing: binary *)
            [] Set = "treep" -> {"sub", "ep"}       (* polyadic                       *)
            [] Set = "treed" -> {"add", "div"}      (* operands that are extracted    *)
            [] Set = "lin" -> {"add", "sub", "ep"}
            [] Set \in {"ops", "null"} -> {"add", "sub", "gp", "ep", "rp", "lc", "sip", "sw", "scp"}
            [] Set = "scalars" -> {"add", "gp", "div"}
            [] Set = "one" -> {"gp", "ep", "rp", "lc", "sip", "sw", "scp", "add", "sub"}
            [] Set = "two" -> {"gp", "ep", "rp", "lc", "sip", "sw", "add", "sub"}
UnIns(a) ==
    LET U(op) == Ins(op, a, 0, 0, 1, 0) I(op, n) == Ins(op, a, 0, n, 1, 0) IN
    CASE Set = "ints" -> {I(op, n) : op \in UnI, n \in Ints}
              \union {Ins(op, a, 0, n, d, e) : op \in UnC, n \in {1, -1, 5, -12, 360}, d \in {1, -1, 2, -7, 180}, e \in {0, 1}}
      [] Set = "lin" -> {I("nmul", -2), I("addn", 1)}
      [] Set = "tree" -> {U("rev")}
      [] Set = "treep" -> {I("grd", 1), I("nmul", 2)}
      [] Set = "treed" -> {U("cos")}
      [] Set \in {"ops", "null"} -> {U("rev"), U("dual"), U("neg"), I("nmul", 2), I("nmul", 0), I("ndiv", 2), I("addn", 1), I("nsub", 1), I("grd", 1), I("grd", 2)}
              \union {Ins("comp", a, 0, 0, 1, e) : e \in IF alg = "cga" THEN {8, 16} ELSE {1, 6}}
      [] Set = "scalars" -> {U("neg"), I("nmul", 2), U("sqrt"), U("cos"), I("idiv", 2), Ins("cmul", a, 0, 1, 2, 0), Ins("comp", a, 0, 0, 1, 6)}
      [] Set = "one" -> {U("rev"), U("dual"), U("neg"), I("nmul", -3), I("ndiv", -2), I("addn", 2), I("nsub", 2)} \union {I("grd", n) : n \in 0..N[alg]}
      [] OTHER -> {}
Used(c, last) ==        (* registers the result depends on *)
    LET n == Len(inputs)
        f[j \in 1..Len(c)] == IF j = last THEN TRUE
                              ELSE \E q \in (j + 1)..last : f[q] /\ (c[q].a = n + j \/ (c[q].op \in Bin /\ c[q].b = n + j))
    IN \A j \in 1..last : f[j]
(* A step that no later one can still use is not taken: the last one or two      *)
(* steps have to gather everything.                                              *)
Open(c) == LET n == Len(inputs) IN
    Cardinality({j \in DOMAIN c : ~\E q \in (j + 1)..Len(c) : c[q].a = n + j \/ (c[q].op \in Bin /\ c[q].b = n + j)})
Candidates ==
    LET R == 1..Len(reg) IN
    IF Set = "fracs" THEN Fracs ELSE
    IF Set = "two" THEN {Ins(op, 1, 2, 0, 1, 0) : op \in BinOps} ELSE
    (IF Set = "ints" THEN {Ins("lit", 0, 0, n, 1, e) : n \in Ints \cap Nat, e \in 1..7} ELSE {}) \union
    {Ins(op, a, b, 0, 1, 0) : op \in BinOps, a \in R, b \in R} \union UNION {UnIns(a) : a \in R}

(* Scalar functions are only applied to expressions that are scalars whatever    *)
(* the arguments.                                                                *)
RECURSIVE IsSc(_)
IsSc(r) == LET n == Len(inputs) IN
    IF r <= n THEN inputs[r].kind \in {"scalar", "real"}
    ELSE LET i == code[r - n] IN
         CASE i.op \in {"scp", "comp", "idiv", "sqrt", "cos"} -> TRUE
           [] i.op \in {"gp", "add", "sub"} -> IsSc(i.a) /\ IsSc(i.b)
           [] i.op \in {"neg", "nmul", "cmul", "div"} -> IsSc(i.a)
           [] OTHER -> FALSE
Sound(i) == /\ Defined(i)
            /\ i.op = "div" => IsSc(i.b)
            /\ i.op \in {"idiv", "cdiv", "sqrt", "cos"} => IsSc(i.a)

Init == /\ \E s \in Starts :
            /\ alg = s[1] /\ inputs = s[2] /\ vals = ValsFor(s[1], s[2])
            /\ reg = InputRegs(s[1], s[2], ValsFor(s[1], s[2]))
        /\ code = <<>> /\ done = FALSE
Grow == /\ ~done /\ Len(code) < MaxLen
        /\ \E i \in Candidates :
            /\ Sound(i)
            /\ Open(Append(code, i)) <= MaxLen - Len(code)
            /\ Exec(i)
        /\ UNCHANGED done
Digest == LET f[j \in 0..Len(code)] == IF j = 0 THEN 17
                 ELSE (f[j - 1] * 31 + code[j].a * 7 + code[j].b * 13 + code[j].n * 3 + code[j].e + Len(code[j].op) * 5 + (IF code[j].op \in {"add", "gp", "rev"} THEN 11 ELSE 0)) % 99991
          IN f[Len(code)]
Emit == /\ ~done /\ Len(code) = MaxLen /\ Used(code, MaxLen) = TRUE
        /\ done' = TRUE
        /\ IF Digest % Stride # Phase THEN TRUE ELSE
           PrintT(<<"GEN", ToJson([alg |-> alg, ins |-> inputs, vals |-> vals, code |-> code, outs |-> <<Len(reg)>>,
                                  den |-> 1, read |-> "", poly |-> FALSE])>>)
        /\ UNCHANGED machine
Next == Grow \/ Emit
================================================================================
