--------------------------------- MODULE Expr ---------------------------------
(* The expression machine.  A compute lambda is a sequence of operator         *)
(* applications, each producing a new register from earlier ones (so sharing   *)
(* is explicit); a register denotes one multivector per valuation of the       *)
(* inputs.  This is the meaning every stage of the library has to preserve.    *)
EXTENDS Entities

VARIABLES alg,   \* the algebra
          inputs,\* sequence of [kind, es]
          vals,  \* valuation |-> input |-> field values
          code,  \* sequence of instructions executed so far
          reg    \* register |-> valuation |-> multivector (orthonormal basis)
machine == <<alg, inputs, vals, code, reg>>

Bin == {"gp", "ep", "rp", "lc", "sip", "sw", "scp", "add", "sub", "div"}
UnI == {"nmul", "ndiv", "addn", "nadd", "subn", "nsub", "idiv"}
UnC == {"cmul", "mulc", "cdiv", "divc"}
Un  == {"neg", "rev", "dual", "comp", "grd", "sqrt", "sin", "cos", "tan"}
Ops == Bin \union UnI \union UnC \union Un \union {"lit"}

Ins(op, a, b, n, d, e) == [op |-> op, a |-> a, b |-> b, n |-> n, d |-> d, e |-> e]
Const(k) == IF k = 0 THEN FPi ELSE FE
SVal(x) == Coef(x, 0)

(* A literal; d = 3 is the inverse pseudoscalar, which is minus the             *)
(* pseudoscalar in the algebras that provide it.                               *)
LitValue(i) == Blade1(i.e, IF i.d = 3 THEN -i.n ELSE i.n)
(* Meaning of one instruction for one valuation.                               *)
Meaning(g, i, x, y) ==
    CASE i.op = "lit" -> In(g, LitValue(i))
      [] i.op = "gp" -> Gp(g, x, y)
      [] i.op = "ep" -> Ep(g, x, y)
      [] i.op = "rp" -> Regr(g, x, y)
      [] i.op = "lc" -> Lc(g, x, y)
      [] i.op = "sip" -> Sip(g, x, y)
      [] i.op = "sw" -> Sandwich(g, x, y)
      [] i.op = "scp" -> GradeSel(Gp(g, x, y), 0)
      [] i.op = "add" -> Add(x, y)
      [] i.op = "sub" -> Sub(x, y)
      [] i.op = "div" -> Scale(FInv(SVal(y)), x)
      [] i.op = "neg" -> Neg(x)
      [] i.op = "rev" -> Rev(x)
      [] i.op = "dual" -> Dual(g, x)
      [] i.op = "comp" -> Comp(g, x, i.e)
      [] i.op = "grd" -> GradeSel(x, i.n)
      [] i.op = "nmul" -> Scale(FInt(i.n), x)
      [] i.op = "ndiv" -> Scale(FRat(1, i.n), x)
      [] i.op \in {"addn", "nadd"} -> Add(x, Scalar(i.n))
      [] i.op = "subn" -> Sub(x, Scalar(i.n))
      [] i.op = "nsub" -> Sub(Scalar(i.n), x)
      [] i.op = "idiv" -> Scalar(FDiv(FInt(i.n), SVal(x)))
      [] i.op \in {"cmul", "mulc"} -> Scale(FMul(FRat(i.n, i.d), Const(i.e)), x)
      [] i.op = "cdiv" -> Scalar(FDiv(FMul(FRat(i.n, i.d), Const(i.e)), SVal(x)))
      [] i.op = "divc" -> Scale(FInv(FMul(FRat(i.n, i.d), Const(i.e))), x)
      [] i.op = "sqrt" -> Scalar(FSqrt(SVal(x)))
      [] i.op = "sin" -> Scalar(FSin(SVal(x)))
      [] i.op = "cos" -> Scalar(FCos(SVal(x)))
      [] i.op = "tan" -> Scalar(FTan(SVal(x)))

NumVals == Len(vals)
InputRegs(g, ins, vs) ==
    [r \in 1..Len(ins) |-> [k \in 1..Len(vs) |->
        In(g, Denote(g, ins[r].kind, ins[r].es, vs[k][r]))]]

(* An instruction is defined if its operands exist and, for the scalar         *)
(* operations, are scalars (non-zero when divided by).                         *)
NonZero(r) == \A k \in 1..NumVals : SVal(reg[r][k]) # 0
ScalarReg(r) == \A k \in 1..NumVals : IsScalar(reg[r][k])
Defined(i) ==
    /\ i.op \in Ops
    /\ i.op # "lit" => i.a \in 1..Len(reg)
    /\ i.op \in Bin => i.b \in 1..Len(reg)
    /\ i.op = "div" => ScalarReg(i.b) /\ NonZero(i.b)
    /\ i.op \in {"idiv", "cdiv"} => ScalarReg(i.a) /\ NonZero(i.a)
    /\ i.op \in {"sqrt", "sin", "cos", "tan"} => ScalarReg(i.a)
    /\ i.op = "ndiv" => i.n # 0
    /\ i.op \in UnC => i.n # 0 /\ i.d # 0

Value(i) == [k \in 1..NumVals |->
    Meaning(alg, i, IF i.op = "lit" THEN Zero ELSE reg[i.a][k],
                    IF i.op \in Bin THEN reg[i.b][k] ELSE Zero)]

(* Transitions.                                                                *)
Start(g, ins, vs) ==
    /\ alg' = g /\ inputs' = ins /\ vals' = vs /\ code' = <<>>
    /\ reg' = InputRegs(g, ins, vs)
Exec(i) ==
    /\ Defined(i)
    /\ code' = Append(code, i)
    /\ reg' = Append(reg, Value(i))
    /\ UNCHANGED <<alg, inputs, vals>>
=============================================================================
