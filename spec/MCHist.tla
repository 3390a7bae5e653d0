--------------------------------- MODULE MCHist --------------------------------
(* Laws of the container models along every history within a bound.              *)
EXTENDS GenHist
NextH == Step
SpecH == Init /\ [][NextH]_vars
StackLaws == Kind = "stack" =>
    /\ Len(st) <= Cap
    (* last in, first out                                                         *)
    /\ Len(st) < Cap => LET u == StackStep(st, <<"push", 77>>) IN
          /\ StackResult(u, <<"pop", 0>>) = 77 /\ StackResult(u, <<"peek", 0>>) = 77
          /\ StackStep(u, <<"pop", 0>>) = st
          /\ \A n \in 1..Len(st) : StackResult(u, <<"peekn", n + 1>>) = StackResult(st, <<"peekn", n>>)
    (* popping n at once is popping n times                                       *)
    /\ \A n \in 1..Len(st) : /\ StackStep(st, <<"popn", n>>) = SubSeq(st, 1, Len(st) - n)
                             /\ n > 1 => StackStep(st, <<"popn", n>>) = StackStep(StackStep(st, <<"popn", n - 1>>), <<"pop", 0>>)
    /\ \A o \in StackOps : StackDefined(st, o, Cap) /\ o[1] \in {"peek", "peekn", "at", "empty"} => StackStep(st, o) = st
TupleLaws == Kind = "tuple" =>
    /\ TupleStep(TupleStep(st, <<"push", 0, 1, 5>>), <<"pop", 0, 0, 0>>) = st
    /\ TupleResult(TupleStep(st, <<"append", 0, 1, 5>>), <<"back", 0, 0, 0>>) = << <<1, 5>> >>
    /\ \A n \in 0..Len(st) : TupleStep(st, <<"split0", n, 0, 0>>) \o TupleResult(st, <<"split0", n, 0, 0>>) = st
    /\ \A n \in 0..(Len(st) - 1) : TupleStep(st, <<"drop0", n, 0, 0>>) \o TupleResult(st, <<"get", n, 0, 0>>) \o TupleResult(st, <<"drop0", n, 0, 0>>) = st
    /\ \A ty \in Types : Has(st, ty) => /\ TupleStep(st, <<"attype0", 0, ty, 0>>) \o <<st[FirstOf(st, ty)]>> \o TupleStep(st, <<"attype1", 0, ty, 0>>) = st
                                        /\ ~Has(TupleStep(st, <<"attype0", 0, ty, 0>>), ty)
    /\ Reverse(TupleResult(st, <<"applyr", 0, 0, 0>>)) = TupleResult(st, <<"apply", 0, 0, 0>>)
(* A sorted answer exists and is unique up to the order of equal keys.            *)
SortLaws == Kind = "stack" => LET s == SortSeq(st, <) IN
    /\ Sorted("lt", st, s, 0, Len(st)) /\ (s # st => ~Sorted("lt", st, st, 0, Len(st)))
    /\ Sorted("gt", st, SortSeq(st, >), 0, Len(st))
================================================================================
