------------------------------ MODULE Containers -------------------------------
(* The compile-time containers as models: a bounded stack, a heterogeneous      *)
(* tuple (a sequence of <<type, value>>), and sorting.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* Stack: state s is a sequence, bottom first.  Each operation is <<op, n>>;    *)
(* its result is a number, 0 for none.                                          *)
StackDefined(s, o, cap) ==
    CASE o[1] = "push" -> Len(s) < cap
      [] o[1] \in {"pop", "peek"} -> Len(s) > 0
      [] o[1] = "popn" -> o[2] >= 1 /\ o[2] <= Len(s)
      [] o[1] = "peekn" -> o[2] >= 1 /\ o[2] <= Len(s)
      [] o[1] = "at" -> o[2] < Len(s)
      [] OTHER -> TRUE
StackStep(s, o) ==
    CASE o[1] = "push" -> Append(s, o[2])
      [] o[1] = "pop" -> SubSeq(s, 1, Len(s) - 1)
      [] o[1] = "popn" -> SubSeq(s, 1, Len(s) - o[2])
      [] o[1] = "poke" /\ Len(s) > 0 -> [s EXCEPT ![Len(s)] = o[2]]
      [] o[1] = "clear" -> <<>>
      [] OTHER -> s
(* popping n elements yields the lowest of them, as that is where the operands  *)
(* of an n-ary operation begin                                                  *)
StackResult(s, o) ==
    CASE o[1] = "pop" -> s[Len(s)]
      [] o[1] = "popn" -> s[Len(s) - o[2] + 1]
      [] o[1] = "peek" -> s[Len(s)]
      [] o[1] = "peekn" -> s[Len(s) - o[2] + 1]
      [] o[1] = "at" -> s[o[2] + 1]
      [] o[1] = "empty" -> IF s = <<>> THEN 1 ELSE 0
      [] OTHER -> 0
RECURSIVE StackRun(_, _)
(* The sequence of <<result, size>> of a history.                               *)
StackRun(s, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET t == StackStep(s, Head(ops)) IN <<<<StackResult(s, Head(ops)), Len(t)>>>> \o StackRun(t, Tail(ops))

(* Tuple operations: <<op, n, type, value>>; the result is the new tuple, and   *)
(* by-products are the parts that the operation returns.                        *)
FirstOf(t, ty) == CHOOSE i \in DOMAIN t : t[i][1] = ty /\ \A j \in 1..(i - 1) : t[j][1] # ty
Has(t, ty) == \E i \in DOMAIN t : t[i][1] = ty
TupleDefined(t, o) ==
    CASE o[1] \in {"pop", "back"} -> Len(t) > 0
      [] o[1] \in {"split0", "split1"} -> o[2] <= Len(t)
      [] o[1] \in {"drop0", "drop1", "set", "get"} -> o[2] < Len(t)
      [] o[1] \in {"find", "attype0", "attype1"} -> Has(t, o[3])
      [] OTHER -> TRUE
TupleStep(t, o) ==
    CASE o[1] = "push" -> <<<<o[3], o[4]>>>> \o t
      [] o[1] = "append" -> Append(t, <<o[3], o[4]>>)
      [] o[1] = "pop" -> Tail(t)
      [] o[1] = "split0" -> SubSeq(t, 1, o[2])
      [] o[1] = "split1" -> SubSeq(t, o[2] + 1, Len(t))
      [] o[1] = "drop0" -> SubSeq(t, 1, o[2])
      [] o[1] = "drop1" -> SubSeq(t, o[2] + 2, Len(t))
      [] o[1] = "attype0" -> SubSeq(t, 1, FirstOf(t, o[3]) - 1)
      [] o[1] = "attype1" -> SubSeq(t, FirstOf(t, o[3]) + 1, Len(t))
      [] o[1] = "set" -> [t EXCEPT ![o[2] + 1] = <<t[o[2] + 1][1], o[4]>>]
      [] o[1] = "mutate" -> [i \in DOMAIN t |-> <<t[i][1], t[i][2] + o[4]>>]
      [] OTHER -> t
TupleResult(t, o) ==
    CASE o[1] = "pop" -> <<t[1]>>
      [] o[1] = "back" -> <<t[Len(t)]>>
      [] o[1] = "get" -> <<t[o[2] + 1]>>
      [] o[1] = "find" -> <<<<-1, FirstOf(t, o[3]) - 1>>>>
      [] o[1] = "split0" -> SubSeq(t, o[2] + 1, Len(t))
      [] o[1] = "split1" -> SubSeq(t, 1, o[2])
      [] o[1] = "drop0" -> SubSeq(t, o[2] + 2, Len(t))
      [] o[1] = "drop1" -> SubSeq(t, 1, o[2])
      [] o[1] = "attype0" -> SubSeq(t, FirstOf(t, o[3]) + 1, Len(t))
      [] o[1] = "attype1" -> SubSeq(t, 1, FirstOf(t, o[3]) - 1)
      [] o[1] = "apply" -> t
      [] o[1] = "applyr" -> Reverse(t)
      [] OTHER -> <<>>
RECURSIVE TupleRun(_, _)
TupleRun(t, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET u == TupleStep(t, Head(ops)) IN <<<<u, TupleResult(t, Head(ops))>>>> \o TupleRun(u, Tail(ops))

(* Sorting x[from..to) by an ordering gives an ordered permutation of that      *)
(* range and leaves the rest alone.                                             *)
Key(ord, v) == CASE ord = "lt" -> v [] ord = "gt" -> -v [] ord = "mod" -> v % 4
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Sorted(ord, x, y, from, to) ==
    /\ Len(x) = Len(y)
    /\ \A i \in DOMAIN x : (i <= from \/ i > to) => x[i] = y[i]
    /\ \A i \in (from + 1)..(to - 1) : Key(ord, y[i]) <= Key(ord, y[i + 1])
    /\ LET a == SubSeq(x, from + 1, to) b == SubSeq(y, from + 1, to)
       IN \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
================================================================================
