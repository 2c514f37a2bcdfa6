----------------------------- MODULE DebugOutMC -----------------------------
(* The printing algorithm (fields shifted to the top of a word, leading zeros counted, *)
(* trailing zeros cut) against the denotation of its texts, for every value of a small *)
(* format and every history of a few operations; operations and records interleave.    *)
EXTENDS DebugOut, Sequences
CONSTANTS P, R, MaxOps, Fault
F == Format(P, R)
VARIABLES todo, printed
mvars == <<dvars, todo, printed>>
Words == {[s |-> s, e |-> e, m |-> m] : s \in 0..1, e \in 0..(2^R - 1), m \in 0..(2^P - 1)}
ValOf(w) == IF w.e = 2^R - 1 THEN IF w.m = 0 THEN Inf(w.s) ELSE NaN
            ELSE IF w.e = 0 THEN Canon(Fin(w.s, F.emin - P, OfInt(w.m)))
            ELSE Canon(Fin(w.s, w.e - (2^(R - 1) - 1) - P, OfInt(2^P + w.m)))
(* the most significant bits first, trailing zeros cut *)
RECURSIVE Bits(_, _)
Bits(m, n) == IF n = 0 THEN <<>> ELSE Append(Bits(m \div 2, n - 1), m % 2)
RECURSIVE Cut(_)
Cut(b) == IF b = <<>> THEN <<0>> ELSE IF b[Len(b)] = 1 THEN b ELSE Cut(SubSeq(b, 1, Len(b) - 1))
RECURSIVE Clz(_)
Clz(b) == IF b = <<>> \/ Head(b) = 1 THEN 0 ELSE 1 + Clz(Tail(b))
TextOf(w) ==
  LET b == Bits(w.m, P)
      sub == w.e = 0
      off == Clz(b) + 1
  IN  IF w.e = 2^R - 1 THEN [k |-> IF w.m = 0 THEN "i" ELSE "q", s |-> w.s, lead |-> 1, bits |-> <<>>, x |-> 0]
      ELSE IF sub /\ w.m = 0 THEN [k |-> "z", s |-> w.s, lead |-> 0, bits |-> <<0>>, x |-> 0]
      ELSE IF sub /\ mode.norm THEN [k |-> "n", s |-> w.s, lead |-> 1, bits |-> Cut(SubSeq(b, off + 1, P)), x |-> F.emin - (IF Fault = "clz" THEN off - 1 ELSE off)]
      ELSE IF sub THEN [k |-> "n", s |-> w.s, lead |-> 0, bits |-> Cut(b), x |-> IF Fault = "emin" THEN F.emin - 1 ELSE F.emin]
      ELSE [k |-> "n", s |-> w.s, lead |-> 1, bits |-> IF Fault = "cut" /\ w.m # 0 THEN SubSeq(Cut(b), 1, Len(Cut(b)) - 1) ELSE Cut(b), x |-> w.e - (2^(R - 1) - 1)]

Init == /\ \E n \in BOOLEAN : mode = [on |-> TRUE, bin |-> TRUE, norm |-> n, nl |-> FALSE, name |-> FALSE]
        /\ pending = <<>> /\ todo = <<>> /\ printed = <<>>
(* operands are any values; the result shown is the second operand (what is computed is checked in Do) *)
Exec == /\ Len(todo) < MaxOps
        /\ \E a \in Words : /\ todo' = Append(todo, a)
                            /\ pending' = Append(pending, ValOf(a))
        /\ UNCHANGED <<mode, printed>>
Write == /\ pending # <<>>
         /\ printed' = Append(printed, TextOf(todo[IF Fault = "order" THEN Len(todo) ELSE Len(printed) + 1]))
         /\ pending' = Tail(pending)
         /\ UNCHANGED <<mode, todo>>
Next == Exec \/ Write
Spec == Init /\ [][Next]_mvars
Faithful == \A i \in 1..Len(printed) : BinDenotes(printed[i], F, ValOf(todo[i]))
Ordered == Len(printed) + Len(pending) = Len(todo)
=============================================================================
