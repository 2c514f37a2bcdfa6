------------------------------ MODULE CancelMC ------------------------------
(* All pairs of small integers: Lost counts the leading digits that vanished,    *)
(* whatever is drawn stays in the interval, and without cancellation nothing is  *)
(* added.                                                                        *)
EXTENDS Cancel
CONSTANTS N, TT
VARIABLES a, b, op, r, d
vars == <<cvars, a, b, op, r, d>>
Num(x) == IF x = 0 THEN Zero(0) ELSE Canon([k |-> "n", s |-> IF x < 0 THEN 1 ELSE 0, e |-> 0, m |-> OfInt(IF x < 0 THEN -x ELSE x)])
Mag(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
Init == /\ cfg = [tol |-> 1, warn |-> TRUE] /\ sizes = <<>> /\ a = 0 /\ b = 0 /\ op = "none" /\ r = Zero(0) /\ d = 99
Choose == /\ op = "none" /\ a' \in (-N)..N /\ b' \in (-N)..N /\ op' \in {"add", "sub", "mul"}
          /\ \E k \in TT : cfg' = [cfg EXCEPT !.tol = k]
          /\ UNCHANGED <<sizes, r, d>>
Z == Plain(op, "f", Num(a), Num(b), Zero(0))
Draw == /\ op # "none" /\ d = 99 /\ d' \in {-4, -1, 0, 3, 4}
        /\ r' = IF ~Cancels(op, "f", Num(a), Num(b), Z) \/ d' = 0 THEN Z
                ELSE RoundTo(Add(Z, LET h == Amp("f", Num(a), Num(b), Z) IN Canon([h EXCEPT !.s = IF d' < 0 THEN 1 ELSE 0, !.e = @ - 2, !.m = OfInt(Mag(d'))])), Binary32)
        /\ UNCHANGED <<cvars, a, b, op>>
Next == Choose \/ Draw
Spec == Init /\ [][Next]_vars
Value == IF op = "add" THEN a + b ELSE a - b
Counts == (op \in {"add", "sub"} /\ Value # 0) =>
             Lost("f", Num(a), Num(b), Z) = Max2(Bits(Mag(a)), Bits(Mag(b))) - Bits(Mag(Value))
Bounded == (d # 99 /\ d # 0) => OpOK(op, "f", Num(a), Num(b), Zero(0), r)
Untouched == (op # "none" /\ (op = "mul" \/ (Value # 0 /\ Max2(Bits(Mag(a)), Bits(Mag(b))) < Bits(Mag(Value)) + cfg.tol))) =>
               /\ OpOK(op, "f", Num(a), Num(b), Zero(0), Z)
               /\ ~OpOK(op, "f", Num(a), Num(b), Zero(0), RoundTo(Add(Z, Pow2(0, -3)), Binary32))
Signs == d # 99 /\ cfg.tol >= 1 /\ Value # 0 /\ op # "mul" => r.s = Z.s \/ r.k = "z"
=============================================================================
