------------------------------ MODULE VprecMC ------------------------------
(* The configuration state machine of Vprec, explored over all short histories *)
(* of option lists and user calls, with a few operand values.                  *)
EXTENDS Vprec, FiniteSets
CONSTANT Depth
VARIABLES steps, out
mvars == <<steps, out, vvars>>
Opts == {[o |-> "precision-binary32", v |-> v, s |-> ""] : v \in {0, 1, 23, 24}}
   \cup {[o |-> "range-binary32", v |-> v, s |-> ""] : v \in {1, 2, 8, 9}}
   \cup {[o |-> "range-binary64", v |-> v, s |-> ""] : v \in {1, 5, 12}}
   \cup {[o |-> "preset", v |-> 0, s |-> s] : s \in {"binary16", "fp24", "binary64"}}
   \cup {[o |-> "mode", v |-> 0, s |-> s] : s \in Modes \cup {"x"}}
   \cup {[o |-> "daz", v |-> 0, s |-> ""], [o |-> "ftz", v |-> 0, s |-> ""]}
Vals == {Zero(1), NaN, Inf(1), Fin(1, -3, OfInt(5)), Fin(0, -149, OfInt(3)), Fin(1, 100, OfInt(16777215))}
Nothing == [k |-> "none", s |-> 0, e |-> 0, m |-> <<>>]
Init == InitState /\ steps = 0 /\ out = Nothing
Boot == steps = 0 /\ \E o1 \in Opts, o2 \in Opts : (Start(<<o1, o2>>) \/ Refuse(<<o1, o2>>)) /\ out' = Nothing
Call == steps > 0 /\ (\E v \in {0, 1, 7, 53} : SetPrecision("f", v) \/ SetPrecision("d", v) \/ SetRange("f", v) \/ SetRange("d", v)
                        \/ RefuseP("f", v) \/ RefuseR("d", v)) /\ out' = Nothing
Do == steps > 0 /\ \E a \in Vals, b \in Vals, op \in {"add", "mul"} :
        out' = Result(op, "f", a, b, Zero(0)) /\ Operate(op, "f", a, b, Zero(0), out')
Next == steps < Depth /\ steps' = steps + 1 /\ (Boot \/ Call \/ Do)
Spec == Init /\ [][Next]_mvars
FmtOK == \A t \in {"f", "d"} : OkP(t, fmt[t].p) /\ OkR(t, fmt[t].r)
(* an output-rounded result is in the emulated format; with ftz never subnormal *)
OutOK == out.k = "none" \/ (mode \in {"ob", "full"} => InFormat(out, FmtOf(fmt["f"])) /\ (ftz => ~IsSubnormal(out, FmtOf(fmt["f"]))))
NativeOK == out.k = "none" \/ InFormat(out, Binary32)
=============================================================================
