----------------------------- MODULE FuncInstMC -----------------------------
(* FuncInst over all short histories of nested calls of a few sites, against    *)
(* the history of what happened.                                                *)
EXTENDS FuncInst
CONSTANT Depth
VARIABLES steps, hist, seenv, cnt
mvars == <<steps, hist, seenv, cnt, fivars, vvars>>

Site(id, lib, uf, ud) == [id |-> id, lib |-> lib, intr |-> FALSE, uf |-> uf, ud |-> ud]
Sites == {Site("A", FALSE, TRUE, FALSE), Site("B", FALSE, FALSE, TRUE), Site("L", TRUE, TRUE, FALSE), Site("N", FALSE, FALSE, FALSE)}
Q(n, t, p, r) == [name |-> n, ty |-> t, p |-> p, r |-> r, lo |-> IMax, hi |-> IMin]
Ops(p) == [t \in {"f", "d"} |-> [p |-> p, r |-> MaxR(t)]]
Rec(s, p, q) == [id |-> s.id, lib |-> s.lib, intr |-> FALSE, uf |-> s.uf, ud |-> s.ud, ops |-> Ops(p), ins |-> <<Q("x", "f", q, 5)>>, outs |-> <<Q("return_value", "f", q + 1, 8)>>, n |-> 0]
Confs == {<<>>, <<Rec(Site("A", FALSE, TRUE, FALSE), 3, 2)>>, <<Rec(Site("A", FALSE, TRUE, FALSE), 3, 2), Rec(Site("B", FALSE, FALSE, TRUE), 7, 4), Rec(Site("L", TRUE, TRUE, FALSE), 1, 1)>>}
Vals == {Fin(1, -3, OfInt(29)), Inf(0), Fin(0, 40, OfInt(3)), Fin(0, -30, OfInt(3))}
Arg(v) == <<[name |-> "x", ty |-> "f", vals |-> <<v>>]>>
Ret(v) == <<[name |-> "return_value", ty |-> "f", vals |-> <<v>>]>>
Base == FullOps
Init == InitState /\ imode = "none" /\ tab = <<>> /\ calls = <<>> /\ steps = 0 /\ hist = <<>> /\ seenv = {} /\ cnt = [s \in Sites |-> 0]
Go == /\ steps = 0
      /\ \E m \in {"ob", "full", "ib"}, im \in {"none", "arguments", "operations", "all"}, c \in Confs, dz \in {0, 1} :
           Boot(<<[o |-> "mode", v |-> 0, s |-> m]>> \o (IF dz = 1 THEN <<[o |-> "daz", v |-> 0, s |-> ""]>> ELSE <<>>), im, c)
      /\ UNCHANGED <<hist, seenv, cnt>>
Apply1(s, v) == IF ArgsOn /\ mode \in {"ib", "full"} /\ s.id \in DOMAIN tab /\ tab[s.id].ins # <<>> THEN VRound(v, FmtOf(tab[s.id].ins[1]), daz) ELSE v
Apply2(s, v) == IF ArgsOn /\ mode \in {"ob", "full"} /\ s.id \in DOMAIN tab /\ tab[s.id].outs # <<>> THEN VRound(v, FmtOf(tab[s.id].outs[1]), ftz) ELSE v
In1 == /\ steps > 0 /\ Len(calls) < 3
       /\ \E s \in Sites, v \in Vals :
            /\ IF Told(s) THEN Enter(s, Arg(v), <<<<Apply1(s, v)>>>>) ELSE Enter(s, <<>>, <<>>)
            /\ hist' = Append(hist, s)
            /\ cnt' = [cnt EXCEPT ![s] = @ + 1]
            /\ seenv' = IF Told(s) THEN seenv \cup {<<s.id, "in", Apply1(s, v)>>} ELSE seenv
Out1 == /\ steps > 0 /\ hist # <<>>
        /\ LET s == hist[Len(hist)]
           IN  \E v \in Vals :
                 /\ IF Told(s) THEN Exit(s, Ret(v), <<<<Apply2(s, v)>>>>) ELSE Exit(s, <<>>, <<>>)
                 /\ seenv' = IF Told(s) THEN seenv \cup {<<s.id, "out", Apply2(s, v)>>} ELSE seenv
        /\ hist' = SubSeq(hist, 1, Len(hist) - 1) /\ UNCHANGED cnt
Next == steps < Depth /\ steps' = steps + 1 /\ (Go \/ In1 \/ Out1)
Spec == Init /\ [][Next]_mvars

(* the formats in force are those of the innermost call that has some *)
Has(s) == Told(s) /\ ~s.lib
RECURSIVE InForce(_)
InForce(h) == IF h = <<>> THEN Base
              ELSE LET s == h[Len(h)] IN IF Has(s) THEN tab[s.id].ops ELSE InForce(SubSeq(h, 1, Len(h) - 1))
Formats == fmt = IF OpsOn THEN InForce(hist) ELSE Base
(* the profile has one record per site that was called (or configured), with its count and bounds *)
Counts == \A s \in Sites : IF Told(s) /\ cnt[s] > 0 THEN s.id \in DOMAIN tab /\ tab[s.id].n = cnt[s]
                           ELSE s.id \in DOMAIN tab => tab[s.id].n = 0
Bounds == \A w \in seenv : Finite(w[3]) =>
            LET q == IF w[2] = "in" THEN tab[w[1]].ins[1] ELSE tab[w[1]].outs[1] IN q.lo <= FloorI(w[3]) /\ CeilI(w[3]) <= q.hi
(* without argument instrumentation nothing changes values *)
Quiet == (imode \in {"none", "operations"}) => \A w \in seenv : w[3] \in Vals
=============================================================================
