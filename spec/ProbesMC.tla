------------------------------ MODULE ProbesMC -------------------------------
EXTENDS Probes
CONSTANTS Max
N0 == {<<>>, <<"a">>, <<",">>, <<"a", "b">>}
P == [test : N0, var : N0, val : {"1", "2"}, thr : {"0"}, mode : {"none"}]
VARIABLE count
vars == <<pvars, count>>
Init == ProbesInit /\ count = 0
Next == \/ Len(placed) < Max /\ (\E p \in P, ok \in BOOLEAN : Probe(p, ok) /\ count' = IF ok THEN count + 1 ELSE count)
        \/ (\E ok \in BOOLEAN : Dump("file", TRUE, placed, FALSE, ok)) /\ UNCHANGED count
        \/ (\E ok \in BOOLEAN : Dump("unset", FALSE, <<>>, TRUE, ok)) /\ UNCHANGED count
        \/ (\E n \in 0..Max : Count(n)) /\ UNCHANGED count
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in 1..Len(placed) : placed[i].test = placed[j].test /\ placed[i].var = placed[j].var => i = j
NoComma == \A i \in 1..Len(placed) : ~Bad(placed[i].test) /\ ~Bad(placed[i].var)
Counted == count = Len(placed) /\ Cardinality(Placed) = Len(placed)
(* every probe, legal or not, has exactly one outcome *)
Decided == run = "on" => \A p \in P : (ENABLED Probe(p, TRUE)) # (ENABLED Probe(p, FALSE))
=============================================================================
