------------------------------ MODULE NotifyMC ------------------------------
(* Every backend's own history of notifications is the program's history.       *)
EXTENDS Notify, TLC
CONSTANT Depth
VARIABLES hist, log   \* the program's history and each backend's
Takers == {[enter |-> e, exit |-> x] : e \in {<<>>, <<"a">>, <<"a", "b">>}, x \in {<<>>, <<"b">>, <<"a", "b">>}}
Init == hist = <<>> /\ log = [b \in {"a", "b"} |-> <<>>] /\ \E t \in Takers : NInit(t)
Next == \/ Len(hist) < Depth /\ \E s \in {"p", "q"}, v \in {0, 1} : Call(s, v) /\ hist' = Append(hist, <<"enter", s, v>>) /\ UNCHANGED log
        \/ Len(hist) < Depth /\ \E s \in {"p", "q"}, v \in {0, 1} : Return(s, v) /\ hist' = Append(hist, <<"exit", s, v>>) /\ UNCHANGED log
        \/ due # <<>> /\ Deliver(due[1]) /\ log' = [log EXCEPT ![due[1].id] = Append(@, <<due[1].kind, due[1].site, due[1].args>>)] /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<nvars, hist, log>>
In(b, s) == \E i \in 1..Len(s) : s[i] = b
Full(b) == SelectSeq(hist, LAMBDA e : In(b, IF e[1] = "enter" THEN takers.enter ELSE takers.exit))
Same == due = <<>> => \A b \in {"a", "b"} : log[b] = Full(b)
RECURSIVE Bal(_, _)
Bal(l, st) == IF l = <<>> THEN TRUE
              ELSE IF l[1][1] = "enter" THEN Bal(Tail(l), Append(st, l[1][2]))
              ELSE st # <<>> /\ st[Len(st)] = l[1][2] /\ Bal(Tail(l), SubSeq(st, 1, Len(st) - 1))
Balanced == \A b \in {"a", "b"} : (In(b, takers.enter) /\ In(b, takers.exit)) => Bal(log[b], <<>>)
=============================================================================
