------------------------------ MODULE DdebugMC -------------------------------
(* Generate, then split the generated list in two and run with each part as     *)
(* inclusion and as exclusion: the parts partition what is instrumented.        *)
EXTENDS Ddebug
CONSTANT Sites
VARIABLES phase, base, part, handed, ran
vars == <<dvars, phase, base, part, handed, ran>>
One == [k |-> "n", s |-> 0, e |-> 0, m |-> <<1>>]
Two == [k |-> "n", s |-> 0, e |-> 1, m |-> <<1>>]
Lanes == <<<<One, One>>>>
List(g, S) == [given |-> g, ok |-> TRUE, sites |-> S]
Init == DdebugInit /\ phase = "gen0" /\ base = {} /\ part = {} /\ handed = <<>> /\ ran = {}
Gen == phase = "gen0" /\ \E e \in SUBSET Sites : Start(NoList, List(e # {}, e), TRUE, TRUE) /\ phase' = "gen" /\ UNCHANGED <<base, part, handed, ran>>
Exe(s) == \/ Exec(s, "add", "d", Lanes, <<[op |-> "add", a |-> <<One, One>>, r |-> One]>>, <<One>>)
          \/ Exec(s, "add", "d", Lanes, <<>>, <<Two>>)
Ex == phase \in {"gen", "a", "b", "x"} /\ \E s \in Sites : s \notin ran /\ Exe(s) /\ ran' = ran \cup {s} /\ UNCHANGED <<phase, base, part, handed>>
(* file listed in some order *)
EndGen == phase = "gen" /\ \E f \in {[k \in 1..Cardinality(seen) |-> h[k]] : h \in [1..Cardinality(seen) -> Sites]} :
            End(f) /\ base' = seen /\ phase' = "pick" /\ UNCHANGED <<part, handed>> /\ ran' = {}
Pick == phase = "pick" /\ \E p \in SUBSET base : part' = p /\ phase' = "a0" /\ UNCHANGED <<dvars, base, handed, ran>>
S1 == phase = "a0" /\ Start(List(TRUE, part), NoList, FALSE, TRUE) /\ phase' = "a" /\ UNCHANGED <<base, part, handed, ran>>
E1 == phase = "a" /\ ran = Sites /\ End(<<>>) /\ handed' = Append(handed, seen) /\ phase' = "b0" /\ ran' = {} /\ UNCHANGED <<base, part>>
S2 == phase = "b0" /\ Start(List(TRUE, base \ part), NoList, FALSE, TRUE) /\ phase' = "b" /\ UNCHANGED <<base, part, handed, ran>>
E2 == phase = "b" /\ ran = Sites /\ End(<<>>) /\ handed' = Append(handed, seen) /\ phase' = "x0" /\ ran' = {} /\ UNCHANGED <<base, part>>
S3 == phase = "x0" /\ Start(List(TRUE, base), List(TRUE, part), FALSE, TRUE) /\ phase' = "x" /\ UNCHANGED <<base, part, handed, ran>>
E3 == phase = "x" /\ ran = Sites /\ End(<<>>) /\ handed' = Append(handed, seen) /\ phase' = "end" /\ ran' = {} /\ UNCHANGED <<base, part>>
Next == Gen \/ Ex \/ EndGen \/ Pick \/ S1 \/ E1 \/ S2 \/ E2 \/ S3 \/ E3
Spec == Init /\ [][Next]_vars
Partition == phase = "end" => /\ handed[1] = part /\ handed[2] = base \ part
                              /\ handed[1] \cup handed[2] = base /\ handed[1] \cap handed[2] = {}
                              /\ handed[3] = handed[2]
GenRight == phase = "gen" => seen = {s \in ran : ~(exc.given /\ s \in exc.sites)}
Both == ~ENABLED Start(List(TRUE, {}), NoList, TRUE, TRUE)
=============================================================================
