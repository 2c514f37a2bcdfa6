------------------------------- MODULE RngMC -------------------------------
(* The seeding of per-thread generators under every interleaving of draws.       *)
(* Variant "ok": the rank is taken atomically, the state is the thread's own.     *)
(* "racy": the rank counter is read and written in two steps.  "shared": one      *)
(* state for all threads.  Only "ok" has the two properties.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, K, Variant
VARIABLES counter, rank, seen, pos, shared, log
vars == <<counter, rank, seen, pos, shared, log>>
Init == /\ counter = 0 /\ rank = [t \in 1..T |-> 0] /\ seen = [t \in 1..T |-> -1]
        /\ pos = [t \in 1..T |-> 0] /\ shared = 0 /\ log = [t \in 1..T |-> <<>>]
Take(t) == /\ rank[t] = 0 /\ Variant # "racy"
           /\ counter' = counter + 1 /\ rank' = [rank EXCEPT ![t] = counter + 1]
           /\ UNCHANGED <<seen, pos, shared, log>>
Read(t) == /\ rank[t] = 0 /\ Variant = "racy" /\ seen[t] = -1
           /\ seen' = [seen EXCEPT ![t] = counter] /\ UNCHANGED <<counter, rank, pos, shared, log>>
Write(t) == /\ rank[t] = 0 /\ seen[t] >= 0
            /\ counter' = seen[t] + 1 /\ rank' = [rank EXCEPT ![t] = seen[t] + 1]
            /\ UNCHANGED <<seen, pos, shared, log>>
Use(t) == /\ rank[t] > 0 /\ pos[t] < K
          /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ shared' = shared + 1
          /\ log' = [log EXCEPT ![t] = Append(@, IF Variant = "shared" THEN <<1, shared + 1>> ELSE <<rank[t], pos[t] + 1>>)]
          /\ UNCHANGED <<counter, rank, seen>>
Next == \E t \in 1..T : Take(t) \/ Read(t) \/ Write(t) \/ Use(t)
Spec == Init /\ [][Next]_vars
(* what a thread has got is a function of its rank and of how many it has drawn         *)
Determined == \A t \in 1..T : \A k \in 1..Len(log[t]) : log[t][k] = <<rank[t], k>>
Apart == \A t, u \in 1..T : (t # u /\ Len(log[t]) > 0 /\ Len(log[u]) > 0) => log[t][1] # log[u][1]
Dense == \A t \in 1..T : rank[t] <= counter /\ counter <= T
=============================================================================
