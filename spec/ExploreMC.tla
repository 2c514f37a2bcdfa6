----------------------------- MODULE ExploreMC -----------------------------
(* The dichotomic search of one field after the other, step by step, on every set  *)
(* of accepted configurations that is closed upwards in each field: it ends, with    *)
(* the least accepted values, or the largest one where nothing is accepted.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS F, LO, HI, Fault
VARIABLES acc, v, k, l, r, state
vars == <<acc, v, k, l, r, state>>
Vals == LO..HI
Configs == [1..F -> Vals]
Leq(a, b) == \A j \in 1..F : a[j] <= b[j]
(* upward closure of a set of configurations                                         *)
Up(S) == {c \in Configs : \E d \in S : Leq(d, c)}
Init == acc = {} /\ v = [j \in 1..F |-> HI] /\ k = 0 /\ l = LO /\ r = HI /\ state = "pick"
Pick == /\ state = "pick" /\ acc' \in {Up(S) : S \in {T \in SUBSET Configs : Cardinality(T) <= 3}}
        /\ k' = 1 /\ v' = [v EXCEPT ![1] = LO] /\ l' = LO /\ r' = HI /\ state' = "first"
NextField(w) == IF k = F THEN state' = "done" /\ v' = w /\ UNCHANGED <<k, l, r>>
                ELSE k' = k + 1 /\ v' = [w EXCEPT ![k + 1] = LO] /\ l' = LO /\ r' = HI /\ state' = "first"
First == /\ state = "first" /\ UNCHANGED acc
         /\ IF v \in acc THEN NextField(v)
            ELSE state' = "loop" /\ UNCHANGED <<v, k, l, r>>
Loop == /\ state = "loop" /\ UNCHANGED acc
        /\ LET p == IF Fault = "lowerfirst" /\ l < r THEN (r + l + 1) \div 2 ELSE (r + l) \div 2
               w == [v EXCEPT ![k] = p]
           IN  IF w \in acc
               THEN IF l >= r THEN NextField(w) ELSE r' = p /\ v' = w /\ UNCHANGED <<k, l, state>>
               ELSE IF l >= r /\ Fault # "noend" THEN NextField(w)
               ELSE l' = p + 1 /\ v' = w /\ UNCHANGED <<k, r, state>>
Next == Pick \/ First \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Least(w, j) == LET ok == {x \in Vals : [w EXCEPT ![j] = x] \in acc} IN IF ok = {} THEN HI ELSE CHOOSE x \in ok : \A y \in ok : x <= y
RECURSIVE Lowered(_, _)
Lowered(w, j) == IF j > F THEN w ELSE Lowered([w EXCEPT ![j] = Least(w, j)], j + 1)
(* the answer is a local minimum                                                       *)
Minimal == state = "done" =>
  IF [j \in 1..F |-> HI] \in acc
  THEN v \in acc /\ \A j \in 1..F : v[j] = LO \/ [v EXCEPT ![j] = v[j] - 1] \notin acc
  ELSE v = [j \in 1..F |-> HI]
Sequential == state = "done" => v = Lowered([j \in 1..F |-> HI], 1)
Right == Sequential /\ Minimal
Ends == <>(state = "done")
=============================================================================
