------------------------------ MODULE CountMC ------------------------------
(* The operation counter shared by threads: with an atomic increment no        *)
(* schedule loses a count; with separate load and store some schedule does.    *)
EXTENDS Integers
CONSTANTS Threads, Ops, Atomic
VARIABLES cnt, done, pc, tmp
cvars == <<cnt, done, pc, tmp>>
Init == cnt = 0 /\ done = [t \in Threads |-> 0] /\ pc = [t \in Threads |-> "op"] /\ tmp = [t \in Threads |-> 0]
Inc(t) == Atomic /\ pc[t] = "op" /\ done[t] < Ops /\ cnt' = cnt + 1 /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, tmp>>
Load(t) == ~Atomic /\ pc[t] = "op" /\ done[t] < Ops /\ tmp' = [tmp EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = "st"] /\ UNCHANGED <<cnt, done>>
Store(t) == pc[t] = "st" /\ cnt' = tmp[t] + 1 /\ pc' = [pc EXCEPT ![t] = "op"] /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED tmp
Next == \E t \in Threads : Inc(t) \/ Load(t) \/ Store(t)
Spec == Init /\ [][Next]_cvars
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN done[t] + Sum(S \ {t})
NoLoss == (\A t \in Threads : pc[t] = "op") => cnt = Sum(Threads)
=============================================================================
