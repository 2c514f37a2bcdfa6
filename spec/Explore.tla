------------------------------ MODULE Explore ------------------------------
(* The precision search as its user sees it: configurations are tried, one field   *)
(* at a time is lowered, and a configuration is left.  A configuration is a         *)
(* function from fields to values; `rules` says which ones the comparison accepts:   *)
(* each rule is a weighted sum of fields that has to reach a bound, so raising a     *)
(* field never makes an accepted configuration fail.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES fields,  \* sequence of [lo, hi, init] in the order of exploration
          rules,   \* sequence of [w: weights, b: bound]
          fixed,   \* what the other records have to contain, all the time
          last     \* values last tried
evars == <<fields, rules, fixed, last>>

RECURSIVE Dot(_, _, _)
Dot(w, v, k) == IF k = 0 THEN 0 ELSE (w[k] * v[k]) + Dot(w, v, k - 1)
Accepts(v) == \A r \in 1..Len(rules) : Dot(rules[r].w, v, Len(v)) >= rules[r].b
Hi == [k \in 1..Len(fields) |-> fields[k].hi]
(* what the search may end with: full precision if even that is rejected; else     *)
(* accepted values none of which can be lowered                                     *)
Final(v) ==
  /\ Len(v) = Len(fields)
  /\ \A k \in 1..Len(v) : v[k] \in fields[k].lo..fields[k].hi
  /\ IF Accepts(Hi)
     THEN /\ Accepts(v)
          /\ \A k \in 1..Len(v) : v[k] = fields[k].lo \/ ~Accepts([v EXCEPT ![k] = v[k] - 1])
     ELSE v = Hi

EInit == fields = <<>> /\ rules = <<>> /\ fixed = "" /\ last = <<>>
Begin(fs, rs, fx) == fields' = fs /\ rules' = rs /\ fixed' = fx /\ last' = [k \in 1..Len(fs) |-> fs[k].init]
TryOK(v, verdict, fx) ==
  /\ Len(v) = Len(fields) /\ fx = fixed
  /\ \A k \in 1..Len(v) : v[k] \in fields[k].lo..fields[k].hi \/ v[k] = fields[k].init
  /\ verdict = Accepts(v)
Try(v, verdict, fx) == (TryOK(v, verdict, fx) = TRUE) /\ last' = v /\ UNCHANGED <<fields, rules, fixed>>
(* the tool ends with the tables v, and a configuration is left; nothing explored, nothing left *)
DoneOK(v, left) == Final(v) /\ (Len(fields) > 0 => left = v)
Done(v, left) == (DoneOK(v, left) = TRUE) /\ UNCHANGED evars
=============================================================================
