-------------------------------- MODULE Ieee --------------------------------
(* The IEEE backend: native results, and counters of the operations executed   *)
(* by any number of threads.                                                   *)
EXTENDS FP
CONSTANT Kinds
VARIABLES n,      \* operations executed so far, by kind
          counting
ivars == <<n, counting>>
IeeeInit == n = [k \in Kinds |-> 0] /\ counting = FALSE
Begin(c) == counting' = c /\ n' = [k \in Kinds |-> 0]
Op(op, t, a, b, c, r) ==
  /\ Same(Native(op, Fmt(t), a, b, c), r)
  /\ n' = IF op \in Kinds THEN [n EXCEPT ![op] = @ + 1] ELSE n
  /\ UNCHANGED counting
Cmp(p, a, b, r) == (r # 0) = Compare(p, a, b) /\ UNCHANGED ivars
Bulk(op, k) == n' = [n EXCEPT ![op] = @ + k] /\ UNCHANGED counting
(* what is reported at exit *)
Report(rep) == /\ IF counting THEN \A k \in Kinds : rep[k] = n[k] ELSE rep = <<>>
               /\ UNCHANGED ivars
=============================================================================
