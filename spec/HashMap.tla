------------------------------ MODULE HashMap -------------------------------
(* A map from keys to values and its operations.  Inserting replaces; removing *)
(* an absent key does nothing.                                                  *)
EXTENDS Naturals, FiniteSets
VARIABLE m
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
MapInit == m = <<>>
Insert(k, v) == m' = Put(m, k, v)
Remove(k) == m' = Del(m, k)
Have(k, r) == r = (k \in DOMAIN m) /\ UNCHANGED m
Get(k, r, none) == r = (IF k \in DOMAIN m THEN m[k] ELSE none) /\ UNCHANGED m
Size(n) == n = Cardinality(DOMAIN m) /\ UNCHANGED m
(* walking the table meets each entry exactly once: ks, vs are what was met *)
Walk(ks, vs) == /\ Cardinality(DOMAIN m) = Cardinality(DOMAIN ks)
                /\ {ks[i] : i \in DOMAIN ks} = DOMAIN m
                /\ \A i \in DOMAIN ks : vs[i] = m[ks[i]]
                /\ UNCHANGED m
(* a map of n entries of its own, every third of which is then removed: the     *)
(* entries found with their values and the size before and after, the entries    *)
(* no longer found                                                               *)
Bulk(n, size, found, size2, found2, gone) ==
  LET out == (n + 2) \div 3
  IN  size = n /\ found = n /\ size2 = n - out /\ found2 = n - out /\ gone = out /\ UNCHANGED m
(* releasing a map that owns n entries, k of which were removed and released before *)
Release(n, k, freed) == freed = n - k /\ UNCHANGED m
=============================================================================
