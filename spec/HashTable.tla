----------------------------- MODULE HashTable -------------------------------
(* Open addressing with tombstones and growth, as the runtime's table does it,  *)
(* and its refinement of HashMap, for every history over few keys.              *)
EXTENDS HashMap, Integers, Sequences
CONSTANTS Keys, Vals, Bits0, MaxLen, Step1
Empty == [k |-> 0, v |-> 0]
VARIABLES tab, bits, nlive, ndel, len
tvars == <<m, tab, bits, nlive, ndel, len>>
Cap(b) == 2^b
Home(k, b) == (73 * k) % Cap(b)
NextSlot(i, b) == (i + Step1) % Cap(b)
Live(e) == e.v # 0 /\ e.v # 1
(* slot of a live entry with the key, or -1; the search ends at an empty slot *)
RECURSIVE Find(_, _, _, _, _)
Find(t, b, k, i, fuel) ==
  IF fuel = 0 \/ t[i].v = 0 THEN -1
  ELSE IF Live(t[i]) /\ t[i].k = k THEN i
  ELSE Find(t, b, k, NextSlot(i, b), fuel - 1)
RECURSIVE Free(_, _, _, _)
Free(t, b, i, fuel) == IF fuel = 0 THEN -1 ELSE IF Live(t[i]) THEN Free(t, b, NextSlot(i, b), fuel - 1) ELSE i
FindIn(t, b, k) == Find(t, b, k, Home(k, b), Cap(b))
New(b) == [i \in 0..(Cap(b) - 1) |-> Empty]
PutIn(t, b, k, v) == LET i == FindIn(t, b, k) IN
  IF i >= 0 THEN [t EXCEPT ![i].v = v] ELSE [t EXCEPT ![Free(t, b, Home(k, b), Cap(b))] = [k |-> k, v |-> v]]
RECURSIVE Rehash(_, _, _, _)
Rehash(old, i, t, b) == IF i = Cap(b - 1) THEN t
  ELSE Rehash(old, i + 1, IF Live(old[i]) THEN PutIn(t, b, old[i].k, old[i].v) ELSE t, b)
Init == MapInit /\ tab = New(Bits0) /\ bits = Bits0 /\ nlive = 0 /\ ndel = 0 /\ len = 0
Ins(k, v) ==
  LET i == FindIn(tab, bits, k)
      j == Free(tab, bits, Home(k, bits), Cap(bits))
      t == PutIn(tab, bits, k, v)
      l == IF i >= 0 THEN nlive ELSE nlive + 1
      d == IF i < 0 /\ tab[j].v = 1 THEN ndel - 1 ELSE ndel
  IN  /\ Insert(k, v)
      /\ IF 20 * (l + d) >= 17 * Cap(bits)
         THEN bits' = bits + 1 /\ tab' = Rehash(t, 0, New(bits + 1), bits + 1) /\ nlive' = l /\ ndel' = 0
         ELSE bits' = bits /\ tab' = t /\ nlive' = l /\ ndel' = d
Rem(k) ==
  LET i == FindIn(tab, bits, k) IN
  /\ Remove(k) /\ bits' = bits
  /\ IF i < 0 THEN UNCHANGED <<tab, nlive, ndel>>
     ELSE tab' = [tab EXCEPT ![i].v = 1] /\ nlive' = nlive - 1 /\ ndel' = ndel + 1
Next == len < MaxLen /\ len' = len + 1 /\ \E k \in Keys : Rem(k) \/ \E v \in Vals : Ins(k, v)
Spec == Init /\ [][Next]_tvars
Refines == \A k \in Keys : LET i == FindIn(tab, bits, k) IN
              (i >= 0) = (k \in DOMAIN m) /\ (i >= 0 => tab[i].v = m[k])
Counts == nlive = Cardinality(DOMAIN m) /\ ndel = Cardinality({i \in DOMAIN tab : tab[i].v = 1})
OneEach == \A i, j \in DOMAIN tab : i # j /\ Live(tab[i]) /\ Live(tab[j]) => tab[i].k # tab[j].k
(* searches for absent keys end: there is always an empty slot *)
Room == \E i \in DOMAIN tab : tab[i].v = 0
=============================================================================
