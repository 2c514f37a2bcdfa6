------------------------------ MODULE ChainMC ------------------------------
(* All behaviours of the chain for few backends, lanes and threads, with the   *)
(* statement of the property as a history invariant that does not use the      *)
(* progress counters of the model.                                             *)
EXTENDS Chain, TLC
CONSTANTS NB, Threads, MaxLanes, Rounds
VARIABLES hist, rounds
vars == <<backs, req, hist, rounds>>
Ops == {"add", "cmp"}
Vals == {"x", "y"}
Rec(id, impl) == [id |-> id, impl |-> impl]
Lists == UNION {[1..n -> [id : {"?"}, impl : SUBSET Ops]] : n \in 1..NB}
Name(f) == [i \in DOMAIN f |-> [id |-> ToString(i), impl |-> f[i].impl]]
Init == ChainInit /\ hist = [t \in Threads |-> <<>>] /\ rounds = [t \in Threads |-> 0]
H(t, e) == hist' = [hist EXCEPT ![t] = Append(@, e)]
DoLoad == backs = <<>> /\ \E f \in Lists : Load(Name(f)) /\ UNCHANGED <<hist, rounds>>
DoBegin(t) == backs # <<>> /\ rounds[t] < Rounds /\ \E op \in Ops, n \in 1..MaxLanes : \E a \in [1..n -> Vals] :
   Begin(t, op, a) /\ hist' = [hist EXCEPT ![t] = <<[k |-> "b", op |-> op, a |-> a]>>] /\ rounds' = [rounds EXCEPT ![t] = @ + 1]
Res(b, a) == a \o b.id
DoCalled(t) == Pending(t) # None /\ \E i \in 1..Len(backs), a \in Vals :
   Called(t, backs[i].id, req[t].op, a, Res(backs[i], a)) /\ H(t, [k |-> "c", i |-> i, a |-> a]) /\ UNCHANGED rounds
DoReturn(t) == Pending(t) # None /\ Return(t, req[t].val) /\ H(t, [k |-> "r", v |-> req[t].val]) /\ UNCHANGED rounds
Next == DoLoad \/ \E t \in Threads : DoBegin(t) \/ DoCalled(t) \/ DoReturn(t)
Spec == Init /\ [][Next]_vars
(* when an operation has returned: each implementer saw each operand exactly as *)
(* often as there are lanes with it, nobody else was called, an implementer is   *)
(* never called for an operand more often than the one before it, and lane l got *)
(* the last implementer's answer for operand l                                    *)
Calls(h, i, a) == Cardinality({j \in 1..Len(h) : h[j].k = "c" /\ h[j].i = i /\ h[j].a = a})
Lanes(b, a) == Cardinality({l \in 1..Len(b.a) : b.a[l] = a})
Done(t) == Len(hist[t]) > 0 /\ hist[t][Len(hist[t])].k = "r"
Once == \A t \in Threads : Done(t) =>
  LET h == hist[t] b == h[1]
  IN  \A i \in 1..Len(backs), a \in Vals : Calls(h, i, a) = IF b.op \in backs[i].impl THEN Lanes(b, a) ELSE 0
Order == \A t \in Threads : hist[t] # <<>> =>
  LET h == hist[t] b == h[1]
  IN  \A n \in 1..Len(h), i, j \in 1..Len(backs), a \in Vals :
        (i < j /\ b.op \in backs[i].impl /\ b.op \in backs[j].impl) => Calls(SubSeq(h, 1, n), i, a) >= Calls(SubSeq(h, 1, n), j, a)
Last == \A t \in Threads : Done(t) =>
  LET h == hist[t] b == h[1] r == h[Len(h)]
      im == {i \in 1..Len(backs) : b.op \in backs[i].impl}
  IN  im # {} => LET z == CHOOSE z \in im : \A y \in im : y <= z IN \A l \in 1..Len(b.a) : r.v[l] = Res(backs[z], b.a[l])
=============================================================================
