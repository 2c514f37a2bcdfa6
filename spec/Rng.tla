-------------------------------- MODULE Rng --------------------------------
(* Random streams of a randomised backend.  A run has a seed; a thread gets the  *)
(* next rank when it draws for the first time; from then on its results depend   *)
(* on the seed, its rank and its own operations alone.  The dependency itself is *)
(* not known: whatever is observed once must be observed again (memo), and the   *)
(* streams of different (seed, rank) pairs differ.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES seed,    \* of the current run
          next,    \* ranks given so far
          rank,    \* thread -> rank, 0 before the first draw
          node,    \* thread -> position in its own history (a node of the tree in memo)
          memo,    \* <<seed, rank, node, operation>> -> <<result, node after it>>
          outs     \* <<seed, rank>> -> <<operations, results>> of the stream
rvars == <<seed, next, rank, node, memo, outs>>

Threads == 0..63
RInit == seed = "" /\ next = 0 /\ rank = [t \in Threads |-> 0] /\ node = [t \in Threads |-> 0] /\ memo = <<>> /\ outs = <<>>
(* a new process                                                                     *)
Run(s) == /\ seed' = s /\ next' = 0
          /\ rank' = [t \in Threads |-> 0] /\ node' = [t \in Threads |-> 0]
          /\ UNCHANGED <<memo, outs>>
(* thread t performs an operation which draws                                         *)
Draw(t, op, res) ==
  LET r == IF rank[t] = 0 THEN next + 1 ELSE rank[t]
      k == <<seed, r, node[t], op>>
      n == Cardinality(DOMAIN memo) + 1
      q == <<seed, r>>
      o == IF q \in DOMAIN outs THEN outs[q] ELSE <<<<>>, <<>>>>
  IN  /\ k \in DOMAIN memo => memo[k][1] = res
      /\ rank' = [rank EXCEPT ![t] = r]
      /\ next' = IF rank[t] = 0 THEN next + 1 ELSE next
      /\ memo' = IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> <<res, n>>)
      /\ node' = [node EXCEPT ![t] = IF k \in DOMAIN memo THEN memo[k][2] ELSE n]
      (* only the first run of a stream is kept                                        *)
      /\ outs' = IF k \in DOMAIN memo THEN outs ELSE (q :> <<Append(o[1], op), Append(o[2], res)>>) @@ outs
      /\ UNCHANGED seed
(* an operation which draws nothing: the same result always                           *)
Plain(t, op, res) ==
  LET k == <<"", 0, 0, op>>
  IN  /\ k \in DOMAIN memo => memo[k][1] = res
      /\ memo' = IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> <<res, 0>>)
      /\ UNCHANGED <<seed, next, rank, node, outs>>
(* new threads started together, each doing the same operations: they take the next   *)
(* ranks, in some order, and their streams are those of the ranks (known), or differ     *)
Together(ops, seqs, known) ==
  LET K == Len(seqs) IN
  /\ IF known
     THEN /\ \A r \in 1..K : <<seed, next + r>> \in DOMAIN outs /\ SubSeq(outs[<<seed, next + r>>][1], 1, Len(ops)) = ops
          /\ {seqs[i] : i \in 1..K} = {SubSeq(outs[<<seed, next + r>>][2], 1, Len(ops)) : r \in 1..K}
     ELSE Cardinality({seqs[i] : i \in 1..K}) = K
  /\ next' = next + K
  /\ UNCHANGED <<seed, rank, node, memo, outs>>
(* streams of the same operations, long enough, differ                                 *)
Pre(q, n) == SubSeq(q, 1, n)
Distinct(min) ==
  /\ \A p \in DOMAIN outs, q \in DOMAIN outs :
       (p # q /\ Len(outs[p][1]) >= min /\ Len(outs[q][1]) >= min /\ Pre(outs[p][1], min) = Pre(outs[q][1], min))
         => Pre(outs[p][2], min) # Pre(outs[q][2], min)
  /\ UNCHANGED rvars
=============================================================================
