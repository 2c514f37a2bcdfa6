------------------------------ MODULE SearchMC ------------------------------
(* The search algorithms, run on every verdict function over N sites, and the      *)
(* guarantees of Search.  level[S] = 0: S never fails; 1: its last sample fails;     *)
(* 2: its first sample fails.  A test with k of K samples sees levels > K - k.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, Algo, Fault
VARIABLES level, phase
vars == <<level, phase>>
Sites == 1..N
All == [i \in 1..N |-> i]
Set(q) == {q[i] : i \in 1..Len(q)}
F(q, k) == level[Set(q)] > K - k
Minus(q, r) == SelectSeq(q, LAMBDA x : x \notin Set(r))
(* n parts as equal as possible                                                          *)
RECURSIVE Parts(_, _)
Parts(q, n) == IF n = 1 THEN <<q>> ELSE LET m == Len(q) \div n IN <<SubSeq(q, 1, m)>> \o Parts(SubSeq(q, m + 1, Len(q)), n - 1)
First(n, P(_)) == IF \E i \in 1..n : P(i) THEN CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j) ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE DdMin(_, _, _, _)
DdMin(c, n, off, k) ==
  IF n > Len(c) THEN c
  ELSE LET cs == TLCEval(Parts(c, n))
           s == First(n, LAMBDA i : F(cs[i], k))
           at(j) == (((j - 1) + off) % n) + 1
           b == First(n, LAMBDA j : F(Minus(c, cs[at(j)]), k))
       IN  IF s > 0 THEN DdMin(cs[s], 2, 0, k)
           ELSE IF b > 0 /\ Fault # "nocomplement" THEN DdMin(Minus(c, cs[at(b)]), n - 1, at(b) - 1, k)
           ELSE IF n >= Len(c) THEN c
           ELSE LET m == Min2(Len(c), n * 2) IN DdMin(c, m, (off * m) \div n, k)
RECURSIVE Rdd(_, _)
Rdd(d, k) == IF ~F(d, k) THEN <<>> ELSE LET m == TLCEval(DdMin(d, 2, 0, k)) IN <<m>> \o Rdd(Minus(d, m), k)
(* samples from few to many                                                               *)
RECURSIVE More(_, _)
More(m, ks) == IF Len(m) = 1 \/ ks = <<>> THEN m ELSE More(DdMin(m, 2, 0, ks[1]), Tail(ks))
RECURSIVE SrddAt(_, _, _)
SrddAt(d, ks, fail) ==   \* answers found at ks[1] and what remains
  IF ~fail THEN <<<<>>, d>>
  ELSE LET m == TLCEval(IF Fault = "noincrease" THEN DdMin(d, 2, 0, ks[1]) ELSE More(DdMin(d, 2, 0, ks[1]), Tail(ks)))
           e == Minus(d, m)
           r == TLCEval(SrddAt(e, ks, F(e, K)))
       IN  <<<<m>> \o r[1], r[2]>>
RECURSIVE Srdd(_, _)
Srdd(d, ks) == IF ks = <<>> THEN <<>>
               ELSE LET r == TLCEval(SrddAt(d, ks, F(d, ks[1]))) IN r[1] \o Srdd(r[2], Tail(ks))
(* dichotomy: disjoint failing parts which cannot be cut further                            *)
RECURSIVE Cut(_, _, _)
Cut(failed, unknown, k) ==
  IF failed = <<>> /\ unknown = <<>> THEN <<>>
  ELSE IF failed = <<>> \/ (unknown # <<>> /\ Len(failed[1]) > Len(unknown[1]))
  THEN IF F(unknown[1], k) THEN Cut(<<unknown[1]>> \o failed, Tail(unknown), k) ELSE Cut(failed, Tail(unknown), k)
  ELSE LET cand == failed[1]
           ps == TLCEval(Parts(cand, Min2(2, Len(cand))))
           big == First(Len(ps), LAMBDA i : Len(ps[i]) > 1 /\ F(ps[i], k))
           n == IF big = 0 THEN Len(ps) ELSE big - 1
           ones == SelectSeq([i \in 1..n |-> ps[i]], LAMBDA p : Len(p) = 1 /\ F(p, k))
       IN  IF big > 0 THEN ones \o Cut(<<ps[big]>> \o Tail(failed), SubSeq(ps, big + 1, Len(ps)) \o unknown, k)
           ELSE IF ones # <<>> THEN ones \o Cut(Tail(failed), unknown, k)
           ELSE <<cand>> \o Cut(Tail(failed), unknown, k)
Split(d, k) == IF ~F(d, K) THEN <<>> ELSE Cut(<<d>>, <<>>, k)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
RECURSIVE Answers(_, _)
Answers(cands, ks) == IF cands = <<>> THEN <<>> ELSE (IF Len(cands[1]) = 1 THEN <<cands[1]>> ELSE Srdd(cands[1], ks)) \o Answers(Tail(cands), ks)
Drdd(d, ks, k) ==
  LET c1 == TLCEval(Split(d, k))
      c2 == TLCEval(c1 \o Split(Minus(d, Flat(c1)), k))
      a == TLCEval(Answers(c2, ks))
      e == Minus(d, Flat(a))
  IN  IF Fault = "nofinal" \/ ~F(e, K) THEN a ELSE a \o Srdd(e, ks)
(* largest: c is what is left out                                                            *)
RECURSIVE DdMax(_, _, _)
DdMax(c, n, off) ==
  IF n > Len(c) THEN c
  ELSE LET cs == TLCEval(Parts(c, n))
           at(j) == (((j - 1) + off) % n) + 1
           b == First(n, LAMBDA j : ~F(Minus(All, Minus(c, cs[at(j)])), K))
       IN  IF b > 0 THEN DdMax(Minus(c, cs[at(b)]), n - 1, at(b) - 1)
           ELSE IF n >= Len(c) THEN c
           ELSE LET m == Min2(Len(c), n * 2) IN DdMax(c, m, (off * m) \div n)

FailsS(S) == level[S] > 0
Tab == [i \in 1..K |-> i]
Mins == CASE Algo = "rddmin" -> Rdd(All, K) [] Algo = "srddmin" -> Srdd(All, Tab) [] Algo = "drddmin" -> Drdd(All, Tab, 1) [] OTHER -> <<>>
MinimalOK == LET q == TLCEval(Mins) IN
  /\ \A i \in 1..Len(q) : FailsS(Set(q[i])) /\ \A x \in Set(q[i]) : ~FailsS(Set(q[i]) \ {x})
  /\ \A i, j \in 1..Len(q) : i # j => Set(q[i]) \cap Set(q[j]) = {}
  /\ ~FailsS(Sites \ UNION {Set(q[i]) : i \in 1..Len(q)})
MaximalOK == LET out == TLCEval(Set(DdMax(All, 2, 0))) IN
  ~FailsS(Sites \ out) /\ \A x \in out : FailsS((Sites \ out) \cup {x})
Good == phase = 2 => IF Algo = "ddmax" THEN MaximalOK ELSE MinimalOK

Init == level = <<>> /\ phase = 1
Pick == phase = 1 /\ phase' = 2 /\ level' \in {l \in [SUBSET Sites -> 0..K] : l[{}] = 0 /\ l[Sites] > 0}
Spec == Init /\ [][Pick]_vars
=============================================================================
