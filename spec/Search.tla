------------------------------- MODULE Search -------------------------------
(* Delta debugging as its user sees it: samples of sets of sites are run and      *)
(* judged, then sets are reported.  What counts as failing or passing is what     *)
(* the samples say: one failed sample makes a set fail, `runs` samples without     *)
(* failure make it pass.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* [sites, runs, algo]
          seen,    \* set of sites -> verdicts of its samples
          mins,    \* sequence of reported minimal sets
          rest,    \* <<reported complement>>
          top      \* <<reported maximal set, its complement>>
svars == <<cfg, seen, mins, rest, top>>

Fails(S) == S \in DOMAIN seen /\ \E i \in 1..Len(seen[S]) : seen[S][i]
(* nothing enabled: nothing can go wrong                                            *)
Passes(S) == ~Fails(S) /\ (S = {} \/ (S \in DOMAIN seen /\ Len(seen[S]) >= cfg.runs))

SInit == cfg = <<>> /\ seen = <<>> /\ mins = <<>> /\ rest = <<>> /\ top = <<>>
Start(g) == cfg' = g /\ seen' = <<>> /\ mins' = <<>> /\ rest' = <<>> /\ top' = <<>>
(* the tool is run again on what an earlier run left                                 *)
Again(g) == cfg' = g /\ mins' = <<>> /\ rest' = <<>> /\ top' = <<>> /\ UNCHANGED seen
Sample(S, bad) ==
  /\ S \subseteq cfg.sites
  (* no more samples than asked for, nor after all is known of the set               *)
  /\ S \in DOMAIN seen => cfg.crashed \/ Len(seen[S]) < cfg.runs
  /\ seen' = IF S \in DOMAIN seen THEN [seen EXCEPT ![S] = Append(@, bad)] ELSE seen @@ (S :> <<bad>>)
  /\ UNCHANGED <<cfg, mins, rest, top>>
Report(kind, S) ==
  /\ S \subseteq cfg.sites
  /\ CASE kind = "min" -> mins' = Append(mins, S) /\ UNCHANGED <<rest, top>>
       [] kind = "rest" -> rest' = Append(rest, S) /\ UNCHANGED <<mins, top>>
       [] kind = "top" -> top' = Append(top, S) /\ UNCHANGED <<mins, rest>>
  /\ UNCHANGED <<cfg, seen>>

Union == UNION {mins[i] : i \in 1..Len(mins)}
MinimalOK ==
  /\ Len(mins) > 0
  /\ \A i \in 1..Len(mins) : Fails(mins[i]) /\ \A x \in mins[i] : Passes(mins[i] \ {x})
  /\ \A i, j \in 1..Len(mins) : i # j => mins[i] \cap mins[j] = {}
  /\ Passes(cfg.sites \ Union)
  /\ rest = <<cfg.sites \ Union>>
  /\ top = <<>>
MaximalOK ==
  /\ Len(top) = 2 /\ top[2] = cfg.sites \ top[1]
  /\ Passes(top[1]) /\ top[2] # {}
  /\ \A x \in top[2] : Fails(top[1] \cup {x})
  /\ mins = <<>> /\ rest = <<>>
(* the tool ends: with answers, or, if everything enabled passes, without any            *)
EndOK(ok) ==
  IF Passes(cfg.sites) THEN ~ok /\ mins = <<>> /\ rest = <<>> /\ top = <<>>
  ELSE ok /\ IF cfg.algo = "ddmax" THEN MaximalOK ELSE MinimalOK
End(ok) == (EndOK(ok) = TRUE) /\ UNCHANGED svars
=============================================================================
