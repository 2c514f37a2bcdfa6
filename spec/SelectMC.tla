----------------------------- MODULE SelectMC ------------------------------
(* The matcher against its declarative meaning, and the laws of selection.     *)
EXTENDS Select
CONSTANTS MaxP, MaxS
VARIABLES pat, str, stage
vars == <<pat, str, stage>>
Alpha == {"a", ".", "/"}
PAlpha == Alpha \cup {"*"}
Init == pat = <<>> /\ str = <<>> /\ stage = "p"
Next == \/ stage = "p" /\ Len(pat) < MaxP /\ \E c \in PAlpha : pat' = Append(pat, c) /\ UNCHANGED <<str, stage>>
        \/ stage = "p" /\ stage' = "s" /\ UNCHANGED <<pat, str>>
        \/ stage = "s" /\ Len(str) < MaxS /\ \E c \in Alpha : str' = Append(str, c) /\ UNCHANGED <<pat, stage>>
Spec == Init /\ [][Next]_vars
(* meaning: a map from pattern positions to consecutive pieces of the text *)
RECURSIVE Means(_, _)
Means(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = "*" THEN \E k \in 0..Len(s) : Means(Tail(p), SubSeq(s, k + 1, Len(s)))
  ELSE s # <<>> /\ s[1] = p[1] /\ Means(Tail(p), Tail(s))
MatchOK == stage = "s" => (Match(pat, str) = Means(pat, str))
Lit == stage = "s" /\ (\A i \in 1..Len(pat) : pat[i] # "*") => (Match(pat, str) = (pat = str))
L(ls) == [given |-> TRUE, readable |-> TRUE, lines |-> ls]
No == [given |-> FALSE, readable |-> FALSE, lines |-> <<>>]
NoF == [given |-> FALSE, name |-> <<>>]
Line == <<"*", " ">> \o pat
M == <<"/", "a", ".", "a">>
(* inclusion alone and exclusion alone of the same list are complementary; inclusion wins *)
Laws == stage = "s" /\ pat # <<>> =>
  LET i == [inc |-> L(<<Line>>), exc |-> No, fun |-> NoF]
      e == [inc |-> No, exc |-> L(<<Line>>), fun |-> NoF]
      b == [inc |-> L(<<Line>>), exc |-> L(<<Line>>), fun |-> NoF]
      n == [inc |-> No, exc |-> No, fun |-> NoF]
  IN  /\ Selected(i, M, str) = ~Selected(e, M, str)
      /\ Selected(i, M, str) = Match(pat, str)
      /\ Selected(b, M, str) /\ Selected(n, M, str)
=============================================================================
