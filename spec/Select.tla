------------------------------ MODULE Select -------------------------------
(* Which functions a compilation instruments: inclusion and exclusion lists,   *)
(* their patterns, and the single-function option.  Text is a sequence of      *)
(* characters; a list is a sequence of lines.                                  *)
EXTENDS Naturals, Sequences, FiniteSets

(* ---- patterns: a star stands for any text, every other character for itself *)
RECURSIVE Reach(_, _, _, _)
Reach(pat, str, k, S) ==   \* positions of str reachable after k characters of pat
  IF S = {} \/ k = Len(pat) THEN S
  ELSE LET c == pat[k + 1]
           T == IF c = "*" THEN LET lo == CHOOSE x \in S : \A y \in S : x <= y IN lo..Len(str)
                ELSE {j + 1 : j \in {x \in S : x < Len(str) /\ str[x + 1] = c}}
       IN  Reach(pat, str, k + 1, T)
Match(pat, str) == Len(str) \in Reach(pat, str, 0, {0})

(* ---- lines ------------------------------------------------------------------ *)
White == {" ", "\t", "\r"}
IsBlank(l) == \A i \in 1..Len(l) : l[i] \in White
IsComment(l) == l # <<>> /\ l[1] = "#"
Skipped(l) == IsBlank(l) \/ IsComment(l)
FirstSpace(l) == LET S == {i \in 1..Len(l) : l[i] = " "} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in White THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in White THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Malformed(l) == ~Skipped(l) /\ LET k == FirstSpace(l) IN k = 0 \/ k = Len(l)
ModPart(l) == TrimR(SubSeq(l, 1, FirstSpace(l) - 1))
FunPart(l) == TrimL(TrimR(SubSeq(l, FirstSpace(l) + 1, Len(l))))

LastSlash(s) == LET S == {i \in 1..Len(s) : s[i] = "/"} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
HasExt(m) == \E i \in (LastSlash(m) + 1)..Len(m) : m[i] = "."
Relative(m) == m = <<>> \/ m[1] # "/"
(* a relative name matches in any directory, a name without extension with any extension *)
ModPattern(m) == (IF Relative(m) THEN <<"*", "/">> ELSE <<>>) \o m \o (IF HasExt(m) THEN <<>> ELSE <<".", "*">>)

Listed(list, mod, fn) ==
  \E i \in 1..Len(list) : ~Skipped(list[i]) /\ Match(ModPattern(ModPart(list[i])), mod) /\ Match(FunPart(list[i]), fn)

(* ---- a compilation ------------------------------------------------------------ *)
(* req: [inc: given, readable, lines; exc: same; fun: given, name]                 *)
ListOK(l) == l.given => l.readable /\ \A i \in 1..Len(l.lines) : ~Malformed(l.lines[i])
Accepted_(req) ==
  /\ ~(req.fun.given /\ (req.inc.given \/ req.exc.given))
  /\ ListOK(req.inc) /\ ListOK(req.exc)
Selected(req, mod, fn) ==
  IF req.fun.given THEN fn = req.fun.name
  ELSE IF req.inc.given /\ Listed(req.inc.lines, mod, fn) THEN TRUE
  ELSE IF req.exc.given /\ Listed(req.exc.lines, mod, fn) THEN FALSE
  ELSE ~(req.inc.given /\ ~req.exc.given)
=============================================================================
