------------------------------- MODULE Probes -------------------------------
(* Probes placed by a program and the file they are dumped to.  Names are      *)
(* sequences of characters; values are opaque.                                  *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES placed,  \* sequence of probes [test, var, val, thr, mode]
          run      \* "on", "stopped" (by an error) or "dumped"
pvars == <<placed, run>>
ProbesInit == placed = <<>> /\ run = "on"
Bad(name) == \E j \in 1..Len(name) : name[j] = ","
Names == {<<placed[j].test, placed[j].var>> : j \in 1..Len(placed)}
Placed == {placed[j] : j \in 1..Len(placed)}
Probe(p, ok) ==
  /\ run = "on"
  /\ ok = ~(Bad(p.test) \/ Bad(p.var) \/ <<p.test, p.var>> \in Names)
  /\ placed' = IF ok THEN Append(placed, p) ELSE placed
  /\ run' = IF ok THEN "on" ELSE "stopped"
Count(n) == run = "on" /\ n = Len(placed) /\ UNCHANGED pvars
(* dumping: path "file", "unset" or "bad"; before and after: the text lines of the file (or "none") *)
Dump(path, header, lines, untouched, ok) ==
  /\ run = "on"
  /\ CASE path = "file" -> /\ ok /\ header
                           /\ Len(lines) = Len(placed)
                           /\ {lines[j] : j \in 1..Len(lines)} = Placed
       [] path = "unset" -> ok /\ untouched
       [] path = "bad" -> ~ok /\ untouched
  /\ run' = (IF ok THEN "dumped" ELSE "stopped")
  /\ UNCHANGED placed
(* a program stopped by an error leaves the output file alone *)
Stopped(untouched) == run = "stopped" /\ untouched /\ UNCHANGED pvars
=============================================================================
