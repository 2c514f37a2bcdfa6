----------------------------- MODULE ConfigMC ------------------------------
(* Splitting: both definitions agree and have the defining properties.  Life    *)
(* cycle: over all small configurations.                                        *)
EXTENDS Config, TLC
CONSTANTS MaxLen
VARIABLES txt, log
vars == <<fvars, txt, log>>
Alpha == {"a", " ", ";"}
RECURSIVE Join(_, _)
Join(ws, x) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<x>> \o Join(Tail(ws), x)
IsSub(w, cs) == \E i \in 0..(Len(cs) - Len(w)) : SubSeq(cs, i + 1, i + Len(w)) = w
SplitOK ==
  \A sep \in {" ", ";"} :
   LET ws == Split(txt, sep)
   IN  /\ ws = SplitAt(txt, sep, <<>>)
       /\ \A i \in 1..Len(ws) : ws[i] # <<>> /\ (\A j \in 1..Len(ws[i]) : ws[i][j] # sep) /\ IsSub(ws[i], txt)
       /\ SelectSeq(Join(ws, sep), LAMBDA c : c # sep) = SelectSeq(txt, LAMBDA c : c # sep)
       /\ Split(Join(ws, sep), sep) = ws
       /\ Len(ws) = Cardinality({i \in 1..Len(txt) : txt[i] # sep /\ (i = 1 \/ txt[i - 1] = sep)})
Ops == {"x", "fin"}
Lib == [loads : BOOLEAN, accepts : BOOLEAN, impl : SUBSET Ops]
Init == ConfInit /\ txt = <<>> /\ log = <<>>
Grow == ph = "off" /\ log = <<>> /\ Len(txt) < MaxLen /\ \E c \in Alpha : txt' = Append(txt, c) /\ UNCHANGED <<fvars, log>>
L(e) == log' = Append(log, e) /\ UNCHANGED txt
Txt(s) == [set |-> TRUE, cs |-> s]
Go == log = <<>> /\ Len(txt) <= 3 /\ \E libs \in [1..2 -> Lib], e \in BOOLEAN, f \in {"unset", "bad", "ok"} :
   Start([env |-> IF e THEN Txt(txt) ELSE Unset, file |-> [set |-> f # "unset", ok |-> f = "ok", cs |-> <<"a">>], libs |-> libs, req |-> {"x"}]) /\ L("start")
Step == \/ \E i \in 1..Len(want) : Cli(want[i]) /\ L("cli")
        \/ \E i \in 1..2 : InitB(i) /\ L("init")
        \/ Main /\ L("main")
        \/ \E i \in 1..2 : Fin(i) /\ L("fin" \o ToString(i))
        \/ \E c \in {0, 3} : ExitOk(c, 3) /\ L("exit")
        \/ ExitErr(1) /\ L("err")
Next == Grow \/ Go \/ (ph # "off" /\ Step)
Spec == Init /\ [][Next]_vars
Pos(e) == {i \in 1..Len(log) : log[i] = e}
(* the program runs only after as many initialisations as backends wanted, at    *)
(* least one, none refused, and the needed operation present; a run that was      *)
(* refused never reached main; a completed run always ends                        *)
Safe ==
  /\ Pos("main") # {} =>
        /\ Len(want) > 0 /\ Cardinality(Pos("init")) = Len(want)
        /\ \A i \in 1..Len(want) : conf.libs[i].loads /\ conf.libs[i].accepts
        /\ \E i \in 1..Len(want) : "x" \in conf.libs[i].impl
  /\ Pos("err") # {} => Pos("main") = {}
  /\ Pos("exit") # {} => \A i \in 1..Len(want) : ("fin" \in conf.libs[i].impl) = (Cardinality(Pos("fin" \o ToString(i))) = 1)
  /\ conf.env.set /\ ph # "off" => want = Wanted([conf EXCEPT !.file.cs = <<>>])
Moves == ph # "off" => ENABLED Step
=============================================================================
