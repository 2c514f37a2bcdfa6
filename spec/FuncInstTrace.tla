--------------------------- MODULE FuncInstTrace ----------------------------
(* Recorded instrumented calls and profiles, checked against FuncInst.          *)
EXTENDS FuncInst, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, fivars, vvars>>
Init == i = 1 /\ InitState /\ imode = "none" /\ tab = <<>> /\ calls = <<>>
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Operate(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r) /\ UNCHANGED fivars
    [] Ev.o = "enter" -> Enter(Ev.s, Ev.args, Ev.seen)
    [] Ev.o = "exit" -> Exit(Ev.s, Ev.args, Ev.seen)
    [] Ev.o = "abs" -> AbsCall(Ev.s, Ev.args[1], Ev.seen[1][1])
    [] Ev.o = "start" -> Boot(Ev.opts, Ev.imode, Ev.recs)
    [] Ev.o = "setp" -> SetPrecision(Ev.t, Ev.v) /\ UNCHANGED fivars
    [] Ev.o = "setr" -> SetRange(Ev.t, Ev.v) /\ UNCHANGED fivars
    [] Ev.o = "dump" -> Dump(Ev.recs)
    [] Ev.o = "again" -> Ev.now = Ev.before /\ UNCHANGED <<fivars, vvars>>  \* the run a profile was fed back to, against the run that wrote it
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
