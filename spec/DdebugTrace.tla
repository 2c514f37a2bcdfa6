----------------------------- MODULE DdebugTrace -----------------------------
EXTENDS Ddebug, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, dvars>>
Init == i = 1 /\ DdebugInit
Ev == Trace[i]
L(l) == [given |-> l.given, ok |-> l.ok, sites |-> {l.sites[j] : j \in 1..Len(l.sites)}]
Step ==
  CASE Ev.o = "start" -> Start(L(Ev.inc), L(Ev.exc), Ev.gen, Ev.ok)
    [] Ev.o = "exec" -> Exec(Ev.site, Ev.op, Ev.t, Ev.lanes, Ev.calls, Ev.res)
    [] Ev.o = "end" -> End(Ev.file)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
