---------------------------- MODULE ExploreTrace ----------------------------
EXTENDS Explore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, evars>>
Init == i = 1 /\ EInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "try" -> Try(Ev.v, Ev.ok, Ev.fixed)
    [] Ev.o = "begin" -> Begin(Ev.fields, Ev.rules, Ev.fixed)
    [] Ev.o = "done" -> Done(Ev.v, Ev.left)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
