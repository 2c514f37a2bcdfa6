----------------------------- MODULE VtkTrace -----------------------------
EXTENDS Vtk, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, kvars>>
Init == i = 1 /\ KInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "setup" -> Setup(Ev.runs, Ev.ref, Ev.there, Ev.opt)
    [] Ev.o = "merge" -> Merge(Ev.res)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
