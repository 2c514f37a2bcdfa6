--------------------------- MODULE DebugOutTrace ---------------------------
EXTENDS DebugOut, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, dvars>>
Init == i = 1 /\ DInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Do(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r)
    [] Ev.o = "cmp" -> DoCmp(Ev.p, Ev.t, Ev.a, Ev.b, Ev.r)
    [] Ev.o = "rec" -> Record(Ev.h, Ev.sign, Ev.ts, Ev.truth, Ev.lines)
    [] Ev.o = "begin" -> Begin(Ev.mode)
    [] Ev.o = "end" -> End
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
