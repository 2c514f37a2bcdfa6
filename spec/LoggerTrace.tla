---------------------------- MODULE LoggerTrace ----------------------------
EXTENDS Logger, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, lvars>>
Init == i = 1 /\ LInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "msg" -> Msg(Ev.c, Ev.where, Ev.header, Ev.color)
    [] Ev.o = "start" -> Start(Ev.set, Ev.plan)
    [] Ev.o = "end" -> End(Ev.failed, Ev.same)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
