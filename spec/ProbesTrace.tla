----------------------------- MODULE ProbesTrace -----------------------------
EXTENDS Probes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, pvars>>
Init == i = 1 /\ ProbesInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "new" -> placed' = <<>> /\ run' = "on"
    [] Ev.o = "probe" -> Probe(Ev.p, Ev.ok)
    [] Ev.o = "count" -> Count(Ev.n)
    [] Ev.o = "dump" -> Dump(Ev.path, Ev.header, Ev.lines, Ev.untouched, Ev.ok)
    [] Ev.o = "stopped" -> Stopped(Ev.untouched)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
