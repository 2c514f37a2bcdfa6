------------------------------ MODULE CiTrace ------------------------------
EXTENDS Ci, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, cvars>>
Init == i = 1 /\ CInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "run" -> Run(Ev.exe, Ev.be, Ev.par, Ev.probes)
    [] Ev.o = "begin" -> Begin(Ev.cfg)
    [] Ev.o = "end" -> End(Ev.ok, Ev.rows, Ev.dets, Ev.warn)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
