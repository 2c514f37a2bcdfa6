----------------------------- MODULE IeeeTrace -----------------------------
EXTENDS Ieee, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, ivars>>
Init == i = 1 /\ IeeeInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Op(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r)
    [] Ev.o = "cmp" -> Cmp(Ev.p, Ev.a, Ev.b, Ev.r)
    [] Ev.o = "bulk" -> Bulk(Ev.op, Ev.k)
    [] Ev.o = "begin" -> Begin(Ev.c)
    [] Ev.o = "report" -> Report(Ev.rep)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
