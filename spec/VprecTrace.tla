----------------------------- MODULE VprecTrace -----------------------------
(* Recorded executions under the VPREC backend, checked against Vprec.          *)
EXTENDS Vprec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, vvars>>
Init == i = 1 /\ InitState
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Operate(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r)
    [] Ev.o = "start" -> IF Ev.ok THEN Start(Ev.opts) ELSE Refuse(Ev.opts)
    [] Ev.o = "setp" -> IF Ev.ok THEN SetPrecision(Ev.t, Ev.v) ELSE RefuseP(Ev.t, Ev.v)
    [] Ev.o = "setr" -> IF Ev.ok THEN SetRange(Ev.t, Ev.v) ELSE RefuseR(Ev.t, Ev.v)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
