---------------------------- MODULE CancelTrace ----------------------------
(* Recorded operations of the cancellation backend, checked against Cancel.      *)
EXTENDS Cancel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, cvars>>
Init == i = 1 /\ cfg = [tol |-> 1, warn |-> FALSE] /\ sizes = <<>>
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Operate(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r)
    [] Ev.o = "uniform" -> Uniform(Ev.op, Ev.t, Ev.a, Ev.b, Ev.rs)
    [] Ev.o = "start" -> Start(Ev.cfg)
    [] Ev.o = "end" -> End(Ev.sizes)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
