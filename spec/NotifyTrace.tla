---------------------------- MODULE NotifyTrace -----------------------------
(* Recorded notifications, checked against Notify.                              *)
EXTENDS Notify, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, nvars>>
Init == i = 1 /\ NInit([enter |-> <<>>, exit |-> <<>>])
Ev == Trace[i]
Step ==
  CASE Ev.o = "start" -> NStart(Ev.takers)
    [] Ev.o = "call" -> Call(Ev.site, Ev.args)
    [] Ev.o = "return" -> Return(Ev.site, Ev.args)
    [] Ev.o = "told" -> Deliver([id |-> Ev.id, kind |-> Ev.kind, site |-> Ev.site, args |-> Ev.args])
    [] Ev.o = "end" -> Done
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
