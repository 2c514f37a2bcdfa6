---------------------------- MODULE BitmaskTrace ----------------------------
(* Recorded operations of the bitmask backend, checked against Bitmask.          *)
EXTENDS Bitmask, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, bvars>>
Init == i = 1 /\ cfg = [mode |-> "ob", op |-> "zero", prec |-> [f |-> 24, d |-> 53], daz |-> FALSE, ftz |-> FALSE]
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Operate(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r)
    [] Ev.o = "bits" -> Bits(Ev.op, Ev.t, Ev.a, Ev.b, Ev.rs)
    [] Ev.o = "start" -> Start(Ev.cfg)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
