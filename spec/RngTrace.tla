------------------------------ MODULE RngTrace ------------------------------
(* Recorded runs of a randomised backend, checked against Rng.                    *)
EXTENDS Rng, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, rvars>>
Init == i = 1 /\ RInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "draw" -> Draw(Ev.th, Ev.op, Ev.r)
    [] Ev.o = "plain" -> Plain(Ev.th, Ev.op, Ev.r)
    [] Ev.o = "run" -> Run(Ev.seed)
    [] Ev.o = "together" -> Together(Ev.ops, Ev.seqs, Ev.known)
    [] Ev.o = "distinct" -> Distinct(Ev.min)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
