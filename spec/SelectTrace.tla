---------------------------- MODULE SelectTrace ----------------------------
EXTENDS Select, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Ev == Trace[i]
(* fns: <<[mod, fn, inst]>> for the functions the program executes *)
Step == Ev.ok = Accepted_(Ev.req) /\ (Ev.ok => \A j \in 1..Len(Ev.fns) : Ev.fns[j].inst = Selected(Ev.req, Ev.fns[j].mod, Ev.fns[j].fn))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
