---------------------------- MODULE DriverTrace ----------------------------
EXTENDS Driver, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, dvars>>
Init == i = 1 /\ DInit
Ev == Trace[i]
USet(q) == {[u |-> q[j].u, text |-> q[j].text, inst |-> Range(q[j].inst)] : j \in 1..Len(q)}
UObj(q) == {[u |-> q[j].u, main |-> q[j].main, need |-> q[j].need, text |-> q[j].text, inst |-> Range(q[j].inst)] : j \in 1..Len(q)}
Step ==
  CASE Ev.o = "file" -> File(Ev.n, Ev.x)
    [] Ev.o = "lib" -> File(Ev.n, [t |-> "lib", units |-> UObj(Ev.units)])
    [] Ev.o = "start" -> Start(Ev.id, Ev.c)
    [] Ev.o = "end" -> End(Ev.id, Ev.ok, Range(Ev.shown))
    [] Ev.o = "ls" -> Listing(Range(Ev.names), Ev.extra, Ev.may)
    [] Ev.o = "run" -> Run(Ev.n, USet(Ev.us))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
