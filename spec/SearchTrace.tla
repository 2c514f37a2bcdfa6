---------------------------- MODULE SearchTrace ----------------------------
EXTENDS Search, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, svars>>
Init == i = 1 /\ SInit
Ev == Trace[i]
SetOf(q) == {q[j] : j \in 1..Len(q)}
Cfg == [sites |-> 1..Ev.n, runs |-> Ev.runs, algo |-> Ev.algo, crashed |-> Ev.crashed]
Step ==
  CASE Ev.o = "sample" -> Sample(SetOf(Ev.set), Ev.bad)
    [] Ev.o = "report" -> Report(Ev.kind, SetOf(Ev.set))
    [] Ev.o = "start" -> Start(Cfg)
    [] Ev.o = "again" -> Again(Cfg)
    [] Ev.o = "end" -> End(Ev.ok)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
