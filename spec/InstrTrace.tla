----------------------------- MODULE InstrTrace -----------------------------
EXTENDS Instr, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, ivars>>
Init == i = 1 /\ InstrInit
Ev == Trace[i]
Set(s) == {s[j] : j \in 1..Len(s)}
Step ==
  CASE Ev.o = "run" -> Run(Ev.nodes, Ev.outs, Set(Ev.on), Ev.strict)
    [] Ev.o = "op" -> Asked(Ev.op, Ev.t, Ev.a, Ev.r)
    [] Ev.o = "cmp" -> AskedCmp(Ev.p, Ev.t, Ev.a[1], Ev.a[2], Ev.r)
    [] Ev.o = "out" -> Output(Ev.t, Ev.v)
    [] Ev.o = "end" -> End
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
