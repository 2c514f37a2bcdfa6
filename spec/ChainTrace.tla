----------------------------- MODULE ChainTrace -----------------------------
EXTENDS Chain, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, cvars>>
Init == i = 1 /\ ChainInit
Ev == Trace[i]
Set(s) == {s[j] : j \in 1..Len(s)}
Step ==
  CASE Ev.o = "load" -> Load([j \in 1..Len(Ev.b) |-> [id |-> Ev.b[j].id, impl |-> Set(Ev.b[j].impl)]])
    [] Ev.o = "begin" -> Begin(Ev.th, Ev.op, Ev.args)
    [] Ev.o = "called" -> Called(Ev.th, Ev.id, Ev.op, Ev.args, Ev.r)
    [] Ev.o = "ret" -> Return(Ev.th, Ev.r)
    [] Ev.o = "retcall" -> ReturnCall(Ev.th)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
