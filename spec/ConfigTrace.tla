---------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, fvars>>
Init == i = 1 /\ ConfInit
Ev == Trace[i]
Set(s) == {s[j] : j \in 1..Len(s)}
Libs(l) == [j \in 1..Len(l) |-> [loads |-> l[j].loads, accepts |-> l[j].accepts, impl |-> Set(l[j].impl)]]
Step ==
  CASE Ev.o = "start" -> Start([env |-> Ev.env, file |-> Ev.file, libs |-> Libs(Ev.libs), req |-> Set(Ev.req)])
    [] Ev.o = "cli" -> Cli(Ev.argv)
    [] Ev.o = "init" -> InitB(Ev.n)
    [] Ev.o = "main" -> Main
    [] Ev.o = "env" -> SeesEnv(Ev.v)
    [] Ev.o = "fin" -> Fin(Ev.n) \/ FinErr(Ev.n)
    [] Ev.o = "exit" -> ExitOk(Ev.code, Ev.own) \/ ExitErr(Ev.code)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
