---------------------------- MODULE HashMapTrace -----------------------------
EXTENDS HashMap, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, m>>
Init == i = 1 /\ MapInit
Ev == Trace[i]
Step ==
  CASE Ev.o = "new" -> m' = <<>>
    [] Ev.o = "ins" -> Insert(Ev.k, Ev.v)
    [] Ev.o = "rem" -> Remove(Ev.k)
    [] Ev.o = "have" -> Have(Ev.k, Ev.r)
    [] Ev.o = "get" -> Get(Ev.k, Ev.r, "0")
    [] Ev.o = "num" -> Size(Ev.n)
    [] Ev.o = "bulk" -> Bulk(Ev.n, Ev.size, Ev.found, Ev.size2, Ev.found2, Ev.gone)
    [] Ev.o = "release" -> Release(Ev.n, Ev.k, Ev.freed)
    [] Ev.o = "walk" -> Walk(Ev.ks, Ev.vs)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
