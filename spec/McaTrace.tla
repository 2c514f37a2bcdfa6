------------------------------ MODULE McaTrace ------------------------------
(* Recorded operations of the MCA backends, checked against Mca.                *)
EXTENDS Mca, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i, mvars>>
Init == i = 1 /\ cfg = [engine |-> "quad", mode |-> "mca", prec |-> [f |-> 24, d |-> 53], err |-> "rel", exp |-> 112, daz |-> FALSE, ftz |-> FALSE]
Ev == Trace[i]
Step ==
  CASE Ev.o = "op" -> Operate(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.r)
    [] Ev.o = "spread" -> Spread(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.rs, Ev.reach)
    [] Ev.o = "uniform" -> Uniform(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.rs)
    [] Ev.o = "rounding" -> Rounding(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.rs)
    [] Ev.o = "sparsein" -> SparseIn(Ev.op, Ev.t, Ev.a, Ev.rs, Ev.reach)
    [] Ev.o = "sparse" -> Sparse(Ev.op, Ev.t, Ev.a, Ev.b, Ev.c, Ev.rs, Ev.reach)
    [] Ev.o = "sparsity" -> Sparsity(Ev.milli, Ev.ok)
    [] Ev.o = "inexact" -> Inexact(Ev.t, Ev.a, Ev.n, Ev.r)
    [] Ev.o = "start" -> Start(Ev.cfg)
    [] Ev.o = "setp" -> SetPrecision(Ev.t, Ev.v)
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
