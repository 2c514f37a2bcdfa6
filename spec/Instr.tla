------------------------------- MODULE Instr -------------------------------
(* A program as the graph of the floating-point operations it executes, and     *)
(* what an instrumented build of it may do: hand each instrumented operation,   *)
(* once, to the backends with its own operands, go on with the answer, compute  *)
(* everything else natively, and produce its outputs in order.                  *)
EXTENDS FP, Sequences, FiniteSets

VARIABLES nodes,    \* the graph: [k, op, t, a, v, p]
          outs,     \* the nodes output, in program order
          on,       \* kinds instrumented besides the arithmetic: subset of {"fma", "cmp", "cast"}
          strict,   \* TRUE: operations appear as written (no operand swaps by an optimiser)
          val,      \* answers received so far: node -> value
          nout      \* outputs produced so far
ivars == <<nodes, outs, on, strict, val, nout>>
InstrInit == nodes = <<>> /\ outs = <<>> /\ on = {} /\ strict = TRUE /\ val = <<>> /\ nout = 0

(* is the node handed to the backends? *)
Handed(nd) == nd.k = "op" \/ (nd.k \in {"fma", "cmp", "cast"} /\ nd.k \in on)

(* the value of a node, when it is determined: an input, an answer, or a native  *)
(* computation on determined values                                              *)
RECURSIVE Known(_)
Known(j) == LET nd == nodes[j] IN
  CASE nd.k \in {"in", "x", "int"} -> TRUE
    [] Handed(nd) -> j \in DOMAIN val
    [] OTHER -> \A i \in 1..Len(nd.a) : Known(nd.a[i])
RECURSIVE Val(_)
Val(j) == LET nd == nodes[j] IN
  CASE nd.k \in {"in", "x", "int"} -> nd.v
    [] Handed(nd) -> val[j]
    [] nd.k = "ext" -> Val(nd.a[1])
    [] nd.k = "neg" -> Neg(Val(nd.a[1]))
    [] nd.k = "cast" -> RoundTo(Val(nd.a[1]), Binary32)
    [] nd.k = "fma" -> Native("fma", Fmt(nd.t), Val(nd.a[1]), Val(nd.a[2]), Val(nd.a[3]))
    [] nd.k = "cmp" -> IF Compare(nd.p, Val(nd.a[1]), Val(nd.a[2])) THEN 1 ELSE 0

Run(ns, os, o, st) ==
  /\ nodes' = ns /\ outs' = os /\ on' = o /\ strict' = st /\ val' = <<>> /\ nout' = 0
Answer(j, r) == val' = [x \in DOMAIN val \cup {j} |-> IF x = j THEN r ELSE val[x]] /\ UNCHANGED <<nodes, outs, on, strict, nout>>
Waiting(j, op, t) == nodes[j].op = op /\ nodes[j].t = t /\ Handed(nodes[j]) /\ j \notin DOMAIN val /\ \A i \in 1..Len(nodes[j].a) : Known(nodes[j].a[i])

(* a backend is asked for an operation: some waiting node has it with these operands *)
Asked(op, t, a, r) ==
  \E j \in 1..Len(nodes) :
    /\ Waiting(j, op, t)
    /\ LET x == nodes[j].a
           n == Len(x)
       IN  /\ n = Len(a)
           /\ \/ \A i \in 1..n : Same(Val(x[i]), a[i])
              \/ ~strict /\ op \in {"add", "mul"} /\ Same(Val(x[1]), a[2]) /\ Same(Val(x[2]), a[1])
              \/ ~strict /\ op = "fma" /\ Same(Val(x[1]), a[2]) /\ Same(Val(x[2]), a[1]) /\ Same(Val(x[3]), a[3])
    /\ Answer(j, r)

(* predicates are sets of outcomes: bit 0 equal, 1 greater, 2 less, 3 unordered *)
Bit(p, i) == (p \div (2^i)) % 2
Swapped(p) == Bit(p, 0) + (2 * Bit(p, 2)) + (4 * Bit(p, 1)) + (8 * Bit(p, 3))
AskedCmp(p, t, a, b, r) ==
  \E j \in 1..Len(nodes) :
    /\ Waiting(j, "cmp", "i") /\ nodes[j].ft = t
    /\ LET x == nodes[j].a
           s == nodes[j].p
           dir == Same(Val(x[1]), a) /\ Same(Val(x[2]), b)
           rev == Same(Val(x[1]), b) /\ Same(Val(x[2]), a)
       IN  \/ dir /\ p = s /\ Answer(j, r)
           \/ ~strict /\ dir /\ p = 15 - s /\ Answer(j, 1 - r)
           \/ ~strict /\ rev /\ p = Swapped(s) /\ Answer(j, r)
           \/ ~strict /\ rev /\ p = 15 - Swapped(s) /\ Answer(j, 1 - r)

(* the program outputs: the next output, with the value of its node *)
Output(t, v) ==
  /\ nout < Len(outs)
  /\ LET j == outs[nout + 1]
     IN  /\ nodes[j].t = t
         /\ Known(j)
         /\ IF t = "i" THEN Val(j) = v ELSE Same(Val(j), v)
  /\ nout' = nout + 1 /\ UNCHANGED <<nodes, outs, on, strict, val>>
(* it ends having executed every operation and produced every output *)
End ==
  /\ nout = Len(outs)
  /\ \A j \in 1..Len(nodes) : Handed(nodes[j]) => j \in DOMAIN val
  /\ UNCHANGED ivars
=============================================================================
