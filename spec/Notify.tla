------------------------------- MODULE Notify -------------------------------
(* Delivery of call notifications: every backend of the chain that accepts      *)
(* them is told of the start and of the end of every instrumented call handling *)
(* floating point, in chain order, with the same arguments, and of nothing else.*)
EXTENDS Naturals, Sequences

VARIABLES takers, \* takers of enter and of exit notifications: [enter |-> ids, exit |-> ids], in chain order
          stack,  \* calls in progress
          due     \* deliveries still due: [id, kind, site, args]
nvars == <<takers, stack, due>>

NInit(tk) == takers = tk /\ stack = <<>> /\ due = <<>>
All(ids, kind, site, args) == [i \in 1..Len(ids) |-> [id |-> ids[i], kind |-> kind, site |-> site, args |-> args]]
NStart(tk) == due = <<>> /\ stack = <<>> /\ takers' = tk /\ stack' = <<>> /\ due' = <<>>
Call(site, args) == /\ due = <<>>
                    /\ stack' = Append(stack, site)
                    /\ due' = All(takers.enter, "enter", site, args)
                    /\ UNCHANGED takers
Return(site, args) == /\ due = <<>> /\ stack # <<>> /\ stack[Len(stack)] = site
                      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                      /\ due' = All(takers.exit, "exit", site, args)
                      /\ UNCHANGED takers
Deliver(e) == due # <<>> /\ due[1] = e /\ due' = Tail(due) /\ UNCHANGED <<takers, stack>>
Done == due = <<>> /\ stack = <<>> /\ UNCHANGED nvars
=============================================================================
