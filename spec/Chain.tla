------------------------------- MODULE Chain -------------------------------
(* How an executed operation, or a user call, travels through the loaded      *)
(* backends.  Values are opaque (the words as text).                           *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES backs,  \* the loaded backends in load order: <<[id, impl]>>
          req     \* thread -> its request in progress, or None
cvars == <<backs, req>>
None == [op |-> "none"]

(* the backends that implement an operation, in load order *)
Implementers(op) == SelectSeq(backs, LAMBDA b : op \in b.impl)

ChainInit == backs = <<>> /\ req = <<>>
Load(bs) == backs' = bs /\ UNCHANGED req
Pending(th) == IF th \in DOMAIN req THEN req[th] ELSE None
Upd(th, q) == req' = [x \in DOMAIN req \cup {th} |-> IF x = th THEN q ELSE req[x]]

(* an operation over lanes: args[l] is the operand tuple of lane l *)
Begin(th, op, args) ==
  /\ Pending(th) = None
  /\ Upd(th, [op |-> op, args |-> args, done |-> [l \in 1..Len(args) |-> 0], val |-> [l \in 1..Len(args) |-> "unset"]])
  /\ UNCHANGED backs

(* backend id is called for one lane: it must be the next implementer of that  *)
(* lane and get the lane's own operands; its result becomes the lane's value.  *)
(* Lanes in the same situation are interchangeable, so one of them is taken.   *)
Situation(q, l) == <<q.args[l], q.done[l], q.val[l]>>
Called(th, id, op, args, r) ==
  /\ Pending(th) # None
  /\ LET q == req[th]
         im == Implementers(op)
     IN  /\ q.op = op
         /\ \E l \in 1..Len(q.args) :
              /\ q.args[l] = args
              /\ q.done[l] < Len(im)
              /\ im[q.done[l] + 1].id = id
              /\ \A m \in 1..(l - 1) : Situation(q, m) # Situation(q, l)
              /\ Upd(th, [q EXCEPT !.done[l] = @ + 1, !.val[l] = r])
  /\ UNCHANGED backs

(* the program gets the values: every implementer of every lane has been called *)
Return(th, rs) ==
  /\ Pending(th) # None
  /\ LET q == req[th]
         im == Implementers(q.op)
     IN  /\ \A l \in 1..Len(q.args) : q.done[l] = Len(im)
         /\ Len(rs) = Len(q.args)
         /\ im # <<>> => rs = q.val
  /\ Upd(th, None)
  /\ UNCHANGED backs

(* a user call is a request of one lane whose value is not looked at *)
ReturnCall(th) ==
  /\ Pending(th) # None
  /\ req[th].done[1] = Len(Implementers(req[th].op))
  /\ Upd(th, None)
  /\ UNCHANGED backs
=============================================================================
