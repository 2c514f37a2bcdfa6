------------------------------- MODULE InstrMC -------------------------------
(* Every small program over small values, every tagging of the backend's        *)
(* answers, every order the model allows.                                       *)
EXTENDS Instr, TLC
CONSTANT N
V == {[k |-> "n", s |-> 0, e |-> 0, m |-> <<1>>], [k |-> "n", s |-> 0, e |-> 0, m |-> <<3>>]}
W == V \cup {[k |-> "n", s |-> 1, e |-> 1, m |-> <<1>>]}
In(v) == [k |-> "in", op |-> "", t |-> "d", a |-> <<>>, v |-> v, p |-> 0, ft |-> ""]
Z == Zero(0)
Inner(i) == [k : {"op"}, op : {"add", "sub"}, t : {"d"}, a : {<<x, y>> : x, y \in 1..i}, v : {Z}, p : {0}, ft : {""}]
       \cup [k : {"cmp"}, op : {"cmp"}, t : {"i"}, a : {<<x, y>> : x, y \in 1..2}, v : {Z}, p : {4, 14}, ft : {"d"}]
       \cup [k : {"neg"}, op : {"neg"}, t : {"d"}, a : {<<x>> : x \in 1..i}, v : {Z}, p : {0}, ft : {""}]
VARIABLES phase, asked, bad
vars == <<ivars, phase, asked, bad>>
Init == InstrInit /\ phase = "build" /\ asked = {} /\ bad = FALSE
FloatNode(j) == nodes[j].t = "d"
Build == phase = "build" /\ UNCHANGED <<outs, on, strict, val, nout, asked, bad>> /\
   \/ Len(nodes) < 2 /\ nodes' \in {Append(nodes, In(v)) : v \in V} /\ phase' = phase
   \/ Len(nodes) >= 2 /\ Len(nodes) < 2 + N
        /\ nodes' \in {Append(nodes, n) : n \in {x \in Inner(Len(nodes)) : \A q \in 1..Len(x.a) : FloatNode(x.a[q])}}
        /\ phase' = phase
   \/ Len(nodes) = 2 + N /\ nodes' = nodes /\ phase' = "go"
Go == phase = "go" /\ \E o \in SUBSET {"cmp"}, st \in BOOLEAN : Run(nodes, [q \in 1..N |-> q + 2], o, st) /\ phase' = "run" /\ UNCHANGED <<asked, bad>>
(* an adversary asks anything; what the model accepts must be right *)
AskAny == phase = "run" /\ UNCHANGED <<phase>> /\
  \/ \E op \in {"add", "sub"}, a, b \in W, r \in W :
       /\ Asked(op, "d", <<a, b>>, r)
       /\ LET j == CHOOSE q \in DOMAIN val' : q \notin DOMAIN val
              x == nodes[j].a
          IN  asked' = asked \cup {j} /\ bad' = (bad \/ j \in asked \/ nodes[j].op # op
                 \/ ~({Val(x[1]), Val(x[2])} = {a, b}) \/ (op = "sub" /\ Val(x[1]) # a) \/ (strict /\ Val(x[1]) # a))
  \/ \E p \in 0..15, a, b \in W, r \in {0, 1} :
       /\ AskedCmp(p, "d", a, b, r)
       /\ LET j == CHOOSE q \in DOMAIN val' : q \notin DOMAIN val
              x == nodes[j].a
              \* a truthful backend answers so that the program sees the truth
          IN  asked' = asked \cup {j} /\ bad' = (bad \/ j \in asked \/ "cmp" \notin on
                 \/ ((r = (IF Compare(p, a, b) THEN 1 ELSE 0)) # (val'[j] = (IF Compare(nodes[j].p, Val(x[1]), Val(x[2])) THEN 1 ELSE 0))))
Out == phase = "run" /\ UNCHANGED <<phase, asked, bad>> /\
  nout < Len(outs) /\ Known(outs[nout + 1]) /\ Output(nodes[outs[nout + 1]].t, Val(outs[nout + 1]))
Stop == phase = "run" /\ End /\ phase' = "end" /\ UNCHANGED <<asked, bad>>
Next == Build \/ Go \/ AskAny \/ Out \/ Stop
Spec == Init /\ [][Next]_vars
TypeOK == DOMAIN val \subseteq 1..Len(nodes) /\ nout \in 0..Len(outs)
Once == asked = DOMAIN val
Right == ~bad
Complete == phase = "end" => \A j \in 1..Len(nodes) : (nodes[j].k = "op" \/ nodes[j].k \in on) => j \in asked
=============================================================================
