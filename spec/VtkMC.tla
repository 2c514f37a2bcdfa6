------------------------------- MODULE VtkMC -------------------------------
(* The merge as a loop over the arrays of a growing document, for every small        *)
(* document and all samples of two runs: arrays found by name, by position, or        *)
(* collected beforehand.  Numbers are kept as sums, so the algorithm's accuracy is     *)
(* the set of samples it has looked at.                                                *)
EXTENDS Vtk
CONSTANTS Names, Secs, MaxArr, Vals, How
VARIABLES doc,   \* sequence of [at, name, type, of, from]
          todo, pc
mvars == <<doc, todo, pc, kvars>>
At(s) == [piece |-> 1, sec |-> s]
Arrays == [at : {At(s) : s \in Secs}, name : Names, type : {"Float32", "Int32"}]
Distinct(d) == \A i, j \in 1..Len(d) : i # j => <<d[i].at, d[i].name>> # <<d[j].at, d[j].name>>
Docs == {d \in UNION {[1..n -> Arrays] : n \in 1..MaxArr} : Distinct(d)}
Init == KInit /\ doc = <<>> /\ todo = <<>> /\ pc = "start"
Ids(d) == [k \in 1..Len(d) |-> [at |-> d[k].at, name |-> d[k].name, type |-> d[k].type, of |-> "", from |-> k]]
Start == /\ pc = "start"
         /\ \E d \in Docs :
              /\ doc' = Ids(d)
              /\ runs' = <<d>>
              /\ todo' = [k \in 1..Cardinality({m \in 1..Len(d) : Float(d[m])}) |->
                            CHOOSE m \in 1..Len(d) : Float(d[m]) /\ Cardinality({l \in 1..m : Float(d[l])}) = k]
         /\ pc' = "loop" /\ UNCHANGED <<ref, there, opt>>
First(name) == CHOOSE m \in 1..Len(doc) : /\ doc[m].name = name /\ doc[m].of = "" /\ doc[m].type = "Float32"
                                          /\ \A l \in 1..(m - 1) : doc[l].name # name \/ doc[l].of # "" \/ doc[l].type # "Float32"
Target(k) ==
  IF How = "name" THEN First(runs[1][k].name)
  ELSE IF How = "position" THEN k
  ELSE CHOOSE m \in 1..Len(doc) : doc[m].of = "" /\ doc[m].from = k
Loop == /\ pc = "loop" /\ todo # <<>>
        /\ LET a == doc[Target(Head(todo))]
           IN  doc' = <<[at |-> Section(a), name |-> a.name, type |-> a.type, of |-> a.name, from |-> a.from]>> \o doc
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<pc, kvars>>
Next == Start \/ Loop
Spec == Init /\ [][Next]_mvars
Done == pc = "loop" /\ todo = <<>>
(* one accuracy for each floating-point array, with its samples, and the originals as they were *)
Complete == Done =>
  LET d == runs[1] IN
  /\ \A k \in 1..Len(d) : Cardinality({m \in 1..Len(doc) : doc[m].of # "" /\ doc[m].from = k}) = (IF Float(d[k]) THEN 1 ELSE 0)
  /\ \A k \in 1..Len(d) : Cardinality({m \in 1..Len(doc) : doc[m].of = "" /\ doc[m].from = k}) = 1

(* the statistics: order and sign of the samples do not matter, equal samples have all digits, *)
(* the digits are those of exactly one eighth                                            *)
Smp == UNION {[1..n -> Vals] : n \in 2..3}
Neg(s) == [k \in 1..Len(s) |-> -s[k]]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
ASSUME \A s \in Smp : /\ Var(s) >= 0 /\ (Var(s) = 0 <=> \A i, j \in 1..Len(s) : s[i] = s[j])
                      /\ Var(s) = Var(Neg(s)) /\ Var(s) = Var(Rev(s))
                      /\ (Var(s) > 0 => Cardinality({r \in 0..12 : Digits(r, s)}) = 1)
                      /\ {r \in 0..12 : Digits(r, s)} = {r \in 0..12 : Digits(r, Neg(s))}
                      /\ {r \in 0..40 : StdOK(r, s)} # {}
=============================================================================
