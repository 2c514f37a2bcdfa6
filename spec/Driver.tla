------------------------------- MODULE Driver -------------------------------
(* The compiler driver as its users see it.  A command names sources, objects, libraries,   *)
(* an output and options; its effect on the files is the one defined here, whatever the     *)
(* names look like and whatever other commands (on other outputs) run at the same time.     *)
(* A unit is a separately compiled piece of program; what matters of an object or of an     *)
(* executable is which units it has, the text each received from the command line and the   *)
(* kinds of operations instrumented in each.                                                *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES fs,     (* name -> content *)
          live,   (* commands under way: id -> command *)
          saved   (* intermediate files that must have been kept at least *)
dvars == <<fs, live, saved>>

Assembly == {".s", ".S"}
Name(f) == f.b \o f.e
Range(q) == {q[i] : i \in 1..Len(q)}
Obj(f) == f.b \o ".o"
Target(c) == IF c.o = "" THEN "a.out" ELSE c.o
Keep(c, u) == IF c.sel.how = "only" THEN u \in Range(c.sel.us) ELSE IF c.sel.how = "not" THEN u \notin Range(c.sel.us) ELSE TRUE
InstOf(c, u) == IF Keep(c, u) THEN {"add"} \cup Range(c.kinds) ELSE {}
Unit(s, c) == [u |-> s.u, main |-> s.main, need |-> s.need,
               text |-> IF s.lang = "c" THEN c.text ELSE s.text,
               inst |-> IF s.lang = "s" THEN {} ELSE InstOf(c, s.u)]
Src(s, c) == [t |-> "src", lang |-> "s", bad |-> FALSE, u |-> s.u, main |-> s.main, need |-> s.need, text |-> c.text]
Object(s, c) == [t |-> "obj", units |-> {Unit(s, c)}]

(* ------------------------------------------------ requests refused as a whole *)
Refused(c) ==
  \/ c.mode # "link" /\ Len(c.src) > 1 /\ c.o # ""
  \/ c.fun /\ c.lists
  \/ Len(c.src) = 0 /\ (c.mode # "link" \/ Len(c.objs) = 0)
  \/ ~c.readable /\ c.mode \in {"link", "c"} /\ \E f \in Range(c.src) : f.e \notin Assembly

Present(F, f) == Name(f) \in DOMAIN F /\ F[Name(f)].t = "src"
Compiles(F, c, f) == Present(F, f) /\ (c.mode = "E" \/ ~F[Name(f)].bad)

(* ------------------------------------------------ what compiling writes *)
OutName(c, f) == IF c.mode = "link" THEN Obj(f) ELSE IF c.o # "" THEN c.o ELSE IF c.mode = "S" THEN f.rb \o ".s" ELSE Obj(f)
Writes(c) == IF c.mode = "E" THEN IF c.o = "" THEN {} ELSE {c.o} ELSE {OutName(c, f) : f \in Range(c.src)}
Written(F, c, n) ==
  IF c.mode = "E" THEN [t |-> "pre"]
  ELSE LET f == CHOOSE f \in Range(c.src) : OutName(c, f) = n
       IN  IF c.mode = "S" THEN Src(F[Name(f)], c) ELSE Object(F[Name(f)], c)

(* ------------------------------------------------ linking *)
LinkUnits(F, c) ==
  LET own == UNION {{Unit(F[Name(f)], c)} : f \in Range(c.src)}
      obj == UNION {F[n].units : n \in Range(c.objs)}
      all == own \cup obj
  IN  IF c.lib # "" /\ (\E x \in all : x.need) THEN all \cup F[c.lib].units ELSE all
Links(F, c) ==
  /\ \A n \in Range(c.objs) : n \in DOMAIN F /\ F[n].t = "obj"
  /\ c.lib # "" => c.lib \in DOMAIN F
  /\ c.dir
  /\ LET us == LinkUnits(F, c)
     IN  /\ Cardinality({x \in us : x.main}) = 1
         /\ Cardinality({x.u : x \in us}) = Len(c.src) + Len(c.objs) + (IF \E x \in us : x.need THEN 1 ELSE 0)
         /\ (\E x \in us : x.need) => c.lib # ""
Succeeds(F, c) ==
  /\ ~Refused(c)
  /\ \A f \in Range(c.src) : Compiles(F, c, f)
  /\ c.mode = "link" => Links(F, c)
  /\ c.mode # "link" /\ c.o # "" => c.dir
Effect(F, c) ==
  [n \in DOMAIN F \cup Writes(c) \cup (IF c.mode = "link" THEN {Target(c)} ELSE {}) |->
     IF c.mode = "link" /\ n = Target(c) THEN [t |-> "exe", units |-> LinkUnits(F, c)]
     ELSE IF n \in Writes(c) THEN Written(F, c, n) ELSE F[n]]
(* a command that fails leaves no new executable; outputs of sources that compile may be there *)
Without(F, S) == [n \in DOMAIN F \ S |-> F[n]]
Good(F, c) == IF c.mode = "E" THEN Writes(c) ELSE {OutName(c, f) : f \in {g \in Range(c.src) : Compiles(F, c, g)}}
FailEffects(F, c) ==
  UNION {{[n \in DOMAIN F \cup S |-> IF n \in S THEN Written(F, c, n) ELSE F[n]],
          Without([n \in DOMAIN F \cup S |-> IF n \in S THEN Written(F, c, n) ELSE F[n]], IF c.mode = "link" THEN {Target(c)} ELSE {})}
         : S \in IF Refused(c) THEN {{}} ELSE SUBSET Good(F, c)}
(* texts shown by the preprocessor *)
Shown(F, c) == IF c.mode = "E" THEN {[u |-> F[Name(f)].u, text |-> c.text] : f \in Range(c.src)} ELSE {}

(* ------------------------------------------------ commands: they overlap only on disjoint files *)
Outs(c) == Writes(c) \cup (IF c.mode = "link" THEN {Target(c)} ELSE {})
Ins(c) == {Name(f) : f \in Range(c.src)} \cup Range(c.objs)
Apart(c, d) == Outs(c) \cap (Outs(d) \cup Ins(d)) = {} /\ Outs(d) \cap Ins(c) = {}
DInit == fs = <<>> /\ live = <<>> /\ saved = 0
File(n, x) == /\ DOMAIN live = {}
              /\ fs' = [m \in DOMAIN fs \cup {n} |-> IF m = n THEN x ELSE fs[m]]
              /\ UNCHANGED <<live, saved>>
Start(id, c) == /\ \A j \in DOMAIN live : (Apart(c, live[j]) = TRUE)
                /\ live' = [j \in DOMAIN live \cup {id} |-> IF j = id THEN c ELSE live[j]]
                /\ UNCHANGED <<fs, saved>>
Kept(F, c) == IF c.save /\ c.mode \in {"link", "c"} THEN 2 * Cardinality({f \in Range(c.src) : f.e \notin Assembly}) + 1 ELSE 0
End(id, ok, shown) ==
  LET c == live[id]
  IN  /\ ok = Succeeds(fs, c)
      /\ ok => shown = Shown(fs, c)
      /\ live' = [j \in DOMAIN live \ {id} |-> live[j]]
      /\ saved' = IF ok THEN saved + Kept(fs, c) ELSE IF c.save THEN saved ELSE saved
      /\ IF ok THEN fs' = Effect(fs, c) ELSE fs' \in FailEffects(fs, c)
(* the files seen when nothing runs: those of the state, and no others (but kept intermediate files) *)
Listing(names, extra, mayextra) ==
  /\ DOMAIN live = {}
  /\ names = DOMAIN fs
  /\ IF mayextra THEN extra >= saved ELSE extra = 0
  /\ saved' = 0
  /\ UNCHANGED <<fs, live>>
(* an executable runs its units: the text of each and the operations the backend was called for *)
Run(n, us) ==
  /\ n \in DOMAIN fs /\ fs[n].t = "exe"
  /\ us = {[u |-> x.u, text |-> x.text, inst |-> x.inst] : x \in fs[n].units}
  /\ UNCHANGED dvars
=============================================================================
