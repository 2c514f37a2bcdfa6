----------------------------- MODULE DriverMC -----------------------------
(* The driver's stages (front end, pass, code generation, link) on intermediate files, for  *)
(* several commands interleaved in every way, against the atomic effects of Driver: with    *)
(* Fault = "none" each command has exactly its effect and no intermediate file remains.     *)
EXTENDS Driver, TLC
CONSTANTS NCmd, Fault
VARIABLES real,   (* the files as the stages write them *)
          tmp,    (* intermediate files: name -> content *)
          st,     (* stage of each command *)
          want,   (* the file systems the finished commands may leave *)
          res     (* outcomes: id -> BOOLEAN, as reported and as specified *)
mvars == <<dvars, real, tmp, st, want, res>>
Ids == 1..NCmd
S(b, rb) == [b |-> b, e |-> ".c", rb |-> rb]
XA == S("a/x", "x")  XB == S("b/x", "x")  M == S("m", "m")  W == S("w", "w")  Z == S("z", "z")
Content(u, main, bad) == [t |-> "src", lang |-> "c", bad |-> bad, u |-> u, main |-> main, need |-> FALSE, text |-> "-"]
Old == [t |-> "obj", units |-> {[u |-> 4, main |-> FALSE, need |-> FALSE, text |-> "old", inst |-> {}]}]
F0 == [n \in {"a/x.c", "b/x.c", "m.c", "w.c", "w.o"} |->
        CASE n = "a/x.c" -> Content(1, FALSE, FALSE) [] n = "b/x.c" -> Content(2, FALSE, FALSE)
          [] n = "m.c" -> Content(3, TRUE, FALSE) [] n = "w.c" -> Content(4, FALSE, TRUE) [] n = "w.o" -> Old]
C(mode, src, objs, o, text) == [mode |-> mode, src |-> src, objs |-> objs, o |-> o, text |-> text, lib |-> "", dir |-> TRUE, fun |-> FALSE,
                                lists |-> FALSE, readable |-> TRUE, kinds |-> <<>>, save |-> FALSE, sel |-> [how |-> "all", us |-> <<>>]]
Cmds == {C("c", <<XA>>, <<>>, "", "t1"), C("c", <<XB>>, <<>>, "", "t2"), C("c", <<XB>>, <<>>, "y.o", "t3"), C("c", <<XA, XB>>, <<>>, "", "t4"),
         C("link", <<M, XA, XB>>, <<>>, "p", "t5"), C("link", <<M, W>>, <<>>, "", "t6"), C("link", <<M>>, <<>>, "q", "t7"), C("link", <<XA>>, <<>>, "", "t8"),
         C("c", <<XA, XB>>, <<>>, "y.o", "t9"), C("c", <<Z>>, <<>>, "", "t0"), C("link", <<XA>>, <<"m.o">>, "r", "tx")}
TName(id, f, k) == IF Fault = "fixed" THEN <<0, f.rb, k>> ELSE <<id, f.b, k>>
ObjName(f) == IF Fault = "flat" THEN f.rb \o ".o" ELSE Obj(f)
OutOf(c, f) == IF c.mode # "link" /\ c.o # "" THEN c.o ELSE ObjName(f)
Upd(F, n, x) == [m \in DOMAIN F \cup {n} |-> IF m = n THEN x ELSE F[m]]

Init == /\ fs = F0 /\ saved = 0 /\ real = F0 /\ tmp = <<>> /\ want = {F0} /\ res = <<>>
        /\ live = <<>> /\ st = [i \in Ids |-> [s |-> "idle", k |-> 1]]
Begin(i) == /\ st[i].s = "idle"
            /\ \E c \in Cmds : /\ \A j \in DOMAIN live : (Apart(c, live[j]) = TRUE)
                               /\ live' = Upd(live, i, c)
                               /\ st' = [st EXCEPT ![i].s = IF Refused(c) THEN "fail" ELSE "ir"]
            /\ UNCHANGED <<fs, saved, real, tmp, want, res>>
Cur(i) == live[i].src[st[i].k]
Ir(i) == /\ st[i].s = "ir"
         /\ LET f == Cur(i) IN
            IF Compiles(real, live[i], f)
            THEN /\ tmp' = Upd(tmp, TName(i, f, 1), Unit(real[Name(f)], live[i]))
                 /\ st' = [st EXCEPT ![i].s = "opt"]
            ELSE /\ tmp' = IF Fault = "leak" THEN Upd(tmp, TName(i, f, 1), "junk") ELSE tmp
                 /\ st' = [st EXCEPT ![i].s = IF Fault = "status" THEN "next" ELSE "fail"]
         /\ UNCHANGED <<dvars, real, want, res>>
Opt(i) == /\ st[i].s = "opt"
          /\ LET f == Cur(i) IN
             IF TName(i, f, 1) \in DOMAIN tmp
             THEN tmp' = Upd(tmp, TName(i, f, 2), tmp[TName(i, f, 1)]) /\ st' = [st EXCEPT ![i].s = "gen"]
             ELSE st' = [st EXCEPT ![i].s = "fail"] /\ UNCHANGED tmp
          /\ UNCHANGED <<dvars, real, want, res>>
Gen(i) == /\ st[i].s = "gen"
          /\ LET f == Cur(i) IN
             IF TName(i, f, 2) \in DOMAIN tmp
             THEN real' = Upd(real, OutOf(live[i], f), [t |-> "obj", units |-> {tmp[TName(i, f, 2)]}]) /\ st' = [st EXCEPT ![i].s = "next"]
             ELSE st' = [st EXCEPT ![i].s = "fail"] /\ UNCHANGED real
          /\ UNCHANGED <<dvars, tmp, want, res>>
Adv(i) == /\ st[i].s = "next"
          /\ st' = [st EXCEPT ![i] = IF st[i].k < Len(live[i].src) THEN [s |-> "ir", k |-> st[i].k + 1]
                                     ELSE [s |-> IF live[i].mode = "link" THEN "link" ELSE "ok", k |-> 1]]
          /\ UNCHANGED <<dvars, real, tmp, want, res>>
Link(i) == /\ st[i].s = "link"
           /\ LET c == live[i]
                  ns == {ObjName(f) : f \in Range(c.src)} \cup Range(c.objs)
                  all == ns \subseteq DOMAIN real
                  us == IF all THEN UNION {real[n].units : n \in ns} ELSE {}
              IN  IF all /\ Cardinality({x \in us : x.main}) = 1 /\ Cardinality({x.u : x \in us}) = Len(c.src) + Len(c.objs)
                  THEN real' = Upd(real, Target(c), [t |-> "exe", units |-> us]) /\ st' = [st EXCEPT ![i].s = "ok"]
                  ELSE st' = [st EXCEPT ![i].s = "fail"] /\ UNCHANGED real
           /\ UNCHANGED <<dvars, tmp, want, res>>
Mine(i, t) == IF Fault = "fixed" THEN \E f \in Range(live[i].src) : t[2] = f.rb ELSE t[1] = i
Finish(i) == /\ st[i].s \in {"ok", "fail"}
             /\ st' = [st EXCEPT ![i].s = "done"]
             /\ tmp' = IF Fault = "leak" /\ st[i].s = "fail" THEN tmp ELSE [t \in {x \in DOMAIN tmp : ~Mine(i, x)} |-> tmp[t]]
             /\ want' = UNION {IF Succeeds(F, live[i]) THEN {Effect(F, live[i])} ELSE FailEffects(F, live[i]) : F \in want}
             /\ res' = Upd(res, i, <<st[i].s = "ok", {Succeeds(F, live[i]) : F \in want}>>)
             /\ live' = [j \in DOMAIN live \ {i} |-> live[j]]
             /\ UNCHANGED <<fs, saved, real>>
Next == \E i \in Ids : Begin(i) \/ Ir(i) \/ Opt(i) \/ Gen(i) \/ Adv(i) \/ Link(i) \/ Finish(i)
Spec == Init /\ [][Next]_mvars
Quiet == DOMAIN live = {}
EffectOK == Quiet => real \in want
StatusOK == \A i \in DOMAIN res : res[i][1] \in res[i][2]
NoLeft == Quiet => DOMAIN tmp = {}
=============================================================================
