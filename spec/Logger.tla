------------------------------ MODULE Logger ------------------------------
(* The messages of one process.  set: [on, level, file, silent, color]; plan: what    *)
(* the configuration makes the runtime say at least: [loads: backends (each also   *)
(* says its configuration, class conf), infos: remarks during the run, warn,            *)
(* error: something is wrong, debug].                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rank == [debug |-> 0, info |-> 1, warning |-> 2, error |-> 3]
VARIABLES phase, set, plan,
          said    \* said[c]: number of messages of class c
lvars == <<phase, set, plan, said>>
Classes == {"load", "conf", "info", "debug", "warning", "error"}
LevelOf(c) == IF c \in {"load", "conf"} THEN "info" ELSE c

(* may a message of the class appear with these settings?                               *)
Permitted(s, c) ==
  \/ c = "error"
  \/ s.on /\ Rank[s.level] <= Rank[LevelOf(c)] /\ ~(c \in {"load", "conf"} /\ s.silent)
Where(s, c) == IF c \in {"load", "conf", "info", "debug"} /\ s.file THEN "file" ELSE "err"
(* errors show their header only if the logger is on                                    *)
Header(s, c) == s.on

LInit == phase = "out" /\ set = [on |-> TRUE, level |-> "info", file |-> FALSE, silent |-> FALSE, color |-> FALSE]
         /\ plan = [loads |-> 0, infos |-> 0, warn |-> FALSE, error |-> FALSE, debug |-> FALSE] /\ said = [c \in Classes |-> 0]
Start(s, p) == phase' = "run" /\ set' = s /\ plan' = p /\ said' = [c \in Classes |-> 0]
MsgOK(c, where, header, color) ==
  /\ phase = "run" /\ c \in Classes
  /\ Permitted(set, c)
  /\ where = Where(set, c)
  /\ header = Header(set, c)
  /\ (header => color = set.color)
  /\ (c = "error" => plan.error) /\ (c = "warning" => plan.warn)
Msg(c, where, header, color) == (MsgOK(c, where, header, color) = TRUE) /\ said' = [said EXCEPT ![c] = @ + 1] /\ UNCHANGED <<phase, set, plan>>
(* the end: everything the settings permit was said; an error, and nothing else, fails  *)
(* the program; its output is the same as ever                                           *)
EndOK(failed, same) ==
  /\ phase = "run"
  /\ failed = plan.error
  /\ (~failed => same)
  /\ (plan.error => said["error"] = 1)
  /\ (~plan.error =>
        /\ (Permitted(set, "load") => said["load"] = plan.loads)
        /\ (Permitted(set, "conf") => said["conf"] >= plan.loads)
        /\ (Permitted(set, "info") => said["info"] >= plan.infos)
        /\ (Permitted(set, "warning") => (said["warning"] > 0) = plan.warn)
        /\ (Permitted(set, "debug") /\ plan.debug => said["debug"] > 0))
End(failed, same) == (EndOK(failed, same) = TRUE) /\ phase' = "out" /\ UNCHANGED <<set, plan, said>>
=============================================================================
