----------------------------- MODULE LoggerMC -----------------------------
(* The logger of the runtime and one backend, as written: settings are read once,    *)
(* each message is filtered by its own function.  Every setting, every sequence of    *)
(* calls of the program must be a behaviour of Logger.                                *)
EXTENDS Logger
CONSTANT Fault
VARIABLES pc, todo, out   \* messages still to come; last message shown
vars == <<lvars, pc, todo, out>>
Settings == [on : BOOLEAN, level : {"debug", "info", "warning", "error"}, file : BOOLEAN, silent : BOOLEAN, color : BOOLEAN]
Plans == [loads : {1}, infos : {1}, warn : BOOLEAN, error : BOOLEAN, debug : BOOLEAN]
Calls(p) == <<"load", "conf", "info">> \o (IF p.warn THEN <<"warning">> ELSE <<>>) \o (IF p.debug THEN <<"debug">> ELSE <<>>) \o (IF p.error THEN <<"error">> ELSE <<>>)
Quiet == [c |-> "none", where |-> "err", header |-> FALSE, color |-> FALSE]
Init == LInit /\ pc = "start" /\ todo = <<>> /\ out = Quiet
Begin == pc = "start" /\ \E s \in Settings, p \in Plans : Start(s, p) /\ todo' = Calls(p) /\ pc' = "go" /\ out' = Quiet
(* what the code shows for a call                                                        *)
Shown(c) ==
  LET on == set.on /\ Rank[set.level] <= Rank[LevelOf(c)] /\ (c \in {"load", "conf"} => (~set.silent \/ Fault = "loud"))
      dest == IF c \in {"load", "conf", "info", "debug"} /\ set.file /\ Fault # "nofile" THEN "file" ELSE "err"
      shows == IF c = "error" \/ (c = "warning" /\ Fault = "warnbody") THEN TRUE ELSE on
  IN  IF ~shows THEN Quiet ELSE [c |-> c, where |-> dest, header |-> set.on /\ Rank[set.level] <= Rank[LevelOf(c)], color |-> set.color]
Call == pc = "go" /\ todo # <<>> /\ todo' = Tail(todo) /\ pc' = "go" /\ out' = Shown(Head(todo))
        /\ IF Shown(Head(todo)) = Quiet THEN UNCHANGED lvars
           ELSE said' = [said EXCEPT ![Head(todo)] = @ + 1] /\ UNCHANGED <<phase, set, plan>>
Stop == pc = "go" /\ todo = <<>> /\ pc' = "end" /\ UNCHANGED <<lvars, todo>> /\ out' = Quiet
Next == Begin \/ Call \/ Stop
Spec == Init /\ [][Next]_vars
Good == /\ (out # Quiet => MsgOK(out.c, out.where, out.header, out.color))
        /\ (pc = "end" => EndOK(plan.error, TRUE))
=============================================================================
