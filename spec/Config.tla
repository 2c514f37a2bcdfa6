------------------------------ MODULE Config -------------------------------
(* From the environment to running backends: where the configuration comes     *)
(* from, how it is split, when the program may start, initialisation and        *)
(* finalisation order, exit status.  Text is a sequence of characters.          *)
EXTENDS Naturals, Sequences, FiniteSets

MaxBackends == 16
MaxWords == 256

(* maximal runs without the separator *)
RECURSIVE SplitAt(_, _, _)
SplitAt(cs, sep, cur) ==
  IF cs = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF Head(cs) = sep THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o SplitAt(Tail(cs), sep, <<>>)
  ELSE SplitAt(Tail(cs), sep, Append(cur, Head(cs)))
(* the same by positions, for long texts *)
Seps(cs, sep) == {i \in 1..Len(cs) : cs[i] = sep}
Split(cs, sep) ==
  LET n == Len(cs)
      starts == {i \in 1..n : cs[i] # sep /\ (i = 1 \/ cs[i - 1] = sep)}
      RECURSIVE Run(_, _)
      Run(i, k) == IF k = n \/ cs[k + 1] = sep THEN SubSeq(cs, i, k) ELSE Run(i, k + 1)
      RECURSIVE From(_)
      From(i) == IF i > n THEN <<>>
                 ELSE IF i \in starts THEN LET w == Run(i, i) IN <<w>> \o From(i + Len(w) + 1)
                 ELSE From(i + 1)
  IN  From(1)

(* conf: env: text or Unset; file: Unset, or [ok, text of its first line]        *)
Unset == [set |-> FALSE, cs |-> <<>>]
HasSource(conf) == conf.env.set \/ (conf.file.set /\ conf.file.ok)
Source(conf) == IF conf.env.set THEN conf.env.cs ELSE conf.file.cs
Wanted(conf) == IF HasSource(conf)
  THEN LET bs == Split(Source(conf), ";") IN [i \in 1..Len(bs) |-> Split(bs[i], " ")] ELSE <<>>

(* conf.libs: for each backend wanted: does it load, does it accept its options, *)
(* which operations it implements; conf.req: the operations the program needs    *)
Loadable(conf, i) == conf.libs[i].loads
Accepts(conf, i) == conf.libs[i].accepts
Impl(conf, i) == conf.libs[i].impl
Good(conf, w) ==
  /\ Len(w) >= 1 /\ Len(w) <= MaxBackends
  /\ \A i \in 1..Len(w) : Len(w[i]) \in 1..MaxWords /\ Loadable(conf, i) /\ Accepts(conf, i)
  /\ conf.req \subseteq UNION {Impl(conf, i) : i \in 1..Len(w)}

VARIABLES conf, want, good, ph, n, nfin
fvars == <<conf, want, good, ph, n, nfin>>
NoConf == [env |-> Unset, file |-> [set |-> FALSE, ok |-> FALSE, cs |-> <<>>], libs |-> <<>>, req |-> {}]
ConfInit == conf = NoConf /\ want = <<>> /\ good = FALSE /\ ph = "off" /\ n = 0 /\ nfin = 0

Start(c) ==
  /\ ph = "off"
  /\ conf' = c /\ want' = Wanted(c) /\ good' = Good(c, Wanted(c)) /\ ph' = "load" /\ n' = 0 /\ nfin' = 0
(* the next backend is given its own words, and nothing else *)
Cli(argv) ==
  /\ ph = "load" /\ n < Len(want) /\ argv = want[n + 1]
  /\ ph' = "cli" /\ UNCHANGED <<conf, want, good, n, nfin>>
InitB(i) ==
  /\ ph = "cli" /\ i = n + 1 /\ Accepts(conf, i)
  /\ ph' = "load" /\ n' = n + 1 /\ UNCHANGED <<conf, want, good, nfin>>
(* the program's own code starts only when everything wanted is in place *)
Main ==
  /\ ph = "load" /\ good /\ n = Len(want)
  /\ ph' = "main" /\ UNCHANGED <<conf, want, good, n, nfin>>
(* its view of the environment is the one it was started with *)
SeesEnv(cs) == ph = "main" /\ cs = conf.env /\ UNCHANGED fvars
Finals(c, m) == {i \in 1..m : "fin" \in Impl(c, i)}
Fin(i) ==
  /\ ph \in {"main", "fin"} /\ i > nfin /\ i \in Finals(conf, n) /\ \A j \in Finals(conf, n) : j > nfin => j >= i
  /\ ph' = "fin" /\ nfin' = i /\ UNCHANGED <<conf, want, good, n>>
(* normal end: everyone finalised, the program's status kept *)
ExitOk(code, own) ==
  /\ ph \in {"main", "fin"} /\ \A j \in Finals(conf, n) : j <= nfin
  /\ code = own /\ ph' = "off" /\ UNCHANGED <<conf, want, good, n, nfin>>
(* refusal: a failing status, and the program never started *)
ExitErr(code) ==
  /\ ph \in {"load", "cli"} /\ ~good /\ code # 0
  /\ ph' = "off" /\ UNCHANGED <<conf, want, good, n, nfin>>
(* a refused run may still finalise backends it had initialised *)
FinErr(i) == ph \in {"load", "cli"} /\ ~good /\ i <= n /\ UNCHANGED fvars
=============================================================================
