------------------------------- MODULE CiMC -------------------------------
(* Every short test run: textbook tables are accepted at the end, and tables with    *)
(* one thing wrong are not.                                                          *)
EXTENDS Ci
CONSTANTS Vals, Fault
VARIABLE done
vars == <<cvars, done>>
Job(r) == [exe |-> "e", be |-> IF r = 0 THEN "v" ELSE "m", reps |-> r, par |-> ""]
Modes == {<<"none", 0>>, <<"absolute", 1>>, <<"absolute", 2>>, <<"relative", 8>>}
Init == CInit /\ done = FALSE
Choose == cfg = <<>> /\ \E r \in {0, 2, 3} : Begin(<<Job(r)>>) /\ UNCHANGED done
(* all the probes of a test run have the check of the first                           *)
Modes2 == LET S == {i \in 1..Len(dumps) : dumps[i].data}
          IN  IF S = {} THEN Modes ELSE LET p == dumps[CHOOSE i \in S : TRUE].probes[1] IN {<<p.mode, p.thr>>}
Exec == cfg # <<>> /\ pos <= Len(cfg) /\ UNCHANGED done
        /\ LET be == IF cfg[pos].reps = 0 /\ k = 1 THEN IEEE ELSE cfg[pos].be
           IN  \/ Run("e", be, "", <<>>)
               \/ \E x \in Vals, m \in Modes2 : Run("e", be, "", <<[t |-> 1, v |-> 1, x |-> x, mode |-> m[1], thr |-> m[2]]>>)
Finish == cfg # <<>> /\ pos > Len(cfg) /\ ~done /\ done' = TRUE /\ UNCHANGED cvars
Next == Choose \/ Exec \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Root(_, _)
Root(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE Root(x, r + 1)
(* textbook verdicts, by cases over the standard deviation in exact arithmetic         *)
Textbook(key) ==
  LET ps == Gather(key, 1, 1)
      s == [i \in 1..Len(ps) |-> ps[i].x]
      n == Len(s)
      T == ps[1].thr
      chk == CASE ps[1].mode = "none" -> TRUE
               [] ps[1].mode = "absolute" -> Var(s) < T * T * n * n
               [] OTHER -> IF Var(s) = 0 THEN T > 0 ELSE 256 * Var(s) < T * T * Sum(s) * Sum(s)
  IN  [key |-> key, n |-> n, check |-> IF Fault = "check" THEN ~chk ELSE chk, raw |-> TRUE,
       vals |-> IF Fault = "lost" THEN Tail(s) ELSE s,
       min |-> 4 * Ascending(s)[1], max |-> 4 * Ascending(s)[n] + (IF Fault = "max" THEN 1 ELSE 0),
       q1 |-> Quantile(s, 1), q2 |-> Quantile(s, 2), q3 |-> IF Fault = "quart" THEN Quantile(s, 3) + 1 ELSE Quantile(s, 3),
       mu |-> ((64 * Sum(s)) \div n) + (IF Fault = "mu" THEN 4 ELSE 0),
       \* the deviation of a sample instead of a population
       sigma |-> IF Fault = "sample" /\ n > 1 THEN Root((64 * Var(s)) \div (n * (n - 1)), 0) ELSE Root((64 * Var(s)) \div (n * n), 0)]
Rows == LET K == SampleKeys IN IF K = {} THEN <<>> ELSE <<Textbook(CHOOSE x \in K : TRUE)>>
Warn == [i \in 1..Len(Empty) |-> [exe |-> Empty[i].exe, be |-> IF Empty[i].kind = "ref" THEN IEEE ELSE Empty[i].be, ref |-> Empty[i].kind = "ref", rep |-> Empty[i].rep]]
DetRows == LET D == SelectSeq(dumps, LAMBDA d : d.kind = "det" /\ d.data) IN
  IF D = <<>> THEN <<>>
  ELSE LET p == D[1].probes[1]
           ref == RefOf(1, p)
           rv == IF ref = <<>> THEN 0 ELSE ref[1].x
           e == IF p.x >= rv THEN p.x - rv ELSE rv - p.x
           chk == CASE p.mode = "none" -> TRUE
                    [] ref = <<>> -> FALSE
                    [] p.mode = "absolute" -> e < p.thr
                    [] OTHER -> e = 0 \/ (16 * e) < (p.thr * (IF rv < 0 THEN -rv ELSE rv))
       IN  <<[key |-> <<1, 1, "v">>, check |-> IF Fault = "check" THEN ~chk ELSE chk, x |-> p.x, ref |-> rv]>>
Final == IF Fault = "warn" THEN done => EndOK(TRUE, Rows, DetRows, <<>>) ELSE done => EndOK(TRUE, Rows, DetRows, Warn)
=============================================================================
