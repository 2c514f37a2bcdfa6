-------------------------------- MODULE Ci --------------------------------
(* A test run of vfc_ci as its user sees it: executables are run with the backends  *)
(* and repetitions of the configuration, each run dumps probes or nothing, and at    *)
(* the end there are tables.                                                         *)
(* Names are numbers; the values of a probe are integers in a unit of its own        *)
(* (Special stands for infinities and NaNs).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IEEE == "libinterflop_ieee.so"
Special == 99999
VARIABLES cfg,    \* sequence of [exe, be, reps], reps = 0: deterministic
          pos, k, \* job, runs of it so far
          dumps   \* sequence of [exe, be, rep, kind: "sample" | "det" | "ref", data: has it any?, probes]
cvars == <<cfg, pos, k, dumps>>

Checked(ps) == \E i \in 1..Len(ps) : ps[i].mode # "none"
CInit == cfg = <<>> /\ pos = 1 /\ k = 0 /\ dumps = <<>>
Begin(c) == cfg' = c /\ pos' = 1 /\ k' = 0 /\ dumps' = <<>>

(* one run; probes = <<>> if it dumped nothing                                        *)
RunOK(exe, be, par) ==
  /\ pos <= Len(cfg)
  /\ exe = cfg[pos].exe /\ par = cfg[pos].par
  /\ be = (IF cfg[pos].reps = 0 /\ k = 1 THEN IEEE ELSE cfg[pos].be)
Run(exe, be, par, ps) ==
  /\ (RunOK(exe, be, par) = TRUE)
  /\ LET j == cfg[pos]
         more == IF j.reps > 0 THEN k + 1 < j.reps ELSE k = 0 /\ Checked(ps)
         kind == IF j.reps > 0 THEN "sample" ELSE IF k = 0 THEN "det" ELSE "ref"
     IN  /\ dumps' = Append(dumps, [exe |-> exe, be |-> j.be, rep |-> IF j.reps > 0 THEN k + 1 ELSE 1, kind |-> kind, data |-> Len(ps) > 0, probes |-> ps])
         /\ pos' = IF more THEN pos ELSE pos + 1
         /\ k' = IF more THEN k + 1 ELSE 0
  /\ UNCHANGED cfg

---------------------------------------------------------------------------
(* What the tables have to contain.                                                   *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_), SumSq(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumSq(s) == IF s = <<>> THEN 0 ELSE (Head(s) * Head(s)) + SumSq(Tail(s))
Ascending(s) == SortSeq(s, <)
(* n^2 times the variance                                                             *)
Var(s) == (Len(s) * SumSq(s)) - (Sum(s) * Sum(s))
(* four times the quantile q/4 (linear between the two neighbours)                    *)
Quantile(s, q) == LET t == Ascending(s)
                      p == q * (Len(s) - 1)
                      i == (p \div 4) + 1
                      r == p % 4
                  IN  IF r = 0 THEN 4 * t[i] ELSE ((4 - r) * t[i]) + (r * t[i + 1])

Key(d, p) == <<p.t, p.v, d.be>>
RECURSIVE Gather(_, _, _)
(* the probes with that key of the samples of dumps[i..]                              *)
Gather(key, i, j) ==
  IF i > Len(dumps) THEN <<>>
  ELSE IF dumps[i].kind # "sample" \/ j > Len(dumps[i].probes) THEN Gather(key, i + 1, 1)
  ELSE (IF Key(dumps[i], dumps[i].probes[j]) = key THEN <<dumps[i].probes[j]>> ELSE <<>>) \o Gather(key, i, j + 1)
SampleKeys == UNION {{Key(dumps[i], dumps[i].probes[j]) : j \in 1..Len(dumps[i].probes)} : i \in {m \in 1..Len(dumps) : dumps[m].kind = "sample"}}

(* is the verdict of a check right?  (what floating-point division or square root may round across is left open) *)
SampleVerdict(p, s, verdict) ==
  LET n == Len(s)  T == Abs(p.thr) IN
  IF p.mode = "none" THEN verdict
  ELSE IF \E i \in 1..n : s[i] = Special THEN ~verdict
  ELSE IF p.mode = "absolute"
       THEN \/ Var(s) = T * T * n * n /\ Var(s) > 0
            \/ verdict = (Var(s) < T * T * n * n)
       ELSE \* threshold in 16ths
            IF Var(s) = 0 THEN (Sum(s) = 0 \/ verdict = (T > 0))   \* 0/0 is left open
            ELSE \/ 256 * Var(s) = T * T * Sum(s) * Sum(s) /\ Sum(s) # 0
                 \/ verdict = (256 * Var(s) < T * T * Sum(s) * Sum(s))
(* mu in 64ths and sigma in 8ths of the unit, rounded                                  *)
Near(r, s) ==
  LET n == Len(s) IN
  /\ Abs((n * r.mu) - (64 * Sum(s))) <= n
  /\ LET lo == IF r.sigma < 1 THEN 0 ELSE r.sigma - 1
     IN  lo * lo * n * n <= 64 * Var(s) /\ 64 * Var(s) <= (r.sigma + 1) * (r.sigma + 1) * n * n
SampleRow(r, ps) ==
  LET s == TLCEval([i \in 1..Len(ps) |-> ps[i].x]) IN
  /\ r.n = Len(s)
  /\ SampleVerdict(ps[1], s, r.check)
  /\ (r.raw => Ascending(r.vals) = Ascending(s))
  /\ \/ \E i \in 1..Len(s) : s[i] = Special
     \/ /\ r.min = 4 * Ascending(s)[1] /\ r.max = 4 * Ascending(s)[Len(s)]
        /\ r.q1 = Quantile(s, 1) /\ r.q2 = Quantile(s, 2) /\ r.q3 = Quantile(s, 3)
        /\ Near(r, s)
SamplesOK(rows) ==
  /\ Len(rows) = Cardinality(SampleKeys)
  /\ \A key \in SampleKeys : \E i \in 1..Len(rows) : rows[i].key = key /\ SampleRow(rows[i], Gather(key, 1, 1))

(* deterministic: the reference run, if any, is the next dump                           *)
RefOf(i, p) == IF i = Len(dumps) \/ dumps[i + 1].kind # "ref" THEN <<>>
               ELSE SelectSeq(dumps[i + 1].probes, LAMBDA q : q.t = p.t /\ q.v = p.v)
DetVerdict(p, ref) ==
  IF p.mode = "none" THEN TRUE
  ELSE IF ref = <<>> \/ p.x = Special THEN FALSE
  ELSE IF ref[1].x = Special THEN FALSE
  ELSE IF p.mode = "absolute" THEN Abs(p.x - ref[1].x) < Abs(p.thr)
  ELSE IF p.x = ref[1].x THEN p.thr # 0
  ELSE 16 * Abs(p.x - ref[1].x) < Abs(p.thr) * Abs(ref[1].x)
DetRow(r, i, p) ==
  LET ref == RefOf(i, p) IN
  /\ r.key = Key(dumps[i], p) /\ r.x = p.x
  /\ r.check = DetVerdict(p, ref)
  /\ (p.mode # "none" /\ ref # <<>> => r.ref = ref[1].x)
Dets == {m \in 1..Len(dumps) : dumps[m].kind = "det"}
RECURSIVE Count(_)
Count(i) == IF i = 0 THEN 0 ELSE Count(i - 1) + (IF dumps[i].kind = "det" THEN Len(dumps[i].probes) ELSE 0)
DetsOK(rows) ==
  /\ Len(rows) = Count(Len(dumps))
  /\ \A i \in Dets : \A j \in 1..Len(dumps[i].probes) : \E m \in 1..Len(rows) : DetRow(rows[m], i, dumps[i].probes[j])

Empty == SelectSeq(dumps, LAMBDA d : ~d.data)
WarningsOK(ws) ==
  /\ Len(ws) = Len(Empty)
  /\ \A i \in 1..Len(ws) : ws[i] = [exe |-> Empty[i].exe, be |-> Empty[i].be, ref |-> Empty[i].kind = "ref", rep |-> Empty[i].rep]
                        \/ (Empty[i].kind = "ref" /\ ws[i].ref /\ ws[i].exe = Empty[i].exe /\ ws[i].be = IEEE)

EndOK(ok, rows, dets, ws) == /\ pos = Len(cfg) + 1 /\ ok
                             /\ SamplesOK(rows) /\ DetsOK(dets) /\ WarningsOK(ws)
End(ok, rows, dets, ws) == (EndOK(ok, rows, dets, ws) = TRUE) /\ UNCHANGED cvars
=============================================================================
