-------------------------------- MODULE Vtk --------------------------------
(* The merge of the VTK outputs of several runs (vfc_vtk).  A run is a sequence of  *)
(* files, a file a sequence of arrays [at, name, type, attr, vals]: where it is      *)
(* (piece and section), its name, type and other attributes, its numbers as integers *)
(* in a unit of the array's own.  The merged output is the reference with an          *)
(* accuracy array for every floating-point array.                                     *)
EXTENDS Big, FiniteSets, TLC

VARIABLES runs,    \* sequence of runs
          ref,     \* <<>>: any of the runs is the reference; <<r>>: r is
          there,   \* did the output exist before?
          opt      \* [std, mean]
kvars == <<runs, ref, there, opt>>
KInit == runs = <<>> /\ ref = <<>> /\ there = FALSE /\ opt = [std |-> FALSE, mean |-> FALSE]
Setup(rs, r, t, o) == runs' = rs /\ ref' = r /\ there' = t /\ opt' = o

Float(a) == a.type \in {"Float32", "Float64"}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_), SumSq(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumSq(s) == IF s = <<>> THEN 0 ELSE (Head(s) * Head(s)) + SumSq(Tail(s))
(* n^2 times the variance                                                             *)
Var(s) == (Len(s) * SumSq(s)) - (Sum(s) * Sum(s))

(* mean in 64ths of the unit and deviation in 8ths, rounded                            *)
MeanOK(r, s) == Abs((Len(s) * r) - (64 * Sum(s))) <= Len(s)
StdOK(r, s) ==
  LET n == Len(s)  lo == IF r < 1 THEN 0 ELSE r - 1
      v == BMul(OfInt(64), OfInt(Var(s)))
  IN  BLeq(OfInt(lo * lo * n * n), v) /\ BLeq(v, OfInt((r + 1) * (r + 1) * n * n))
RECURSIVE BPower(_, _)
BPower(a, k) == IF k = 0 THEN BOne ELSE BMul(a, BPower(a, k - 1))
(* digits s = -log10(deviation / |mean|), cut to 0..17; r8 = 8 s rounded down:          *)
(* 10^r8 <= (Sum^2 / Var)^4 < 10^(r8 + 1)                                               *)
Digits(r, s) ==
  LET v == Var(s)  q == Sum(s) * Sum(s)
      v4 == TLCEval(BPower(OfInt(v), 4))  q4 == TLCEval(BPower(OfInt(q), 4))
  IN  IF r < 0 THEN FALSE
      ELSE IF v = 0 THEN IF q = 0 THEN r \in {0, 136} ELSE r >= 120 /\ r <= 136
      ELSE IF q <= v THEN r = 0
      ELSE /\ BLeq(BMul(BPower(<<10>>, r), v4), q4)
           /\ BLt(q4, BMul(BPower(<<10>>, r + 1), v4))
(* what floating-point numbers may round across an eighth: lo and hi are next to each other *)
DigitsOK(lo, hi, s) == lo <= hi /\ hi <= lo + 1 /\ (Digits(lo, s) \/ Digits(hi, s))

(* the samples of element j of the array a in file f                                    *)
Same(a, b) == a.at = b.at /\ a.name = b.name /\ a.type = b.type
ArrayIn(fs, f, a) == LET x == fs[f] IN x[CHOOSE k \in 1..Len(x) : Same(x[k], a)]
Samples(f, a, j) == [r \in 1..Len(runs) |-> ArrayIn(runs[r], f, a).vals[j]]

(* out: as a file, but numbers are records [v, exact, m64, s8, lo, hi]: the number in units, *)
(* and rounded in the other ways                                                          *)
Section(a) == IF a.at.sec = "Points" THEN [a.at EXCEPT !.sec = "PointData"] ELSE a.at
IsOriginal(o, f, a) ==
  /\ Same(o, a) /\ o.attr = a.attr /\ Len(o.vals) = Len(a.vals)
  /\ \A j \in 1..Len(a.vals) :
       IF opt.mean /\ Float(a) THEN MeanOK(o.vals[j].m64, Samples(f, a, j))
       ELSE o.vals[j].exact /\ o.vals[j].v = a.vals[j]
IsAccuracy(o, f, a) ==
  /\ o.at = Section(a) /\ o.of = a.name /\ o.type = a.type /\ o.attr = a.attr
  /\ Len(o.vals) = Len(a.vals)
  /\ \A j \in 1..Len(a.vals) :
       LET s == TLCEval(Samples(f, a, j)) IN
       IF opt.std THEN StdOK(o.vals[j].s8, s) ELSE DigitsOK(o.vals[j].lo, o.vals[j].hi, s)
FileOK(out, f, base) ==
  LET x == base[f]
      orig == {k \in 1..Len(out) : out[k].of = ""}
      acc == {k \in 1..Len(out) : out[k].of # ""}
  IN  /\ Cardinality(orig) = Len(x)
      /\ Cardinality(acc) = Cardinality({k \in 1..Len(x) : Float(x[k])})
      /\ \A k \in 1..Len(x) : /\ \E m \in orig : IsOriginal(out[m], f, x[k])
                              /\ (Float(x[k]) => \E m \in acc : IsAccuracy(out[m], f, x[k]))
Merged(outs, base) == Len(outs) = Len(base) /\ \A f \in 1..Len(base) : FileOK(outs[f], f, base)

(* res: status 0 and the output; or refused                                               *)
(* rest: are all other files and nodes those of the reference?  which: sequence of the numbers of the *)
(* runs (0: the given reference) they can be those of                                      *)
Refused == there \/ runs = <<>>
MergeOK(res) ==
  /\ res.inputs                               \* the runs are as before
  /\ IF Refused THEN res.status \in 1..126 /\ ~res.touched
     ELSE /\ res.status = 0
          /\ IF ref # <<>> THEN 0 \in {res.which[i] : i \in 1..Len(res.which)} /\ Merged(res.outs, ref[1])
             ELSE \E d \in {res.which[i] : i \in 1..Len(res.which)} \ {0} : Merged(res.outs, runs[d])
Merge(res) == (MergeOK(res) = TRUE) /\ UNCHANGED kvars
=============================================================================
