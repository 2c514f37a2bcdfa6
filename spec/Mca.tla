--------------------------------- MODULE Mca ---------------------------------
(* Monte Carlo arithmetic.  The noise is not determined, only the interval it   *)
(* may come from: every operation yields an interval of possible results, and   *)
(* all rounding steps being monotone the interval is exact.                     *)
EXTENDS FP, TLC, FiniteSets

VARIABLES cfg   \* [engine, mode, prec, err, exp, daz, ftz]
mvars == <<cfg>>

(* operations are carried out in a wider type                                    *)
Wide(t) == IF t = "f" THEN Format(52, 11) ELSE Format(112, 15)
RW(x, t) == RoundTo(x, Wide(t))
Pow2(s, e) == [k |-> "n", s |-> s, e |-> e, m |-> BOne]
Leq(x, y) == CmpNum(x, y) <= 0
MinV(x, y) == IF Leq(x, y) THEN x ELSE y
MaxV(x, y) == IF Leq(x, y) THEN y ELSE x
Point(x) == [lo |-> x, hi |-> x]
Rel == cfg.err \in {"rel", "all"} \/ cfg.engine = "int"
AbsN == cfg.err \in {"abs", "all"} /\ cfg.engine = "quad"

(* ---- noise ---------------------------------------------------------------------- *)
(* is a value of n significant digits?                                               *)
Representable(x, n) == x.k # "n" \/ LET c == Canon(x) IN Top(c) - c.e < n
(* largest value x of magnitude away from zero can become; x finite and not zero     *)
OutRel(x, n) ==
  LET h == Pow2(x.s, Top(x) - n)
      y == Add(x, h)
      b == Pow2(x.s, Top(x) + 1)
  IN  IF cfg.engine = "quad" \/ Top(y) = Top(x) THEN y
      ELSE LET d == Add(y, Neg(b))      \* the integer engine counts units of the next binade
           IN  IF d.k = "z" THEN y ELSE Add(b, [d EXCEPT !.e = @ + 1])
InRel(x, n) ==
  LET h == Pow2(1 - x.s, Top(x) - n)
      y == Add(x, h)
      b == Pow2(x.s, Top(x))
  IN  IF cfg.engine = "quad" \/ y.k = "z" \/ Top(y) = Top(x) THEN y
      ELSE LET d == Add(y, Neg(b)) IN Add(b, [d EXCEPT !.e = @ - 1])
(* bounds of what the values of an interval become under relative noise of n digits  *)
HiRel(v, n, t) ==
  IF v.hi.k # "n" THEN v.hi
  ELSE IF v.hi.s = 0 THEN RW(OutRel(v.hi, n), t)
  ELSE LET y == RW(InRel(v.hi, n), t)
           b == Pow2(1, Top(v.hi) + 1)
       IN  IF Leq(v.lo, b) THEN MaxV(y, RW(InRel(b, n), t)) ELSE y
Mirror(v) == [lo |-> Neg(v.hi), hi |-> Neg(v.lo)]
RelIv(v, n, t) == IF ~Rel THEN v ELSE [lo |-> Neg(HiRel(Mirror(v), n, t)), hi |-> HiRel(v, n, t)]
AbsIv(v, t) == IF ~AbsN THEN v ELSE [lo |-> RW(Add(v.lo, Pow2(1, cfg.exp - 1)), t), hi |-> RW(Add(v.hi, Pow2(0, cfg.exp - 1)), t)]
NoiseIv(v, n, t) ==
  IF cfg.mode = "ieee" THEN v
  ELSE IF v.lo = v.hi /\ (v.lo.k # "n" \/ (cfg.mode = "rr" /\ Representable(v.lo, n))) THEN v
  ELSE AbsIv(RelIv(v, n, t), t)

(* ---- operations on intervals ------------------------------------------------------ *)
Span(S) == LET a == CHOOSE x \in S : TRUE
           IN  [lo |-> CHOOSE x \in S : \A y \in S : Leq(x, y), hi |-> CHOOSE x \in S : \A y \in S : Leq(y, x)]
Ends(v) == {v.lo, v.hi}
Products(v, w) == {Mul(x, y) : x \in Ends(v), y \in Ends(w)}
OpIv(op, t, v, w, u) ==
  LET S == CASE op = "add" -> {RW(Add(v.lo, w.lo), t), RW(Add(v.hi, w.hi), t)}
             [] op = "sub" -> {RW(Sub(v.lo, w.hi), t), RW(Sub(v.hi, w.lo), t)}
             [] op = "mul" -> {RW(x, t) : x \in Products(v, w)}
             [] op = "div" -> {RW(QuoN(x, y, 120), t) : x \in Ends(v), y \in Ends(w)}
             [] op = "fma" -> {RW(Add(x, z), t) : x \in Products(v, w), z \in Ends(u)}
             [] op = "cast" -> {RoundTo(x, Binary32) : x \in Ends(v)}
  IN  Span(S)
InN(v, t) == IF cfg.mode \in {"pb", "mca"} THEN NoiseIv(v, cfg.prec[t], t) ELSE v
OutN(v, t) == IF cfg.mode \in {"rr", "mca"} THEN NoiseIv(v, cfg.prec[t], t) ELSE v
Narrow(op, t, x) == IF op = "cast" THEN RoundTo(RoundTo(x, Binary64), Binary32) ELSE RoundTo(x, Fmt(t))
Result(op, t) == IF op = "cast" THEN Binary32 ELSE Fmt(t)

(* ---- one operation ------------------------------------------------------------------ *)
Special(x) == x.k \in {"i", "q"}
Straddles(v) == v.lo # v.hi /\ Leq(v.lo, Zero(0)) /\ Leq(Zero(0), v.hi)
Within(r, v) == r.k # "q" /\ Leq(v.lo, r) /\ Leq(r, v.hi)
Subn(v, f) == ~(v.hi.k = "n" /\ v.hi.s = 1 /\ Top(v.hi) >= f.emin) /\ ~(v.lo.k = "n" /\ v.lo.s = 0 /\ Top(v.lo) >= f.emin)
                /\ v.lo # Inf(0) /\ v.hi # Inf(1)
(* the interval may hold a subnormal or zero                                             *)
Fits(op, t, a, b, c, r) ==
  LET f == Result(op, t)
      plain == Narrow(op, t, CASE op = "add" -> RW(Add(a, b), t) [] op = "sub" -> RW(Sub(a, b), t) [] op = "mul" -> RW(Mul(a, b), t)
                               [] op = "div" -> RW(QuoN(a, b, 120), t) [] op = "fma" -> RW(Fma(a, b, c), t) [] op = "cast" -> RoundTo(a, Binary32))
      fl(x) == cfg.ftz /\ IsSubnormal(x, f)
  IN  IF Special(a) \/ (op # "cast" /\ Special(b)) \/ (op = "fma" /\ Special(c)) \/ plain.k = "q"
      THEN (AbsN /\ cfg.mode \in {"pb", "mca"} /\ (a.k = "n" \/ (op # "cast" /\ b.k = "n") \/ (op = "fma" /\ c.k = "n"))) \/ Same(r, plain)
      ELSE LET v == InN(Point(a), t)
               w == IF op = "cast" THEN Point(Zero(0)) ELSE InN(Point(b), t)
               u == IF op = "fma" THEN InN(Point(c), t) ELSE Point(Zero(0))
           IN  IF op = "div" /\ (Straddles(w) \/ (w.lo.k = "z" /\ Straddles(v))) THEN TRUE
               ELSE LET z0 == OpIv(op, t, v, w, u)
                        z == OutN(z0, t)
                        y == [lo |-> Narrow(op, t, z.lo), hi |-> Narrow(op, t, z.hi)]
                    IN  IF v.lo = v.hi /\ w.lo = w.hi /\ u.lo = u.hi /\ z.lo = z.hi /\ z.lo.k # "q"
                        THEN (IF fl(y.lo) THEN r.k = "z" ELSE Same(r, y.lo))
                        ELSE /\ ~fl(r)
                             /\ Within(r, y) \/ (cfg.ftz /\ r.k = "z" /\ Subn(y, f))
(* denormals-are-zero: the sign of the zero is not specified                              *)
Zap(x, t) == IF cfg.daz /\ IsSubnormal(x, Fmt(t)) THEN {Zero(0), Zero(x.s)} ELSE {x}
OpOK(op, t, a, b, c, r) ==
  LET ti == IF op = "cast" THEN "d" ELSE t
  IN  \E x \in Zap(a, ti), y \in Zap(b, ti), z \in Zap(c, ti) : Fits(op, ti, x, y, z, r)
(* explicit noise asked for by the program, n digits (relative to the precision if n <= 0); quad engine *)
InexactOK(t, a, n, r) ==
  LET k == IF n <= 0 THEN cfg.prec[t] + n ELSE n
  IN  IF cfg.mode = "ieee" \/ a.k # "n" THEN Same(r, a)
      ELSE LET v == [lo |-> RW(Add(a, Pow2(1, Top(a) - k)), t), hi |-> RW(Add(a, Pow2(0, Top(a) - k)), t)]
           IN  Within(r, [lo |-> RoundTo(v.lo, Fmt(t)), hi |-> RoundTo(v.hi, Fmt(t))])

(* ---- distribution of the noise of one operation -------------------------------------- *)
(* possible results before the last rounding, and the unperturbed one                      *)
Cloud(op, t, a, b, c) ==
  LET ti == IF op = "cast" THEN "d" ELSE t
      v == InN(Point(a), ti)
      w == IF op = "cast" THEN Point(Zero(0)) ELSE InN(Point(b), ti)
      u == IF op = "fma" THEN InN(Point(c), ti) ELSE Point(Zero(0))
  IN  OutN(OpIv(op, ti, v, w, u), ti)
Centre(op, t, a, b, c) == OpIv(op, t, Point(a), Point(b), IF op = "fma" THEN Point(c) ELSE Point(Zero(0))).lo
Sq(n) == n * n
RECURSIVE BToInt(_)
BToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + BASE * BToInt(Tail(m))
(* floor of 1024 (r - x) / h for |r - x| of the order of h                                 *)
Scaled(r, x, h) ==
  LET d == Add(r, Neg(x))
      q == [QuoN(d, h, 40) EXCEPT !.e = @ + 10]
      w == IF q.e >= 0 THEN BShl(q.m, q.e) ELSE BShr(q.m, -q.e)
      fr == q.e < 0 /\ ~BLowZero(q.m, -q.e)
  IN  IF d.k = "z" THEN 0 ELSE IF q.s = 0 THEN BToInt(w) ELSE (-BToInt(w)) - (IF fr THEN 1 ELSE 0)
Half(v) == LET w == Add(v.hi, Neg(v.lo)) IN [w EXCEPT !.e = @ - 1]
Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
(* x + h k / n for a power of two n                                                          *)
Away(x, h, k, logn) == IF k = 0 THEN x
                       ELSE Add(x, [k |-> "n", s |-> IF k < 0 THEN 1 - h.s ELSE h.s, e |-> h.e - logn, m |-> BMul(h.m, OfInt(IF k < 0 THEN -k ELSE k))])
(* results rs of one operation: centred (within six standard deviations of a fair coin) *)
(* and filling the interval beyond reach/1024 on both sides                                 *)
SpreadOK(op, t, a, b, c, rs, reach) ==
  LET v == TLCEval(Cloud(op, t, a, b, c))
      x == TLCEval(Centre(op, t, a, b, c))
      h == TLCEval(Half(v))
      up == TLCEval(Away(x, h, reach, 10))
      dn == TLCEval(Away(x, h, -reach, 10))
      above == Count(rs, LAMBDA y : ~Leq(y, x))
      below == Count(rs, LAMBDA y : ~Leq(x, y))
  IN  /\ \E i \in 1..Len(rs) : ~Leq(rs[i], up)
      /\ \E i \in 1..Len(rs) : ~Leq(dn, rs[i])
      /\ Sq(above - below) <= 36 * Len(rs)
(* a single source: uniform over eight parts of the interval                                *)
UniformOK(op, t, a, b, c, rs) ==
  LET v == TLCEval(Cloud(op, t, a, b, c))
      x == TLCEval(Centre(op, t, a, b, c))
      h == TLCEval(Half(v))
      below == TLCEval([k \in 0..8 |-> IF k = 0 THEN 0 ELSE IF k = 8 THEN Len(rs)
                         ELSE LET z == TLCEval(Away(x, h, k - 4, 2)) IN Count(rs, LAMBDA y : ~Leq(z, y))])
      n == Len(rs)
  IN  \A k \in 0..7 : Sq((8 * (below[k + 1] - below[k])) - n) <= 36 * 7 * n
(* noise of half a unit in the last place: each neighbour with a probability given by the   *)
(* distance (one source, default precision)                                                  *)
RoundingOK(op, t, a, b, c, rs) ==
  LET x == TLCEval(Centre(op, t, a, b, c))
      f == Fmt(t)
      ulp == Pow2(0, Top(x) - f.p)
      near == RoundTo(x, f)
      lo == IF Leq(near, x) THEN near ELSE Add(near, Neg(ulp))
      pr == Scaled(x, lo, ulp)        \* probability of the upper neighbour, in 1024ths
      ups == Count(rs, LAMBDA y : ~Leq(y, x))
      n == Len(rs)
      d == 1024 * ups - n * pr
  IN  /\ \A i \in 1..n : Same(rs[i], Canon(lo)) \/ Same(rs[i], Canon(Add(lo, ulp)))
      /\ Sq(d \div 1024) <= 11 * n

(* sparsity, in 1024ths: that part of the operations is perturbed (random rounding).         *)
(* At a low precision every perturbed result differs from the plain one; at the default       *)
(* precision it is the farther neighbour with a probability given by the distance.            *)
SparseOK(op, t, a, b, c, rs, part) ==
  LET x == TLCEval(Centre(op, t, a, b, c))
      near == TLCEval(RoundTo(x, Fmt(t)))
      off == Scaled(x, near, Pow2(0, Top(x) - Fmt(t).p))
      full == cfg.prec[t] <= Fmt(t).p - 12
      q == IF full THEN part ELSE (part * (IF off < 0 THEN -off ELSE off)) \div 1024
      n == Len(rs)
      k == Count(rs, LAMBDA y : ~Same(y, near))
      d == (k * 1024) - (n * q)
  IN  IF full /\ part = 1024 THEN k >= n - 3
      ELSE Sq(d \div 1024) <= (((((36 * n * q) \div 1024) * (1024 - q)) \div 1024)) + 9
(* The same of the operands.  An operand added to a zero, which is never perturbed: the        *)
(* perturbed part is the sparsity in mode pb, and that of either of two in mode mca.  Two      *)
(* equal operands subtracted: a zero unless either is perturbed.                               *)
SparseInOK(op, t, a, rs, part) ==
  LET q == IF cfg.mode = "mca" \/ op = "sub" THEN (part * (2048 - part)) \div 1024 ELSE part
      n == Len(rs)
      k == Count(rs, LAMBDA y : IF op = "sub" THEN y.k # "z" ELSE ~Same(y, a))
      d == (k * 1024) - (n * q)
  IN  IF part = 1024 THEN k >= n - 6
      ELSE Sq(d \div 1024) <= (((((36 * n * q) \div 1024) * (1024 - q)) \div 1024)) + 16
(* a sparsity (in thousandths) given at start-up                                              *)
SparsityOK(milli, ok) == (milli <= 0 => ~ok) /\ (milli \in 1..1000 => ok)

(* = TRUE: evaluated as a value, not as alternatives of the action *)
Operate(op, t, a, b, c, r) == (OpOK(op, t, a, b, c, r) = TRUE) /\ UNCHANGED mvars
Spread(op, t, a, b, c, rs, reach) == (SpreadOK(op, t, a, b, c, rs, reach) = TRUE) /\ UNCHANGED mvars
Uniform(op, t, a, b, c, rs) == (UniformOK(op, t, a, b, c, rs) = TRUE) /\ UNCHANGED mvars
Rounding(op, t, a, b, c, rs) == (RoundingOK(op, t, a, b, c, rs) = TRUE) /\ UNCHANGED mvars
Inexact(t, a, n, r) == (InexactOK(t, a, n, r) = TRUE) /\ UNCHANGED mvars
Sparse(op, t, a, b, c, rs, part) == (SparseOK(op, t, a, b, c, rs, part) = TRUE) /\ UNCHANGED mvars
SparseIn(op, t, a, rs, part) == (SparseInOK(op, t, a, rs, part) = TRUE) /\ UNCHANGED mvars
Sparsity(milli, ok) == SparsityOK(milli, ok) /\ UNCHANGED mvars
Start(c) == cfg' = c
SetPrecision(t, n) == cfg' = [cfg EXCEPT !.prec[t] = n]
=============================================================================
