------------------------------ MODULE Bitmask ------------------------------
(* The bitmask backend: the digits of a value below the virtual precision are   *)
(* cleared, set or drawn, in the operands, the result or both.                  *)
(* Drawn digits are not determined: an operation yields an interval of possible *)
(* results, which is a single value when nothing is drawn.                      *)
EXTENDS FP, TLC, FiniteSets

VARIABLES cfg   \* [mode, op, prec, daz, ftz]
bvars == <<cfg>>

Leq(x, y) == CmpNum(x, y) <= 0
Point(x) == [lo |-> x, hi |-> x]
Pow2(s, e) == [k |-> "n", s |-> s, e |-> e, m |-> BOne]

(* ---- digits ------------------------------------------------------------------- *)
Lsb(x, t) == Max2(Top(x), Fmt(t).emin) - Fmt(t).p
(* weight of the last of the n digits counted from the leading one                   *)
LowKept(x, t, n) == Max2(Top(x) - n + 1, Lsb(x, t))
Clear(x, t, n) ==
  LET k == LowKept(x, t, n)
  IN  IF x.k # "n" \/ x.e >= k THEN x ELSE Canon([x EXCEPT !.m = BShr(@, k - x.e), !.e = k])
SetAll(x, t, n) ==
  LET k == LowKept(x, t, n)
      u == Lsb(x, t)
  IN  IF x.k # "n" \/ k = u THEN x
      ELSE Canon(Add(Clear(x, t, n), Add(Pow2(x.s, k), Pow2(1 - x.s, u))))
Fits(x, t, n) == x.k # "n" \/ Same(Clear(x, t, n), x)
(* what the values of an interval become                                             *)
Smaller(x, t, n) == CASE cfg.op = "one" -> SetAll(x, t, n) [] OTHER -> Clear(x, t, n)
Larger(x, t, n) == CASE cfg.op = "zero" -> Clear(x, t, n) [] OTHER -> SetAll(x, t, n)
Masked(v, t, n) == [lo |-> IF v.lo.k = "n" /\ v.lo.s = 1 THEN Larger(v.lo, t, n) ELSE Smaller(v.lo, t, n),
                    hi |-> IF v.hi.k = "n" /\ v.hi.s = 1 THEN Smaller(v.hi, t, n) ELSE Larger(v.hi, t, n)]
InM(x, t) == IF cfg.mode \in {"ib", "full"} THEN Masked(Point(x), t, cfg.prec[t]) ELSE Point(x)
(* results that need no more digits than the precision are not touched in mode ob;   *)
(* for subnormal ones this is left open                                              *)
OutM(v, t) ==
  LET y == Masked(v, t, cfg.prec[t])
  IN  IF cfg.mode = "full" THEN {y}
      ELSE IF cfg.mode # "ob" THEN {v}
      ELSE IF v.lo = v.hi /\ Fits(v.lo, t, cfg.prec[t]) THEN IF IsSubnormal(v.lo, Fmt(t)) THEN {v, y} ELSE {v}
      ELSE {y}

(* ---- operations --------------------------------------------------------------- *)
Span(S) == [lo |-> CHOOSE x \in S : \A y \in S : Leq(x, y), hi |-> CHOOSE x \in S : \A y \in S : Leq(y, x)]
Ends(v) == {v.lo, v.hi}
Exact(op, x, y, z) ==
  CASE op = "add" -> Add(x, y) [] op = "sub" -> Sub(x, y) [] op = "mul" -> Mul(x, y)
    [] op = "div" -> Div(x, y) [] op = "fma" -> Fma(x, y, z) [] op = "cast" -> x
Result(op, t) == IF op = "cast" THEN Binary32 ELSE Fmt(t)
OpIv(op, t, v, w, u) ==
  LET f == Result(op, t)
      S == CASE op = "add" -> {<<v.lo, w.lo, u.lo>>, <<v.hi, w.hi, u.hi>>}
             [] op = "sub" -> {<<v.lo, w.hi, u.lo>>, <<v.hi, w.lo, u.lo>>}
             [] OTHER -> Ends(v) \X Ends(w) \X Ends(u)
  IN  Span({RoundTo(Exact(op, q[1], q[2], q[3]), f) : q \in S})
Special(x) == x.k \in {"i", "q"}
Within(r, v) == r.k # "q" /\ Leq(v.lo, r) /\ Leq(r, v.hi)
AllBig(v, f) == (v.hi.k # "q" /\ v.hi.k # "z" /\ v.hi.s = 1 /\ (v.hi.k = "i" \/ Top(v.hi) >= f.emin))
                \/ (v.lo.k # "q" /\ v.lo.k # "z" /\ v.lo.s = 0 /\ (v.lo.k = "i" \/ Top(v.lo) >= f.emin))
OpIs(op, t, a, b, c, r) ==
  LET f == Result(op, t)
      plain == RoundTo(Exact(op, a, b, c), f)
      fl(x) == cfg.ftz /\ IsSubnormal(x, f)
  IN  IF Special(a) \/ Special(b) \/ Special(c) \/ plain.k = "q" THEN Same(r, plain)
      ELSE LET z == OpIv(op, t, InM(a, t), InM(b, t), InM(c, t))
           IN  \E y0 \in OutM(z, t) :
                 LET y == IF op = "cast" THEN [lo |-> RoundTo(y0.lo, f), hi |-> RoundTo(y0.hi, f)] ELSE y0
                 IN  IF y.lo = y.hi THEN (IF fl(y.lo) THEN r.k = "z" ELSE Same(r, y.lo))
                     ELSE ~fl(r) /\ (Within(r, y) \/ (cfg.ftz /\ r.k = "z" /\ ~AllBig(y, f)))
Zap(x, t) == IF cfg.daz /\ IsSubnormal(x, Fmt(t)) THEN {Zero(0), Zero(x.s)} ELSE {x}
(* the operand type of a cast is "d"                                                    *)
OpOK(op, t, a, b, c, r) ==
  LET ti == IF op = "cast" THEN "d" ELSE t
  IN  \E x \in Zap(a, ti), y \in Zap(b, ti), z \in Zap(c, ti) : OpIs(op, ti, x, y, z, r)

(* ---- drawn digits: each varies, as often set as not ----------------------------------- *)
Sq(n) == n * n
DigitAt(x, w) == IF w < x.e THEN 0 ELSE BBit(x.m, w - x.e)
BitsOK(op, t, a, b, rs) ==
  LET x == TLCEval(RoundTo(Exact(op, a, b, Zero(0)), Fmt(t)))
      k == LowKept(x, t, cfg.prec[t])
      u == Lsb(x, t)
      n == Len(rs)
  IN  \A w \in u..(k - 1) :
        LET ones == Cardinality({i \in 1..n : DigitAt(rs[i], w) = 1})
        IN  Sq((2 * ones) - n) <= 36 * n

Operate(op, t, a, b, c, r) == (OpOK(op, t, a, b, c, r) = TRUE) /\ UNCHANGED bvars
Bits(op, t, a, b, rs) == (BitsOK(op, t, a, b, rs) = TRUE) /\ UNCHANGED bvars
Start(g) == cfg' = g
=============================================================================
