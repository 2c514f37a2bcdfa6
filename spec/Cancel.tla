------------------------------- MODULE Cancel -------------------------------
(* The cancellation backend: an addition or subtraction that loses at least     *)
(* `tol` leading digits gets MCA noise at that many digits; nothing else does.   *)
EXTENDS FP, TLC, FiniteSets

VARIABLES cfg,     \* [tol, warn]
          sizes    \* cancellations reported so far
cvars == <<cfg, sizes>>

Leq(x, y) == CmpNum(x, y) <= 0
Pow2(s, e) == [k |-> "n", s |-> s, e |-> e, m |-> BOne]
(* exponent as stored: below all normal ones for zero and subnormal values, above them for infinity and NaN *)
Expo(x, f) == IF x.k \in {"i", "q"} THEN f.emax + 1
              ELSE IF x.k = "z" \/ Top(x) < f.emin THEN f.emin - 1 ELSE Top(x)
Plain(op, t, a, b, c) ==
  LET f == IF op = "cast" THEN Binary32 ELSE Fmt(t)
  IN  RoundTo(CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "mul" -> Mul(a, b)
                [] op = "div" -> Div(a, b) [] op = "fma" -> Fma(a, b, c) [] op = "cast" -> a, f)
Lost(t, a, b, z) == Max2(Expo(a, Fmt(t)), Expo(b, Fmt(t))) - Expo(z, Fmt(t))
Cancels(op, t, a, b, z) == op \in {"add", "sub"} /\ Lost(t, a, b, z) >= cfg.tol
(* largest noise                                                                            *)
Amp(t, a, b, z) == Pow2(0, Expo(z, Fmt(t)) - Lost(t, a, b, z))
Within(r, z, h, t) == r.k # "q" /\ Leq(RoundTo(Add(z, Neg(h)), Fmt(t)), r) /\ Leq(r, RoundTo(Add(z, h), Fmt(t)))
OpOK(op, t, a, b, c, r) ==
  LET z == Plain(op, t, a, b, c)
  IN  IF ~Cancels(op, t, a, b, z) \/ z.k \in {"i", "q"} THEN Same(r, z)
      ELSE Within(r, z, Amp(t, a, b, z), t)
Operate(op, t, a, b, c, r) ==
  LET z == Plain(op, t, a, b, c)
  IN  /\ OpOK(op, t, a, b, c, r) = TRUE
      /\ sizes' = IF cfg.warn /\ Cancels(op, t, a, b, z) THEN Append(sizes, Lost(t, a, b, z)) ELSE sizes
      /\ UNCHANGED cfg

(* ---- distribution: uniform over eight parts of the interval ------------------------------- *)
Sq(n) == n * n
Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
UniformOK(op, t, a, b, rs) ==
  LET z == TLCEval(Plain(op, t, a, b, Zero(0)))
      h == TLCEval(Amp(t, a, b, z))
      cut(k) == IF k = 4 THEN z ELSE Add(z, [k |-> "n", s |-> IF k < 4 THEN 1 ELSE 0, e |-> h.e - 2, m |-> OfInt(IF k < 4 THEN 4 - k ELSE k - 4)])
      below == TLCEval([k \in 0..8 |-> IF k = 0 THEN 0 ELSE IF k = 8 THEN Len(rs)
                         ELSE LET y == TLCEval(cut(k)) IN Count(rs, LAMBDA x : ~Leq(y, x))])
      n == Len(rs)
  IN  \A k \in 0..7 : Sq((8 * (below[k + 1] - below[k])) - n) <= 36 * 7 * n
Uniform(op, t, a, b, rs) ==
  /\ UniformOK(op, t, a, b, rs) = TRUE
  /\ sizes' = IF cfg.warn THEN sizes \o [i \in 1..Len(rs) |-> Lost(t, a, b, Plain(op, t, a, b, Zero(0)))] ELSE sizes
  /\ UNCHANGED cfg
Start(g) == cfg' = g /\ sizes' = <<>>
End(q) == sizes = q /\ UNCHANGED cvars
=============================================================================
