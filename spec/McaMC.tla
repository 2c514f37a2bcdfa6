------------------------------- MODULE McaMC -------------------------------
(* The engine step by step, with every draw explicit: whatever is drawn, the    *)
(* result lies in the interval Mca allows (Sound), and the extreme draws reach  *)
(* the ends of the interval (Tight).                                            *)
EXTENDS Mca
CONSTANTS Mags       \* noise in 8ths of its largest magnitude: 0..8
Draws == Mags \cup {-k : k \in Mags}
CONSTANTS MM         \* significands
CONSTANTS OPS, MODES
VARIABLES op, a, b, c, r, draws
vars == <<mvars, op, a, b, c, r, draws>>

Scale(x, k) == IF k = 0 THEN Zero(0) ELSE Canon([k |-> "n", s |-> IF k < 0 THEN 1 - x.s ELSE x.s, e |-> x.e - 3, m |-> BMul(x.m, OfInt(IF k < 0 THEN -k ELSE k))])
(* the integer engine adds to the encoding of the value                           *)
IntAdd(x, d) ==
  LET y == Add(x, d)
  IN  IF d.k = "z" THEN x
      ELSE IF y.k = "z" \/ Top(y) = Top(x) THEN y
      ELSE IF Top(y) > Top(x)
           THEN LET z == Pow2(x.s, Top(x) + 1)  q == Add(y, Neg(z)) IN IF q.k = "z" THEN y ELSE Add(z, [q EXCEPT !.e = @ + 1])
           ELSE LET z == Pow2(x.s, Top(x))  q == Add(y, Neg(z)) IN IF q.k = "z" THEN y ELSE Add(z, [q EXCEPT !.e = @ - 1])
(* one value through the noise step with draws k (relative) and j (absolute)      *)
Disturb(x, n, k, j) ==
  IF cfg.mode = "ieee" \/ x.k # "n" \/ (cfg.mode = "rr" /\ Representable(x, n)) THEN x
  ELSE LET d == Scale(Pow2(0, Top(x) - n), k)
           y == IF ~Rel THEN x ELSE RW(IF cfg.engine = "quad" THEN Add(x, d) ELSE IntAdd(x, d), "f")
       IN  IF ~AbsN THEN y ELSE RW(Add(y, Scale(Pow2(0, cfg.exp - 1), j)), "f")
Inp(x, k, j) == IF cfg.mode \in {"pb", "mca"} THEN Disturb(x, cfg.prec["f"], k, j) ELSE x
Out(x, k, j) == IF cfg.mode \in {"rr", "mca"} THEN Disturb(x, cfg.prec["f"], k, j) ELSE x
Engine(o, x, y, z, k1, k2, k3, k4, j) ==
  LET p == Inp(x, k1, j)  q == Inp(y, k2, j)  s == Inp(z, k3, j)
      w == CASE o = "add" -> RW(Add(p, q), "f") [] o = "sub" -> RW(Sub(p, q), "f") [] o = "mul" -> RW(Mul(p, q), "f")
             [] o = "div" -> RW(QuoN(p, q, 120), "f") [] o = "fma" -> RW(Fma(p, q, s), "f")
      v == RoundTo(Out(w, k4, j), Binary32)
  IN  IF cfg.ftz /\ IsSubnormal(v, Binary32) THEN Zero(0) ELSE v

Vals == {Canon([k |-> "n", s |-> s, e |-> 0, m |-> OfInt(m)]) : s \in {0, 1}, m \in MM} \cup {Zero(0), Zero(1)}
Cfgs == {[engine |-> g, mode |-> m, prec |-> [f |-> n, d |-> 53], err |-> er, exp |-> 1, daz |-> FALSE, ftz |-> FALSE] :
          g \in {"quad", "int"}, m \in MODES, n \in {1, 3}, er \in {"rel", "abs", "all"}}
None == [k |-> "z", s |-> 0, e |-> 0, m |-> <<>>]
Init == cfg = [engine |-> "quad", mode |-> "ieee", prec |-> [f |-> 24, d |-> 53], err |-> "rel", exp |-> 0, daz |-> FALSE, ftz |-> FALSE]
        /\ op = "none" /\ a = Zero(0) /\ b = Zero(0) /\ c = Zero(0) /\ r = Zero(0) /\ draws = <<>>
(* configuration, then operands, then draws                                          *)
Configure == /\ op = "none"
             /\ \E g \in Cfgs : (g.engine = "quad" \/ g.err = "rel") /\ cfg' = g
             /\ op' = "ready" /\ UNCHANGED <<a, b, c, r, draws>>
Choose == /\ op = "ready" /\ op' \in OPS
          /\ a' \in Vals /\ b' \in Vals
          /\ c' \in (IF op' = "fma" THEN {Zero(0), Pow2(1, 2)} ELSE {Zero(0)})
          /\ UNCHANGED <<cfg, r, draws>>
Ins == IF cfg.mode \in {"pb", "mca"} THEN Draws ELSE {0}
Outs == IF cfg.mode \in {"rr", "mca"} THEN Draws ELSE {0}
Abss == IF AbsN THEN {-8, 0, 5, 8} ELSE {0}
Draw == /\ op \in OPS /\ draws = <<>>
        /\ \E k1 \in Ins, k2 \in Ins, k3 \in (IF op = "fma" THEN Ins ELSE {0}), k4 \in Outs, j \in Abss :
             /\ draws' = <<k1, k2, k3, k4, j>>
             /\ r' = Engine(op, a, b, c, k1, k2, k3, k4, j)
        /\ UNCHANGED <<cfg, op, a, b, c>>
Next == Configure \/ Choose \/ Draw
Spec == Init /\ [][Next]_vars
Sound == draws # <<>> => OpOK(op, "f", a, b, c, r)
(* ends reached: of one source                                                        *)
Tight == (op \in OPS /\ draws = <<>> /\ cfg.mode = "rr" /\ ~AbsN /\ ~(op = "div" /\ b.k = "z")) =>
           LET v == Cloud(op, "f", a, b, c)
               e(k) == Engine(op, a, b, c, 0, 0, 0, k, 0)
           IN  \A x \in {v.lo, v.hi} : \E k \in {-8, 8} : Same(e(k), RoundTo(x, Binary32)) \/ CmpNum(e(k), RoundTo(x, Binary32)) = 0
(* the noise is symmetric: the negated operation has the negated interval              *)
Mirrored == (op \in {"add", "mul", "fma"} /\ draws = <<>>) =>
              LET v == Cloud(op, "f", a, b, c)
                  w == Cloud(op, "f", Neg(a), IF op = "add" THEN Neg(b) ELSE b, Neg(c))
              IN  CmpNum(v.lo, Neg(w.hi)) = 0 /\ CmpNum(v.hi, Neg(w.lo)) = 0
=============================================================================
