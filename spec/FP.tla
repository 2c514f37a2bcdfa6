--------------------------------- MODULE FP ---------------------------------
(* IEEE-754 style binary floating point, exactly.                              *)
(* A value is [k, s, e, m]: kind "z" zero, "n" finite non-zero, "i" infinity,  *)
(* "q" NaN; sign bit s; a finite non-zero value is (-1)^s * m * 2^e with m a   *)
(* Big.  Canonical values have m odd; records of kind z/i/q have e=0, m=<<>>,  *)
(* and a NaN has s=0 (payloads and NaN signs are not modelled).                *)
(* A format is [p, emin, emax]: p explicit fraction bits, exponents of the     *)
(* smallest normal and of the largest binade.                                  *)
EXTENDS Big

Zero(s) == [k |-> "z", s |-> s, e |-> 0, m |-> <<>>]
Inf(s) == [k |-> "i", s |-> s, e |-> 0, m |-> <<>>]
NaN == [k |-> "q", s |-> 0, e |-> 0, m |-> <<>>]
Fin(s, e, m) == IF m = <<>> THEN Zero(s) ELSE [k |-> "n", s |-> s, e |-> e, m |-> m]
Canon(x) == IF x.k # "n" THEN x
            ELSE LET z == BCtz(x.m) IN IF z = 0 THEN x ELSE [x EXCEPT !.m = BShr(@, z), !.e = @ + z]
Neg(x) == IF x.k = "q" THEN x ELSE [x EXCEPT !.s = 1 - @]
Abs(x) == IF x.k = "q" THEN x ELSE [x EXCEPT !.s = 0]

Format(p, r) == [p |-> p, emin |-> 2 - 2^(r - 1), emax |-> 2^(r - 1) - 1]
Binary32 == Format(23, 8)
Binary64 == Format(52, 11)
Fmt(t) == IF t = "f" THEN Binary32 ELSE Binary64

(* exponent of the leading bit of a finite non-zero value *)
Top(x) == x.e + BLen(x.m) - 1
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* compare magnitudes of finite non-zero values *)
CmpMag(x, y) ==
  IF Top(x) # Top(y) THEN IF Top(x) < Top(y) THEN -1 ELSE 1
  ELSE IF x.e = y.e THEN BCmp(x.m, y.m)
  ELSE IF x.e > y.e THEN BCmp(BShl(x.m, x.e - y.e), y.m)
  ELSE BCmp(x.m, BShl(y.m, y.e - x.e))
(* compare numbers (not NaN), as extended reals *)
CmpNum(x, y) ==
  LET rank(v) == IF v.k = "z" THEN 0 ELSE IF v.s = 1 THEN -1 ELSE 1
  IN  IF rank(x) # rank(y) THEN IF rank(x) < rank(y) THEN -1 ELSE 1
      ELSE IF rank(x) = 0 THEN 0
      ELSE IF x.k = "i" /\ y.k = "i" THEN 0
      ELSE IF x.k = "i" THEN rank(x)
      ELSE IF y.k = "i" THEN -rank(x)
      ELSE rank(x) * CmpMag(x, y)
Same(x, y) == Canon(x) = Canon(y)

(* ---- exact operations on finite values ------------------------------------ *)
(* A summand more than FAR bits below the leading bit of the other one is      *)
(* replaced by a unit of the same sign at that distance: it cannot change any  *)
(* rounding to far fewer bits, only (as it must) make it inexact.              *)
FAR == 300
Clip(x, top) == IF Top(x) < top - FAR THEN [x EXCEPT !.m = BOne, !.e = top - FAR - 1] ELSE x
AddFin(x, y) == \* both "n"
  LET t == Max2(Top(x), Top(y))
      a == Clip(x, t)
      b == Clip(y, t)
      e == Min2(a.e, b.e)
      ma == IF a.e = e THEN a.m ELSE BShl(a.m, a.e - e)
      mb == IF b.e = e THEN b.m ELSE BShl(b.m, b.e - e)
      c == BCmp(ma, mb)
  IN  IF a.s = b.s THEN [k |-> "n", s |-> a.s, e |-> e, m |-> BAdd(ma, mb)]
      ELSE IF c = 0 THEN Zero(0)
      ELSE IF c > 0 THEN [k |-> "n", s |-> a.s, e |-> e, m |-> BSub(ma, mb)]
      ELSE [k |-> "n", s |-> b.s, e |-> e, m |-> BSub(mb, ma)]
Add(x, y) == \* exact sum, with the IEEE rules for special values (round to nearest)
  IF x.k = "q" \/ y.k = "q" THEN NaN
  ELSE IF x.k = "i" THEN IF y.k = "i" /\ x.s # y.s THEN NaN ELSE x
  ELSE IF y.k = "i" THEN y
  ELSE IF x.k = "z" /\ y.k = "z" THEN IF x.s = y.s THEN x ELSE Zero(0)
  ELSE IF x.k = "z" THEN y ELSE IF y.k = "z" THEN x
  ELSE AddFin(x, y)
Sub(x, y) == Add(x, Neg(y))
Xor(a, b) == (a + b) % 2
Mul(x, y) ==
  IF x.k = "q" \/ y.k = "q" THEN NaN
  ELSE LET s == Xor(x.s, y.s)
       IN  IF x.k = "i" \/ y.k = "i" THEN IF x.k = "z" \/ y.k = "z" THEN NaN ELSE Inf(s)
           ELSE IF x.k = "z" \/ y.k = "z" THEN Zero(s)
           ELSE [k |-> "n", s |-> s, e |-> x.e + y.e, m |-> BMul(x.m, y.m)]
Fma(x, y, z) ==
  LET pr == Mul(x, y) IN Add(pr, z)

(* Quotient of finite non-zero values: at least n bits, the rest folded into    *)
(* a sticky bit (enough for any rounding to n - 2 bits or fewer).               *)
QuoFin(x, y, n) ==
  LET sh == Max2(0, n + BLen(y.m) - BLen(x.m))
      d == BDiv(BShl(x.m, sh), y.m)
      q == BShl(d[1], 1)
  IN  [k |-> "n", s |-> Xor(x.s, y.s), e |-> x.e - y.e - sh - 1,
       m |-> IF d[2] THEN q ELSE BAdd(q, BOne)]
QuoN(x, y, n) ==
  IF x.k = "q" \/ y.k = "q" THEN NaN
  ELSE LET s == Xor(x.s, y.s)
       IN  IF x.k = "i" THEN IF y.k = "i" THEN NaN ELSE Inf(s)
           ELSE IF y.k = "i" THEN Zero(s)
           ELSE IF y.k = "z" THEN IF x.k = "z" THEN NaN ELSE Inf(s)
           ELSE IF x.k = "z" THEN Zero(s)
           ELSE QuoFin(x, y, n)
Div(x, y) == QuoN(x, y, 66)

(* ---- rounding -------------------------------------------------------------- *)
(* to nearest, ties to even *)
RoundTo(x, f) ==
  IF x.k # "n" THEN x
  ELSE LET t == Top(x)
           lsb == Max2(t, f.emin) - f.p
           sh == lsb - x.e
           q == BShr(x.m, sh)
           half == BBit(x.m, sh - 1) = 1
           rest == ~BLowZero(x.m, sh - 1)
           up == half /\ (rest \/ BBit(x.m, sh) = 1)
           y == IF sh <= 0 THEN x ELSE Fin(x.s, lsb, IF up THEN BAdd(q, BOne) ELSE q)
       IN  IF y.k = "n" /\ Top(y) > f.emax THEN Inf(x.s) ELSE Canon(y)
(* is x a value of the format? *)
InFormat(x, f) ==
  x.k # "n" \/ LET c == Canon(x) IN Top(c) <= f.emax /\ c.e >= Max2(Top(c), f.emin) - f.p
(* unit in the last place of the binade of x, as an exponent *)
UlpExp(x, f) == Max2(Top(x), f.emin) - f.p
IsSubnormal(x, f) == x.k = "n" /\ Top(x) < f.emin

(* native operations: exact result rounded to the type *)
Native(op, f, a, b, c) ==
  RoundTo(CASE op = "add" -> Add(a, b)
            [] op = "sub" -> Sub(a, b)
            [] op = "mul" -> Mul(a, b)
            [] op = "div" -> Div(a, b)
            [] op = "fma" -> Fma(a, b, c)
            [] op = "cast" -> a, f)

(* ---- comparison predicates (numbered as in LLVM) --------------------------- *)
Compare(p, x, y) ==
  LET u == x.k = "q" \/ y.k = "q"
      c == IF u THEN 2 ELSE CmpNum(x, y)
      holds(b) == (p \div b) % 2 = 1
  IN  \* bit 0: equal, bit 1: greater, bit 2: less, bit 3: unordered
      IF u THEN holds(8) ELSE IF c = 0 THEN holds(1) ELSE IF c > 0 THEN holds(2) ELSE holds(4)
=============================================================================
