-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size, as little-endian sequences of 15-bit limbs     *)
(* without leading zero limbs (zero is the empty sequence).  TLC's integers    *)
(* have 32 bits: a limb product plus two limbs still fits.                     *)
EXTENDS Integers, Sequences

LIMB == 15
BASE == 32768
Pow == [i \in 0..15 |-> 2^i]

Lim(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

BZero == <<>>
BOne == <<1>>
IsZero(a) == a = <<>>

RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o OfInt(n \div BASE)

RECURSIVE BBitLen0(_, _)
BBitLen0(x, n) == IF x = 0 THEN n ELSE BBitLen0(x \div 2, n + 1)
(* number of bits; 0 for zero *)
BLen(a) == IF a = <<>> THEN 0 ELSE LIMB * (Len(a) - 1) + BBitLen0(a[Len(a)], 0)

RECURSIVE AddR(_, _, _, _)
AddR(a, b, c, i) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Lim(a, i) + Lim(b, i) + c IN <<s % BASE>> \o AddR(a, b, s \div BASE, i + 1)
BAdd(a, b) == AddR(a, b, 0, 1)

RECURSIVE SubR(_, _, _, _)
SubR(a, b, c, i) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Lim(b, i) - c
       IN  IF s < 0 THEN <<s + BASE>> \o SubR(a, b, 1, i + 1) ELSE <<s>> \o SubR(a, b, 0, i + 1)
(* a - b for a >= b *)
BSub(a, b) == Trim(SubR(a, b, 0, 1))

RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpR(a, b, i - 1)
(* -1, 0, 1 *)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpR(a, b, Len(a))
BLeq(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0

RECURSIVE MulS(_, _, _, _, _)
MulS(a, d, acc, c, i) ==
  IF i > Len(a) /\ i > Len(acc) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Lim(a, i) * d + Lim(acc, i) + c IN <<s % BASE>> \o MulS(a, d, acc, s \div BASE, i + 1)
RECURSIVE MulR(_, _, _)
MulR(a, b, j) == IF j > Len(b) THEN <<>> ELSE MulS(a, b[j], <<0>> \o MulR(a, b, j + 1), 0, 1)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulR(a, b, 1))

BShl(a, k) ==
  IF a = <<>> THEN <<>>
  ELSE LET q == k \div LIMB
           b == k % LIMB
       IN  Trim([i \in 1..(Len(a) + q + 1) |->
                   ((Lim(a, i - q) * Pow[b]) % BASE) + Lim(a, i - q - 1) \div Pow[LIMB - b]])
BShr(a, k) ==
  LET q == k \div LIMB
      b == k % LIMB
  IN  IF q >= Len(a) THEN <<>>
      ELSE Trim([i \in 1..(Len(a) - q) |->
                   a[i + q] \div Pow[b] + (Lim(a, i + q + 1) % Pow[b]) * Pow[LIMB - b]])
BBit(a, k) == (Lim(a, k \div LIMB + 1) \div Pow[k % LIMB]) % 2
(* are the k low bits all zero? *)
BLowZero(a, k) ==
  LET q == k \div LIMB
  IN  /\ \A i \in 1..(IF q < Len(a) THEN q ELSE Len(a)) : a[i] = 0
      /\ Lim(a, q + 1) % Pow[k % LIMB] = 0
BPow2(k) == [i \in 1..(k \div LIMB + 1) |-> IF i = k \div LIMB + 1 THEN Pow[k % LIMB] ELSE 0]
BMask(a, k) == \* a mod 2^k
  Trim([i \in 1..Len(a) |-> LET lo == (i - 1) * LIMB
                            IN  IF lo + LIMB <= k THEN a[i] ELSE IF lo >= k THEN 0 ELSE a[i] % Pow[k - lo]])

RECURSIVE CtzL(_, _)
CtzL(x, n) == IF x % 2 = 1 THEN n ELSE CtzL(x \div 2, n + 1)
RECURSIVE CtzR(_, _)
CtzR(a, i) == IF a[i] # 0 THEN (i - 1) * LIMB + CtzL(a[i], 0) ELSE CtzR(a, i + 1)
(* trailing zero bits of a non-zero number *)
BCtz(a) == CtzR(a, 1)

(* ---- division -------------------------------------------------------------- *)
(* r * BASE + d *)
Push(r, d) == IF r = <<>> THEN (IF d = 0 THEN <<>> ELSE <<d>>) ELSE <<d>> \o r
RECURSIVE FixQ(_, _, _)
FixQ(r, v, q) == LET pr == BMul(v, IF q = 0 THEN <<>> ELSE <<q>>)
                 IN  IF BLeq(pr, r) THEN <<q, BSub(r, pr)>> ELSE FixQ(r, v, q - 1)
(* one digit: r < v * BASE, top limb of v at least BASE/2 *)
Digit(r, v) ==
  LET n == Len(v)
      t == Lim(r, n + 1) * BASE + Lim(r, n)
      q == t \div v[n]
  IN  IF BLt(r, v) THEN <<0, r>> ELSE FixQ(r, v, IF q >= BASE THEN BASE - 1 ELSE q)
RECURSIVE DivR(_, _, _, _, _)
DivR(a, v, i, r, q) ==
  IF i = 0 THEN <<q, r>>
  ELSE LET d == Digit(Push(r, a[i]), v) IN DivR(a, v, i - 1, d[2], <<d[1]>> \o q)
(* <<a div b, remainder is zero>> for b # 0 *)
BDiv(a, b) ==
  LET k == (LIMB - (BLen(b) % LIMB)) % LIMB
      aa == BShl(a, k)
      r == DivR(aa, BShl(b, k), Len(aa), <<>>, <<>>)
  IN  <<Trim(r[1]), r[2] = <<>>>>
=============================================================================
