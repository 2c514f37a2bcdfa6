----------------------------- MODULE BitmaskMC -----------------------------
(* Clear and SetAll against the digits one by one, on all values of small        *)
(* significands in a small format laid over binary32's smallest exponents.        *)
EXTENDS Bitmask
CONSTANTS MM
VARIABLES x, n
vars == <<bvars, x, n>>
Init == cfg = [mode |-> "ob", op |-> "rand", prec |-> [f |-> 24, d |-> 53], daz |-> FALSE, ftz |-> FALSE] /\ x = Zero(0) /\ n = 0
(* subnormal values, and normal ones with their last digits                          *)
Vals == {Canon([k |-> "n", s |-> s, e |-> e, m |-> OfInt(m)]) : s \in {0, 1}, e \in {-149}, m \in 1..MM}
        \cup {Canon([k |-> "n", s |-> s, e |-> e, m |-> BAdd(OfInt(m), BPow2(23))]) : s \in {0, 1}, e \in {-149, 3}, m \in 0..(MM \div 8)}
Next == n = 0 /\ x' \in Vals /\ n' \in (1..9 \cup {20, 22, 23, 24, 30}) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
(* the i-th digit from the leading one                                               *)
Dig(v, i) == DigitAt(v, Top(v) - i)
Last == Top(x) - Lsb(x, "f")      \* index of the last digit of the type
C == Clear(x, "f", n)
S == SetAll(x, "f", n)
Kept == n > 0 => \A v \in {C, S} : /\ Top(v) = Top(x) /\ v.s = x.s
                                   /\ \A i \in 0..Last : i < n => Dig(v, i) = Dig(x, i)
Changed == n > 0 => /\ \A i \in 0..Last : i >= n => Dig(C, i) = 0 /\ Dig(S, i) = 1
                    /\ C.e >= Lsb(x, "f") /\ S.e >= Lsb(x, "f")
(* an identity in mode ob: the values allowed are exactly those with x's leading digits *)
Drawn == (n > 0 /\ ~Fits(x, "f", n)) =>
           LET v == CHOOSE y \in OutM([lo |-> x, hi |-> x], "f") : TRUE
               w == [cfg EXCEPT !.prec["f"] = n]
               m == Masked(Point(x), "f", n)
           IN  /\ Within(x, m) /\ Within(C, m) /\ Within(S, m)
               /\ ~Within(Add(S, Pow2(x.s, Lsb(x, "f"))), m) /\ ~Within(Add(C, Pow2(1 - x.s, Lsb(x, "f"))), m)
Monotone == n > 0 => LET y == RoundTo(Add(x, Pow2(0, Lsb(x, "f"))), Binary32)
                     IN  Leq(Clear(x, "f", n), Clear(y, "f", n)) /\ Leq(SetAll(x, "f", n), SetAll(y, "f", n))
=============================================================================
