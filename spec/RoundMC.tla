------------------------------ MODULE RoundMC ------------------------------
(* The rounding of the specification itself, checked exhaustively on small     *)
(* formats against the definition of "nearest".                                *)
EXTENDS Vprec
CONSTANT MM
VARIABLES vx, vf
rvars == <<vx, vf, vvars>>
Formats == {Format(p, r) : p \in 1..3, r \in 2..3}
(* all finite values of a format with exponents of its grid *)
Grid(g) == {Zero(0)} \cup {Canon(Fin(0, e - g.p, OfInt(m))) : e \in g.emin..g.emax, m \in 1..(2^(g.p + 1) - 1)}
Init == InitState /\ vf \in Formats /\ vx \in {Fin(s, e, BOne) : s \in {0, 1}, e \in -8..5}
Next == /\ vx.m = BOne
        /\ \E m \in 0..MM : vx' = Fin(vx.s, vx.e, OfInt(m))
        /\ UNCHANGED <<vf, vvars>>
Spec == Init /\ [][Next]_rvars
R == RoundTo(vx, vf)
V == RoundV(vx, vf)
Dist(a, b) == Abs(Add(a, Neg(b)))
Leq(a, b) == CmpNum(a, b) <= 0
MaxFin(g) == Fin(0, g.emax - g.p, OfInt(2^(g.p + 1) - 1))
InFmt == InFormat(R, vf) /\ InFormat(V, vf)
(* nothing of the format is closer *)
Nearest == R.k = "i" \/ \A g \in Grid(vf) : Leq(Dist(Abs(vx), Abs(R)), Dist(Abs(vx), g))
Idem == RoundTo(R, vf) = R /\ RoundV(V, vf) = V
Sym == RoundTo(Neg(vx), vf) = Neg(R) /\ R.s = vx.s /\ (V.k = "n" => V.s = vx.s)
Mono == \A g \in Grid(vf) : (Leq(g, Abs(vx)) => Leq(g, Abs(R))) /\ (Leq(Abs(vx), g) => Leq(Abs(R), g))
(* overflow exactly from the midpoint beyond the largest finite value; even on ties *)
Ties == /\ (R.k = "i") = (vx.k = "n" /\ Leq(Fin(0, vf.emax - vf.p - 1, OfInt(2^(vf.p + 2) - 1)), Abs(vx)))
        /\ \A g \in Grid(vf) : (R.k # "i" /\ g # Abs(R) /\ Dist(Abs(vx), Abs(R)) = Dist(Abs(vx), g)) =>
             R.k = "z" \/ LET l == Max2(Top(R), vf.emin) - vf.p IN Canon(R).e > l \/ Top(vx) < Top(R)
VUnder == IF vx.k = "n" /\ Canon(vx).m = BOne /\ Canon(vx).e = vf.emin - vf.p - 1 THEN V.k = "n" ELSE IF vx.k = "n" /\ R.k = "z" THEN V = Zero(0) ELSE V = R
=============================================================================
