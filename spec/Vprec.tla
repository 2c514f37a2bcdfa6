------------------------------- MODULE Vprec -------------------------------
(* The variable precision backend: emulated formats, rounding points, flags    *)
(* and the ways they are set.                                                  *)
EXTENDS FP

VARIABLES mode,   \* "ieee", "ib", "ob", "full"
          fmt,    \* type -> [p, r] in force
          daz, ftz,
          errm,   \* "rel", "abs", "all"
          erre    \* exponent of the absolute error
vvars == <<mode, fmt, daz, ftz, errm, erre>>

MaxP(t) == IF t = "f" THEN 23 ELSE 52
MaxR(t) == IF t = "f" THEN 8 ELSE 11
Presets == [binary16 |-> [p |-> 10, r |-> 5], binary32 |-> [p |-> 23, r |-> 8],
            bfloat16 |-> [p |-> 7, r |-> 8], tensorfloat |-> [p |-> 10, r |-> 8],
            fp24 |-> [p |-> 16, r |-> 7], PXR24 |-> [p |-> 15, r |-> 8]]
Modes == {"ieee", "ib", "ob", "full"}

(* ---- rounding to an emulated format ---------------------------------------- *)
(* to nearest, ties to even; a magnitude of exactly half the smallest subnormal *)
(* becomes the smallest subnormal, and below that it becomes positive zero      *)
(* (the repository's reference results fix that sign)                           *)
RoundV(x, f) ==
  IF x.k = "n" /\ Top(x) = f.emin - f.p - 1 /\ Canon(x).m = BOne THEN Fin(x.s, f.emin - f.p, BOne)
  ELSE LET y == RoundTo(x, f) IN IF x.k = "n" /\ y.k = "z" THEN Zero(0) ELSE y
FmtOf(q) == Format(q.p, q.r)
(* zap: subnormals of the format become zero *)
VRound(x, f, zap) == IF zap /\ IsSubnormal(x, f) THEN Zero(x.s) ELSE RoundV(x, f)

In(x, f) == IF mode \in {"ib", "full"} THEN VRound(x, f, daz) ELSE x
Out(x, f) == IF mode \in {"ob", "full"} THEN VRound(x, f, ftz) ELSE x

Result(op, t, a, b, c) ==
  IF op = "cast"
  THEN LET f32 == FmtOf(fmt["f"])
           f64 == FmtOf([p |-> Min2(fmt["d"].p, 23), r |-> Min2(fmt["d"].r, 8)])
       IN  CASE mode = "ieee" -> RoundTo(a, Binary32)
             [] mode = "ib" -> RoundTo(VRound(a, f64, daz), Binary32)
             [] OTHER -> VRound(a, f32, ftz)
  ELSE LET f == FmtOf(fmt[t])
           x == In(a, f)
           y == In(b, f)
           z == IF op = "fma" THEN In(c, f) ELSE c
       IN  Out(Native(op, Fmt(t), x, y, z), f)

(* With an absolute error bound 2^E, a value that is normal in the format may   *)
(* move by at most half of 2^E (and in mode "all" by at most what the format     *)
(* allows as well, whichever is larger).                                        *)
AbsRoundOK(x, f, y) ==
  IF x.k # "n" \/ IsSubnormal(x, f) THEN TRUE
  ELSE IF y.k # "n" /\ y.k # "z" THEN y.k = "i" /\ Top(x) >= f.emax
  ELSE LET lim == IF errm = "all" THEN Max2(erre, Top(x) - f.p) ELSE erre
           d == Add(x, Neg(y))
           half == [k |-> "n", s |-> 0, e |-> lim - 1, m |-> BOne]
       IN  (d.k = "z" \/ CmpMag(d, half) <= 0) /\ (y.k = "z" \/ Canon(y).e >= lim)

(* ---- configuration ----------------------------------------------------------*)
InitState ==
  /\ mode = "ob"
  /\ fmt = [t \in {"f", "d"} |-> [p |-> MaxP(t), r |-> MaxR(t)]]
  /\ daz = FALSE /\ ftz = FALSE /\ errm = "rel" /\ erre = 0

OkP(t, v) == v >= 1 /\ v <= MaxP(t)
OkR(t, v) == v >= 2 /\ v <= MaxR(t)
SetP(F, t, v) == [F EXCEPT ![t].p = v]
SetR(F, t, v) == [F EXCEPT ![t].r = v]

(* one option of the command line: is it acceptable, and what it does           *)
(* options: [o |-> name, v |-> integer, s |-> text]                             *)
OptOK(o) ==
  CASE o.o = "precision-binary32" -> OkP("f", o.v)
    [] o.o = "precision-binary64" -> OkP("d", o.v)
    [] o.o = "range-binary32" -> OkR("f", o.v)
    [] o.o = "range-binary64" -> OkR("d", o.v)
    [] o.o = "mode" -> o.s \in Modes
    [] o.o = "preset" -> o.s \in DOMAIN Presets
    [] o.o = "error-mode" -> o.s \in {"rel", "abs", "all"}
    [] o.o \in {"daz", "ftz", "max-abs-error-exponent"} -> TRUE
    [] OTHER -> FALSE
Conf == [mode |-> mode, fmt |-> fmt, daz |-> daz, ftz |-> ftz, errm |-> errm, erre |-> erre]
Apply(c, o) ==
  CASE o.o = "precision-binary32" -> [c EXCEPT !.fmt = SetP(@, "f", o.v)]
    [] o.o = "precision-binary64" -> [c EXCEPT !.fmt = SetP(@, "d", o.v)]
    [] o.o = "range-binary32" -> [c EXCEPT !.fmt = SetR(@, "f", o.v)]
    [] o.o = "range-binary64" -> [c EXCEPT !.fmt = SetR(@, "d", o.v)]
    [] o.o = "mode" -> [c EXCEPT !.mode = o.s]
    [] o.o = "preset" -> [c EXCEPT !.fmt = [t \in {"f", "d"} |-> Presets[o.s]]]
    [] o.o = "error-mode" -> [c EXCEPT !.errm = o.s]
    [] o.o = "max-abs-error-exponent" -> [c EXCEPT !.erre = o.v]
    [] o.o = "daz" -> [c EXCEPT !.daz = TRUE]
    [] o.o = "ftz" -> [c EXCEPT !.ftz = TRUE]
RECURSIVE ApplyAll(_, _)
ApplyAll(c, os) == IF os = <<>> THEN c ELSE ApplyAll(Apply(c, Head(os)), Tail(os))
OptsOK(os) == \A i \in 1..Len(os) : OptOK(os[i])

(* ---- actions ---------------------------------------------------------------- *)
(* the program starts with this command line *)
Start(os) ==
  /\ OptsOK(os)
  /\ LET c == ApplyAll([mode |-> "ob", fmt |-> [t \in {"f", "d"} |-> [p |-> MaxP(t), r |-> MaxR(t)]],
                        daz |-> FALSE, ftz |-> FALSE, errm |-> "rel", erre |-> 0], os)
     IN  /\ mode' = c.mode /\ fmt' = c.fmt /\ daz' = c.daz /\ ftz' = c.ftz /\ errm' = c.errm /\ erre' = c.erre
(* or is refused *)
Refuse(os) == ~OptsOK(os) /\ UNCHANGED vvars

SetPrecision(t, v) == OkP(t, v) /\ fmt' = SetP(fmt, t, v) /\ UNCHANGED <<mode, daz, ftz, errm, erre>>
SetRange(t, v) == OkR(t, v) /\ fmt' = SetR(fmt, t, v) /\ UNCHANGED <<mode, daz, ftz, errm, erre>>
RefuseP(t, v) == ~OkP(t, v) /\ UNCHANGED vvars
RefuseR(t, v) == ~OkR(t, v) /\ UNCHANGED vvars

(* an operation leaves the configuration alone *)
Operate(op, t, a, b, c, res) ==
  /\ IF errm = "rel" THEN Same(Result(op, t, a, b, c), res)
     ELSE AbsRoundOK(a, FmtOf(fmt[t]), res) \* only identity operations are observed in these modes
  /\ UNCHANGED vvars
=============================================================================
