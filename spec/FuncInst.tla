------------------------------ MODULE FuncInst ------------------------------
(* Function instrumentation under VPREC: formats per call site, formats of      *)
(* arguments and results, and the profile that records them.                    *)
EXTENDS Vprec, TLC, FiniteSets

VARIABLES imode,  \* "none", "arguments", "operations", "all"
          tab,    \* call site -> record of the profile
          calls   \* calls in progress, innermost last
fivars == <<imode, tab, calls>>

IMax == 2147483647
IMin == (-2147483647) - 1

(* ---- integer bounds of a value ---------------------------------------------- *)
RECURSIVE ToInt(_)
ToInt(b) == IF b = <<>> THEN 0 ELSE b[1] + BASE * ToInt(Tail(b))
Whole(x) == IF x.e >= 0 THEN ToInt(BShl(x.m, x.e)) ELSE ToInt(BShr(x.m, -x.e))
Frac(x) == x.e < 0 /\ ~BLowZero(x.m, -x.e)
FloorI(x) == IF x.k = "z" THEN 0
             ELSE IF Top(x) >= 31 THEN (IF x.s = 1 THEN IMin ELSE IMax)
             ELSE IF x.s = 0 THEN Whole(x) ELSE (-Whole(x)) - (IF Frac(x) THEN 1 ELSE 0)
CeilI(x) == IF x.k = "z" THEN 0
            ELSE IF Top(x) >= 31 THEN (IF x.s = 1 THEN IMin ELSE IMax)
            ELSE IF x.s = 1 THEN -Whole(x)
            ELSE IF Frac(x) /\ Whole(x) < IMax THEN Whole(x) + 1 ELSE Whole(x)
Finite(x) == x.k \in {"n", "z"}

(* ---- records ------------------------------------------------------------------ *)
(* an argument or result: [name, ty, vals]; ty is f, d, pf, pd (arrays)            *)
Elt(ty) == IF ty \in {"f", "pf"} THEN "f" ELSE "d"
NewArg(a) == [name |-> a.name, ty |-> a.ty, p |-> MaxP(Elt(a.ty)), r |-> MaxR(Elt(a.ty)), lo |-> IMax, hi |-> IMin]
FullOps == [t \in {"f", "d"} |-> [p |-> MaxP(t), r |-> MaxR(t)]]
NewRec(s) == [lib |-> s.lib, intr |-> s.intr, uf |-> s.uf, ud |-> s.ud, ops |-> FullOps, ins |-> <<>>, outs |-> <<>>, n |-> 0, conf |-> FALSE]
Told(s) == s.uf \/ s.ud
OpsOn == imode \in {"operations", "all"}
ArgsOn == imode \in {"arguments", "all"}

RECURSIVE Widen(_, _)
Widen(q, vs) == IF vs = <<>> THEN q
                ELSE LET v == Head(vs)
                     IN  Widen(IF Finite(v) THEN [q EXCEPT !.lo = Min2(@, FloorI(v)), !.hi = Max2(@, CeilI(v))] ELSE q, Tail(vs))
Slots(qs, args) == IF qs = <<>> THEN [i \in 1..Len(args) |-> NewArg(args[i])] ELSE qs
WidenAll(qs, seen) == [i \in 1..Len(qs) |-> IF i <= Len(seen) THEN Widen(qs[i], seen[i]) ELSE qs[i]]

(* what the other side sees of the given values                                    *)
SeenOK(qs, args, seen, on, zap, conf) ==
  /\ Len(seen) = Len(args) /\ Len(qs) = Len(args)
  /\ \A i \in 1..Len(args) :
       /\ Len(seen[i]) = Len(args[i].vals)
       /\ \A j \in 1..Len(seen[i]) :
            LET v == args[i].vals[j]
                f == FmtOf(qs[i])
            IN  IF ~on THEN Same(seen[i][j], v)
                ELSE IF ~conf /\ Same(seen[i][j], v) THEN TRUE
                ELSE Same(seen[i][j], VRound(v, f, zap))

(* ---- actions -------------------------------------------------------------------- *)
(* conf: sequence of records read from the configuration file                        *)
Boot(os, im, recs) ==
  /\ Start(os)
  /\ imode' = im
  /\ tab' = [id \in {recs[i].id : i \in 1..Len(recs)} |->
               LET q == recs[CHOOSE i \in 1..Len(recs) : recs[i].id = id]
               IN  [lib |-> q.lib, intr |-> q.intr, uf |-> q.uf, ud |-> q.ud, ops |-> q.ops, ins |-> q.ins, outs |-> q.outs, n |-> q.n, conf |-> TRUE]]
  /\ calls' = <<>>

(* s: [id, lib, intr, uf, ud]                                                         *)
Enter(s, args, seen) ==
  IF ~Told(s)
  THEN calls' = Append(calls, [id |-> s.id, told |-> FALSE, back |-> fmt]) /\ UNCHANGED <<imode, tab, vvars>>
  ELSE LET r0 == IF s.id \in DOMAIN tab THEN tab[s.id] ELSE NewRec(s)
           qs == Slots(r0.ins, args)
       IN  /\ SeenOK(qs, args, seen, ArgsOn /\ mode \in {"ib", "full"}, daz, r0.conf /\ r0.ins # <<>>)
           /\ tab' = (s.id :> [r0 EXCEPT !.n = @ + 1, !.ins = WidenAll(qs, seen)]) @@ tab
           /\ calls' = Append(calls, [id |-> s.id, told |-> TRUE, back |-> fmt])
           /\ fmt' = IF OpsOn /\ ~s.lib /\ ~s.intr THEN r0.ops ELSE fmt
           /\ UNCHANGED <<imode, mode, daz, ftz, errm, erre>>
Exit(s, outs, seen) ==
  /\ calls # <<>>
  /\ LET c == calls[Len(calls)]
     IN  /\ c.id = s.id
         /\ calls' = SubSeq(calls, 1, Len(calls) - 1)
         /\ IF ~c.told THEN UNCHANGED <<imode, tab, vvars>>
            ELSE LET r0 == tab[s.id]
                     qs == Slots(r0.outs, outs)
                 IN  /\ SeenOK(qs, outs, seen, ArgsOn /\ mode \in {"ob", "full"}, ftz, r0.conf /\ r0.outs # <<>>)
                     /\ tab' = (s.id :> [r0 EXCEPT !.outs = WidenAll(qs, seen)]) @@ tab
                     /\ fmt' = IF OpsOn THEN c.back ELSE fmt
                     /\ UNCHANGED <<imode, mode, daz, ftz, errm, erre>>
(* a call of an intrinsic that gives the magnitude of its argument, seen from outside *)
AbsCall(s, a, got) ==
  LET r0 == IF s.id \in DOMAIN tab THEN tab[s.id] ELSE NewRec(s)
      qi == Slots(r0.ins, <<a>>)
      o0 == [name |-> "return_value", ty |-> a.ty, vals |-> <<>>]
      qo == Slots(r0.outs, <<o0>>)
      conf == r0.conf /\ r0.ins # <<>>
      v == a.vals[1]
      x == IF ArgsOn /\ mode \in {"ib", "full"} /\ conf THEN VRound(v, FmtOf(qi[1]), daz) ELSE v
      y == IF ArgsOn /\ mode \in {"ob", "full"} /\ conf THEN VRound(Abs(x), FmtOf(qo[1]), ftz) ELSE Abs(x)
  IN  /\ Same(y, got)
      /\ tab' = (s.id :> [r0 EXCEPT !.n = @ + 1, !.ins = WidenAll(qi, <<<<x>>>>), !.outs = WidenAll(qo, <<<<y>>>>)]) @@ tab
      /\ UNCHANGED <<imode, calls, vvars>>
(* the profile written at exit                                                        *)
Dump(recs) ==
  /\ Len(recs) = Cardinality(DOMAIN tab)
  /\ {recs[i].id : i \in 1..Len(recs)} = DOMAIN tab
  /\ \A i \in 1..Len(recs) :
       LET q == recs[i]
           t == tab[q.id]
       IN  /\ q.lib = t.lib /\ q.intr = t.intr /\ q.uf = t.uf /\ q.ud = t.ud /\ q.n = t.n
           /\ q.ops = t.ops /\ q.ins = t.ins /\ q.outs = t.outs
  /\ UNCHANGED <<fivars, vvars>>
=============================================================================
