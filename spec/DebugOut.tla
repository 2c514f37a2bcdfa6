------------------------------ MODULE DebugOut ------------------------------
(* The verbose output of the IEEE backend: one record for each operation, in the      *)
(* order of execution, whose operator is the one executed and whose texts denote the  *)
(* operands and the result.                                                           *)
EXTENDS FP
VARIABLES mode,    \* [on, bin, norm, nl, name]
          pending  \* operations executed whose records have not been written
dvars == <<mode, pending>>
DInit == mode = [on |-> FALSE, bin |-> FALSE, norm |-> FALSE, nl |-> FALSE, name |-> FALSE] /\ pending = <<>>
Begin(m) == mode' = m /\ pending' = <<>>

(* ---- texts ------------------------------------------------------------------------ *)
(* binary: [k, s, lead, bits, x] is the number lead.bits times 2^x                      *)
RECURSIVE OfBits(_, _)
OfBits(bs, i) == IF i = 0 THEN <<>> ELSE BAdd(BShl(OfBits(bs, i - 1), 1), IF bs[i] = 1 THEN BOne ELSE <<>>)
BinNum(t) == LET b == <<t.lead>> \o t.bits IN Fin(t.s, t.x - Len(t.bits), OfBits(b, Len(b)))
Subnormal(f, v) == v.k = "n" /\ Top(v) < f.emin
BinDenotes(t, f, v) ==
  /\ t.k = v.k
  /\ (v.k # "q" => t.s = v.s)
  /\ (v.k = "z" => t.lead = 0 /\ \A i \in 1..Len(t.bits) : t.bits[i] = 0)
  /\ (v.k = "n" => /\ Same(BinNum(t), v)
                   /\ IF Subnormal(f, v) /\ ~mode.norm THEN t.lead = 0 /\ t.x = f.emin ELSE t.lead = 1)
(* decimal: [k, s, d, q] is the number d times 10^q, d of six digits                     *)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN BOne
          ELSE IF k % 2 = 1 THEN BMul(Ten(k - 1), <<10>>) ELSE LET h == Ten(k \div 2) IN BMul(h, h)
(* |v - d 10^q| <= 10^q / 2, all times 2 10^(-q) 2^(-e) where these make integers        *)
DecNear(d, q, v) ==
  LET up == IF q < 0 THEN Ten(-q) ELSE BOne
      unit == IF q > 0 THEN Ten(q) ELSE BOne
      x == BShl(BMul(v.m, up), 1 + Max2(v.e, 0))
      y == BShl(BMul(d, unit), 1 + Max2(-v.e, 0))
      h == BShl(unit, Max2(-v.e, 0))
  IN  IF BLeq(y, x) THEN BLeq(BSub(x, y), h) ELSE BLeq(BSub(y, x), h)
DecDenotes(t, v) ==
  /\ t.k = v.k
  /\ (v.k # "q" => t.s = v.s)
  /\ (v.k = "n" => t.six /\ DecNear(t.d, t.q, v))
Denotes(t, ty, v) == IF mode.bin THEN BinDenotes(t, Fmt(ty), v) ELSE DecDenotes(t, v)

(* ---- operations --------------------------------------------------------------------- *)
Sign == [add |-> "+", sub |-> "-", mul |-> "*", div |-> "/", cast |-> "(float)", fma |-> "fma"]
Pred == <<"FCMP_FALSE", "FCMP_OEQ", "FCMP_OGT", "FCMP_OGE", "FCMP_OLT", "FCMP_OLE", "FCMP_ONE", "FCMP_ORD",
          "FCMP_UNO", "FCMP_UEQ", "FCMP_UGT", "FCMP_UGE", "FCMP_ULT", "FCMP_ULE", "FCMP_UNE", "FCMP_TRUE">>
Do(op, t, a, b, c, r) ==
  /\ Same(Native(op, Fmt(t), a, b, c), r)
  /\ pending' = IF mode.on THEN Append(pending, [op |-> op, sign |-> Sign[op], t |-> t, a |-> a, b |-> b, c |-> c, r |-> r]) ELSE pending
  /\ UNCHANGED mode
DoCmp(p, t, a, b, r) ==
  /\ (r # 0) = Compare(p, a, b)
  /\ pending' = IF mode.on THEN Append(pending, [op |-> "cmp", sign |-> Pred[p + 1], t |-> t, a |-> a, b |-> b, c |-> NaN, r |-> r # 0]) ELSE pending
  /\ UNCHANGED mode

(* lines a record takes                                                                 *)
Lines(op) == IF mode.nl THEN (IF mode.name THEN 1 ELSE 0) + (CASE op = "fma" -> 4 [] op \in {"cmp", "cast"} -> 2 [] OTHER -> 3) + 1 ELSE 1
Texts(op) == CASE op = "fma" -> 4 [] op \in {"cmp", "cast"} -> 2 [] OTHER -> 3
(* a record: head "Binary", "Decimal" or ""; operator; texts; truth (comparisons)        *)
RecordOK(h, sign, ts, truth, lines) ==
  /\ pending # <<>>
  /\ LET o == Head(pending) IN
     /\ sign = o.sign
     /\ h = (IF ~mode.name THEN "" ELSE IF mode.bin THEN "Binary" ELSE "Decimal")
     /\ Len(ts) = Texts(o.op) /\ lines = Lines(o.op)
     /\ CASE o.op = "cmp" -> truth = o.r /\ Denotes(ts[1], o.t, o.a) /\ Denotes(ts[2], o.t, o.b)
          [] o.op = "cast" -> Denotes(ts[1], "d", o.a) /\ Denotes(ts[2], "f", o.r)
          [] o.op = "fma" -> Denotes(ts[1], o.t, o.a) /\ Denotes(ts[2], o.t, o.b) /\ Denotes(ts[3], o.t, o.c) /\ Denotes(ts[4], o.t, o.r)
          [] OTHER -> Denotes(ts[1], o.t, o.a) /\ Denotes(ts[2], o.t, o.b) /\ Denotes(ts[3], o.t, o.r)
Record(h, sign, ts, truth, lines) == (RecordOK(h, sign, ts, truth, lines) = TRUE) /\ pending' = Tail(pending) /\ UNCHANGED mode
End == pending = <<>> /\ UNCHANGED dvars
=============================================================================
