------------------------------- MODULE Ddebug -------------------------------
(* Delta-debug filters: the call sites of a program and which of them reach    *)
(* the backends.  A list is [given, ok, sites]: was it given, does every line  *)
(* parse, the sites its lines name.                                             *)
EXTENDS FP, Sequences, FiniteSets

VARIABLES inc, exc, gen, up, seen
dvars == <<inc, exc, gen, up, seen>>
NoList == [given |-> FALSE, ok |-> TRUE, sites |-> {}]
DdebugInit == inc = NoList /\ exc = NoList /\ gen = FALSE /\ up = FALSE /\ seen = {}

(* does an operation at the site go to the backends? *)
Filter(s) == IF exc.given /\ s \in exc.sites THEN FALSE
             ELSE IF inc.given THEN s \in inc.sites ELSE TRUE
Refused(i, e, g) == (i.given /\ g) \/ (i.given /\ ~i.ok) \/ (e.given /\ ~e.ok)

Start(i, e, g, started) ==
  /\ started = ~Refused(i, e, g)
  /\ inc' = i /\ exc' = e /\ gen' = g /\ up' = started /\ seen' = {}
(* an operation executed at a site: its lanes, the calls the backend received, the results the program got *)
Exec(s, op, t, lanes, calls, res) ==
  /\ up
  /\ Len(res) = Len(lanes)
  /\ IF Filter(s)
     THEN /\ Len(calls) = Len(lanes)
          /\ \A k \in 1..Len(lanes) :
               /\ calls[k].op = op /\ Len(calls[k].a) = Len(lanes[k])
               /\ \A j \in 1..Len(lanes[k]) : Same(calls[k].a[j], lanes[k][j])
               /\ Same(calls[k].r, res[k])
     ELSE /\ calls = <<>>
          /\ \A k \in 1..Len(lanes) :
               LET l == lanes[k] IN Same(res[k], Native(op, Fmt(t), l[1], l[2], IF Len(l) = 3 THEN l[3] ELSE Zero(0)))
  /\ seen' = IF Filter(s) THEN seen \cup {s} ELSE seen
  /\ UNCHANGED <<inc, exc, gen, up>>
(* the end: in generation mode the file holds the sites that went to the backends, each once *)
End(file) ==
  /\ up
  /\ gen => /\ Len(file) = Cardinality(seen)
            /\ {file[k] : k \in 1..Len(file)} = seen
  /\ up' = FALSE /\ UNCHANGED <<inc, exc, gen, seen>>
=============================================================================
