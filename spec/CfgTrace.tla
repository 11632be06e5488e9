------------------------------ MODULE CfgTrace ------------------------------
(***************************************************************************)
(* Trace validation: every history recorded from the implementation must   *)
(* be a behaviour of the session state machine, each of whose steps is     *)
(* constrained by the contract of the property under check.                *)
(***************************************************************************)
EXTENDS CfgAll, Json, IOUtils

Prop == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACES)
NoGrammar == [n |-> 0, rules |-> <<>>, roots |-> <<>>, wr |-> <<>>]

VARIABLES t,    \* number of the history
          i,    \* events consumed
          s,    \* state of the session
          v     \* verdict on the last event: "ok", "known", "bad", or "stop": another property's business
vars == <<t, i, s, v>>

Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ s = [g |-> NoGrammar, lim |-> -1]
        /\ v = "ok"

NextState(st, ev) ==
  [g |-> IF Has(ev, "post") THEN ev.post ELSE st.g,
   lim |-> CASE ev.op = "init" -> -1
             [] ev.op = "limit" -> ev.k
             [] ev.op = "elim" -> 2
             [] OTHER -> st.lim]

\* a grammar whose rules and roots only mention symbols it has handed out
WellFormed(g) == /\ \A k \in 1..Len(g.rules) : g.rules[k].l < g.n /\ \A j \in 1..Len(g.rules[k].r) : g.rules[k].r[j] < g.n
                 /\ \A k \in 1..Len(g.roots) : g.roots[k] < g.n
                 /\ \A k \in 1..Len(g.wr) : \A j \in 1..4 : g.wr[k][j] < g.n

Verdict(st, ev) ==
  IF ev.op \in {"panic", "hang"}
  THEN IF ev.of \in OpsOf(Prop) THEN "bad" ELSE "stop"
  ELSE IF Has(ev, "post") /\ ~WellFormed(ev.post)
  THEN IF ev.op \in OpsOf(Prop) THEN "bad" ELSE "stop"
  ELSE IF Contract(Prop, st, ev) THEN "ok"
  ELSE IF KnownDeviation(Prop, st, ev) THEN "known" ELSE "bad"

Step == /\ i < Len(Traces[t].ev)
        /\ v \notin {"bad", "stop"}
        /\ LET ev == Traces[t].ev[i+1] IN
           /\ v' = Verdict(s, ev)
           /\ s' = IF ev.op \in {"panic", "hang"} THEN s ELSE NextState(s, ev)
           /\ (v' = "known" => PrintT(<<"KNOWN", Traces[t].id, i + 1>>))
        /\ i' = i + 1
        /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars

\* every recorded step satisfies the property
Conforms == v # "bad"
Alias == [t |-> t, id |-> Traces[t].id, i |-> i, v |-> v]
=============================================================================
