----------------------------- MODULE CfgCorrupt -----------------------------
(***************************************************************************)
(* Judges histories whose last event has been falsified (tools/corrupt.py) *)
(* one after another, and prints what it makes of them.  Where a contract  *)
(* cannot be evaluated TLC stops; the tool takes that for a rejection and  *)
(* starts again with the history after it.                                 *)
(***************************************************************************)
EXTENDS CfgTrace
FromT == atoi(IOEnv.START)
ToT == atoi(IOEnv.STOP)
CInit == /\ t = FromT
         /\ i = 0
         /\ s = [g |-> NoGrammar, lim |-> -1]
         /\ v = "ok"
Finished == i = Len(Traces[t].ev) \/ v \in {"bad", "stop"}
CNext == \/ ~Finished /\ Step
         \/ /\ Finished
            /\ PrintT(<<"JUDGED", t, v>>)
            /\ t < ToT
            /\ t' = t + 1 /\ i' = 0 /\ s' = [g |-> NoGrammar, lim |-> -1] /\ v' = "ok"
=============================================================================
