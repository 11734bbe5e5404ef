------------------------------ MODULE TraceLoop ------------------------------
(* Total verdicts over recorded traces.  The instantiating module gives      *)
(*   S0(t)          the abstract state in which recorded trace t starts      *)
(*   Clauses(s, e)  a sequence of <<name, holds>>: what event e must satisfy *)
(*                  when it happens in abstract state s                      *)
(*   Step(s, e)     the abstract state after e (the action of the design)    *)
(* Every event is consumed; every violated clause is reported by name.       *)
EXTENDS Fix, Json, IOUtils, SequencesExt

CONSTANTS S0(_), Clauses(_, _), Step(_, _)
VARIABLES t, l, s, bad

(* read once, kept in a TLC register *)
Input == TLCGet(77)
Consts == TLCGet(77).consts
Traces == Input.traces
Total == SumSeq([i \in DOMAIN Traces |-> Len(Traces[i])])

TInit == /\ TLCSet(77, JsonDeserialize(IOEnv.TRACE))
         /\ t = 1 /\ l = 1 /\ s = S0(Traces[1]) /\ bad = <<>>

Consume ==
  /\ t <= Len(Traces) /\ l <= Len(Traces[t])
  /\ LET e == Traces[t][l]
         b == Broken(Clauses(s, e))
     IN /\ bad' = bad \o SetToSeq({ [trace |-> t, event |-> l, clause |-> c] : c \in b })
        /\ s' = Step(s, e)
        /\ l' = l + 1
        /\ t' = t

NextTrace ==
  /\ t < Len(Traces) /\ l > Len(Traces[t])
  /\ t' = t + 1 /\ l' = 1 /\ s' = S0(Traces[t+1]) /\ bad' = bad

Finish ==
  /\ t = Len(Traces) /\ l > Len(Traces[t])
  /\ JsonSerialize(IOEnv.VERDICT, <<[events |-> Total, bad |-> bad]>>)
  /\ t' = t + 1 /\ UNCHANGED <<l, s, bad>>

TNext == Consume \/ NextTrace \/ Finish
TSpec == TInit /\ [][TNext]_<<t, l, s, bad>>
=============================================================================
