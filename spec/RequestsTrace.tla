---------------------------- MODULE RequestsTrace ----------------------------
(* Judges recorded histories of requests: each accepted or refused as        *)
(* Requests.tla says, results of accepted ones as those of a new object      *)
(* (ref), structures as built from the accepted requests alone.              *)
EXTENDS Requests, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Blank == [kind |-> "", tr |-> "", eff |-> FALSE, ran |-> <<>>]
Start(tr) == [o |-> <<Blank, Blank>>, s |-> Empty]
After(st, e) ==
  CASE e.op = "new" -> IF NewOk(e) THEN [st EXCEPT !.o[e.i] = [kind |-> e.kind, tr |-> e.tr, eff |-> FALSE, ran |-> <<>>]] ELSE st
    [] e.op = "eff" -> [st EXCEPT !.o[e.i].eff = TRUE]
    [] e.op = "run" -> [st EXCEPT !.o[e.i].ran = IF RunOk(st.o[e.i], e) THEN <<e>> ELSE <<0, 0>>]
    [] e.op = "build" -> [st EXCEPT !.s = Built(@, e)]
    [] OTHER -> st
Verdict(ok, legal) == IF legal THEN <<"legal-accepted", ok>> ELSE <<"illegal-refused", ~ok>>
Same(e) == <<"as-a-new-object", Len(e.res) = Len(e.ref) /\ CloseV(e.res, e.ref, 30)>>
Clauses(st, e) ==
  CASE e.op = "new" -> << Verdict(e.ok, NewOk(e)), <<"starts-without-results", e.ok => e.empty>> >>
    [] e.op = "run" -> LET y == RunOk(st.o[e.i], e) IN << Verdict(e.ok, y), <<"arguments-untouched", e.same>> >> \o (IF y /\ e.ok THEN << Same(e), <<"number-of-modes", e.nm = e.ne>> >> ELSE <<>>)
    [] e.op = "query" -> LET y == QueryOk(st.o[e.i], e) IN << Verdict(e.ok, y), <<"results-untouched", e.kept>> >> \o (IF y /\ e.ok THEN << Same(e) >> ELSE <<>>)
    [] e.op = "build" -> LET n == Built(st.s, e) IN
         << Verdict(e.ok, BuildOk(st.s, e)),
            <<"structure-of-accepted-requests", e.on = n.n /\ e.osh = n.sh /\ e.oclad = n.clad /\ e.oqw = n.qw>>,
            <<"backend-of-accepted-requests", e.obk = n.bk>> >>
    [] OTHER -> << <<"accepted", e.ok>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
