----------------------------- MODULE RoutesTrace -----------------------------
(* Judges the answers real simulations give by different numerical routes    *)
(* against the plainest route.  An event: r the route (and h, the spacing of *)
(* the table), bad: k-points where a guided mode has its cutoff next to a    *)
(* point of the table; res per k-point: fr frequencies * 10^8, fi losses     *)
(* * 10^9, md intensities * 10^7 (0 for modes in a degenerate group), lab    *)
(* labels, q the answers to a few questions * 10^6.                          *)
EXTENDS Routes, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [ref |-> <<>>]
After(st, e) == IF e.op = "run" /\ st.ref = <<>> /\ e.ok THEN [ref |-> e.res] ELSE st
Coarse(e) == e.r.gc = "interp"
Judged(e) == { i \in DOMAIN e.res : ~(Coarse(e) /\ e.cut[i]) }
(* shift of a mode by the accuracy of the table changes the others by        *)
(* tol / distance to the neighbour, included in the driver's mask            *)
LTol(e, x) == IF Coarse(e) THEN 2000 + (AbsI(x) \div 20) ELSE 200
MTol(e) == IF Coarse(e) THEN 500000 ELSE 5000
SameF(e, a, b) == Len(a) = Len(b) /\ FinV(a) /\ FinV(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], FTol(e.r, b[i]))
SameL(e, a, b) == Len(a) = Len(b) /\ FinV(a) /\ FinV(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], LTol(e, b[i]))
SameM(e, a, b) == Len(a) = Len(b) /\ FinV(a) /\ FinV(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], MTol(e))
Clauses(st, e) ==
  IF e.op = "base" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE IF st.ref = <<>> THEN <<>>
  ELSE << <<"k-points", Len(e.res) = Len(st.ref)>>,
          <<"frequencies", \A i \in Judged(e) : SameF(e, e.res[i].fr, st.ref[i].fr)>>,
          <<"losses", \A i \in Judged(e) : SameL(e, e.res[i].fi, st.ref[i].fi)>>,
          <<"labels", \A i \in Judged(e) : e.res[i].lab = st.ref[i].lab>>,
          <<"intensities", \A i \in Judged(e) : SameM(e, e.res[i].md, st.ref[i].md)>>,
          <<"questions", \A i \in Judged(e) : SameM(e, e.res[i].q, st.ref[i].q)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
