---------------------------- MODULE TruncEpsTrace -----------------------------
(* Judges what real simulations report of the permittivity: the Fourier      *)
(* components found in the map they show (over m, all components of the      *)
(* differences and some more), and D against eps convolved with E.           *)
EXTENDS TruncEps, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [B |-> {}]
After(st, e) == IF e.op = "base" /\ e.ok THEN [B |-> { <<e.ix[i][1], e.ix[i][2]>> : i \in DOMAIN e.ix }] ELSE st
C(e, i) == <<e.re[i], e.im[i]>>
Clauses(st, e) ==
  IF e.op = "end" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted:" \o e.op, FALSE>> >>
  ELSE IF e.op = "base" THEN <<>>
  ELSE IF e.op = "map" THEN
    LET Ms == { <<e.m[i][1], e.m[i][2]>> : i \in DOMAIN e.m }  Df == Diff(st.B) IN
    << <<"all-components-looked-at", Df \subseteq Ms>>,
       <<"component-of-the-structure", FinV(e.re) /\ FinV(e.im) /\ \A i \in DOMAIN e.m :
           <<e.m[i][1], e.m[i][2]>> \in Df =>
             Close(e.re[i], e.sre[i], 100) /\ Close(e.im[i], e.sim[i], 100)>>,
       <<"nothing-beyond-the-basis", \A i \in DOMAIN e.m :
           <<e.m[i][1], e.m[i][2]>> \notin Df => Close(e.re[i], 0, 100) /\ Close(e.im[i], 0, 100)>>,
       <<"average", \A i \in DOMAIN e.m : e.m[i] = <<0, 0>> => Close(e.re[i], e.avg, 100)>>,
       <<"residue", e.res <= 100>> >>
  ELSE
    << <<"D-is-eps-E", CloseV(e.d, e.ee, 60)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
