----------------------------- MODULE ExcitonTrace -----------------------------
(* Judges real exciton simulations: energies e.en in units of the kinetic    *)
(* energy of 2 pi / length unit, times KD^2.                                 *)
EXTENDS Exciton, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [lat |-> [i \in 1..4 |-> tr[1].v.s.lat[i] \div 5], ks |-> <<>>, cover |-> tr[1].cover,
              V |-> tr[1].V]
After(st, e) == IF e.op = "run" /\ e.ok THEN [st EXCEPT !.ks = e.ks] ELSE st
Clauses(st, e) ==
  IF e.op \in {"base", "end"} THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted:" \o e.op, FALSE>> >>
  ELSE CASE e.op = "run" ->
     << <<"as-many-as-asked", \A i \in DOMAIN e.en : Len(e.en[i]) = e.n>>,
        <<"ascending", \A i \in DOMAIN e.en : SortedV(e.en[i], 1)>>,
        <<"loss", \A i \in DOMAIN e.loss : Close(e.loss[i], e.loss0, 1)>> >> \o
     (IF st.cover = "no" THEN <<>>
      ELSE << <<"folded-kinetic-energies", \A i \in DOMAIN e.ks :
             LET fo == FoldedList(st.lat, e.ks[i], e.m, e.n)
                 up == IF st.cover = "all" THEN Covered(e.vkd) ELSE 0
             IN FinV(e.en[i]) /\ \A j \in 1..e.n : AbsI(e.en[i][j] - 10 * (fo[j] + up)) <= 40>> >>)
     [] OTHER ->
       [i \in DOMAIN e.pairs |->
          <<e.op \o ":" \o e.pairs[i].what, CloseV(e.pairs[i].a, e.pairs[i].b, e.pairs[i].tol)>>]
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
