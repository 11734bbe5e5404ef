------------------------------ MODULE BasisTrace ------------------------------
(* Judges the basis sets of real simulation objects.  State: every set seen  *)
(* so far in this lattice, with its truncation, vectors and cutoff.          *)
EXTENDS Basis, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [seen |-> {}]
SetOf(e) == { <<e.ix[i][1], e.ix[i][2]>> : i \in DOMAIN e.ix }
After(st, e) == IF e.op = "sim" /\ e.ok
  THEN [seen |-> st.seen \cup {[tr |-> e.tr, g |-> e.g, gn |-> e.gn, set |-> SetOf(e)]}]
  ELSE st
Clauses(st, e) ==
  IF e.op # "sim" THEN <<>>
  ELSE IF ~e.ok THEN << <<"simulation-accepted", FALSE>> >>
  ELSE LET S == SetOf(e) IN
   << <<"dual-vectors", CloseV(e.dual, <<100000000, 0, 0, 100000000>>, 10)>>,
      <<"vectors-are-of-the-lattice", e.dev <= 100>>,
      <<"distinct", Len(e.ix) = Cardinality(S)>>,
      <<"contains-zero", <<0, 0>> \in S>>,
      <<"closed-under-inversion", \A m \in S : <<-m[1], -m[2]>> \in S>>,
      <<"complete-and-nothing-else", IF e.tr = "abs" THEN OkCircle(e.g, e.sd, e.gn, 10, S)
                                      ELSE OkRect(e.g, e.sd, e.gn, 10, S)>>,
      <<"same-for-every-kind", \A x \in st.seen :
           x.tr = e.tr /\ x.g = e.g /\ x.gn = e.gn => x.set = S>>,
      <<"larger-cutoff-keeps", \A x \in st.seen : x.tr = e.tr /\ x.g = e.g =>
           /\ x.gn <= e.gn => x.set \subseteq S
           /\ x.gn >= e.gn => S \subseteq x.set>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
