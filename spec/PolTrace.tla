------------------------------- MODULE PolTrace -------------------------------
(* Judges real polariton runs.  e: energies * 10^8 (eV), im: imaginary parts *)
(* * 10^9, fe, fp fractions * 10^6, ph photon energies, ex exciton energies  *)
(* well by well (asc in a well), exat[i]: those of the well with number i,   *)
(* ce, ci: energies and losses of the coupled oscillators, n photons.        *)
(* what: plain, order (another order of photon modes asked for and of        *)
(* wells), dark (no strength), split (well at divided in m), off (no         *)
(* strength in well at).                                                     *)
EXTENDS Polariton, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [ref |-> <<>>]
After(st, e) == IF e.op = "run" /\ e.ok /\ st.ref = <<>> THEN [ref |-> <<e>>] ELSE st
ETol == 300
Sum1(e) == \A i \in DOMAIN e.e : Close(e.fe[i] + e.fp[i], 1000000, 20)
Up(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Count(e) == Len(e.e) = Len(e.ph) + Len(e.ex) - 1
(* energies that are not shared with another one, for comparing fractions    *)
Alone(q, i) == \A j \in DOMAIN q : j # i => AbsI(q[j] - q[i]) > 20000
InS(x, q, tol) == \E i \in DOMAIN q : Close(x, q[i], tol)
Pure(e) ==
  LET all == SortUp(e.ph \o e.ex) IN
  /\ \A i \in DOMAIN e.e : Close(e.e[i], all[i], 2 * ETol)
  /\ \A i \in DOMAIN e.e :
       LET p == InS(e.e[i], e.ph, 20000)  x == InS(e.e[i], e.ex, 20000) IN
       (p /\ ~x => e.fp[i] >= 999990) /\ (x /\ ~p => e.fe[i] >= 999990)
Oscillators(e) == Len(e.ce) = Len(e.e) + 1 /\ \A i \in DOMAIN e.e : Close(e.e[i], e.ce[i], e.tol)
OscLoss(e) == \A i \in DOMAIN e.e : Alone(e.ce, i) => Close(e.im[i], e.ci[i], 300 + AbsI(e.ci[i]) \div 5000)
SameE(a, b) == Len(a.e) = Len(b.e) /\ \A i \in DOMAIN a.e : Close(a.e[i], b.e[i], a.tol)
SameF(a, b) == Len(a.e) = Len(b.e) /\ \A i \in DOMAIN a.e : Alone(b.ce, i) => Close(a.fe[i], b.fe[i], 2000) /\ Close(a.fp[i], b.fp[i], 2000) /\ Close(a.im[i], b.im[i], 300 + AbsI(b.im[i]) \div 5000)
(* the (m - 1) copies of the excitons of the divided well are dark           *)
RECURSIVE Copies(_, _)
Copies(q, n) == IF n = 0 THEN <<>> ELSE q \o Copies(q, n - 1)
Split(a, b) ==
  LET dark == Copies(b.exat[a.at], a.m - 1)  all == SortUp(b.e \o dark)
      n == Cardinality({ i \in DOMAIN all : all[i] < b.e[Len(b.e)] - 1000 }) IN
  Len(a.e) = Len(b.e) + Len(dark) /\ \A i \in 1..n : Close(a.e[i], all[i], a.tol)
(* the classical dispersion of a slab with a sheet of oscillators changes    *)
(* sign between neighbouring points around every polariton                   *)
Clauses(st, e) ==
  IF e.op = "base" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE << <<"finite", FinV(e.e) /\ FinV(e.im) /\ FinV(e.fe) /\ FinV(e.fp)>>,
          <<"fractions-add-up", Sum1(e)>>, <<"ascending", Up(e.e)>>, <<"number", Count(e)>>,
          <<"coupled-oscillators", Oscillators(e)>>, <<"losses-of-the-oscillators", OscLoss(e)>>,
          <<"no-gain", \A i \in DOMAIN e.im : e.im[i] >= -300 - e.tol>>,
          <<"pure-without-strength", e.what = "dark" => Pure(e)>>,
          <<"order-of-wells", st.ref # <<>> /\ e.what \in {"plain", "order"} => SameE(e, st.ref[1]) /\ SameF(e, st.ref[1])>>,
          <<"identical-wells", st.ref # <<>> /\ e.what = "split" => Split(e, st.ref[1])>>,
          <<"sheet-splitting", \A i \in DOMAIN e.sheet : Close(e.sheet[i][1], e.sheet[i][2], 20 + e.sheet[i][2] \div 100)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
