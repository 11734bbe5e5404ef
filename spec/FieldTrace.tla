------------------------------ MODULE FieldTrace ------------------------------
(* Judges recorded fields of real simulations by the laws of FieldLaws.      *)
(* hs is the unit of the recorded components, w... are multiplied by KD *    *)
(* frequency, sgn is -1 where fields go with exp(+i omega t), d... are      *)
(* derivatives along z times KD / 2 pi.                                      *)
EXTENDS FieldLaws, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [lat |-> [i \in 1..4 |-> tr[1].v.s.lat[i] \div 5], ks |-> <<>>,
              eps |-> tr[1].v.s.layers[1].eps]
After(st, e) == IF e.op = "run" /\ e.ok THEN [st EXCEPT !.ks = e.ks] ELSE st

FinF(F) == \A i \in DOMAIN F : FinV(F[i])
(* rounding of the products *)
Tol(st) == 2 * KD(st.lat) + 4000
Max6(F) == CHOOSE x \in { AbsI(F[i]) : i \in 1..6 } : \A i \in 1..6 : AbsI(F[i]) <= x
CurlOk(st, k, m, F, dF, wG, sgn) ==
  \A g \in DOMAIN m :
    LET c == ICurl(Kap(st.lat, k, m[g]), F[g], dF[g])
    IN \A i \in 1..6 : AbsI(sgn * c[i] - wG[g][i]) <= 3 * Tol(st) + Max6(c) \div 20000
DivOk(st, k, m, F, dF) ==
  \A g \in DOMAIN m :
    LET c == NIDiv(Kap(st.lat, k, m[g]), F[g], dF[g]) IN \A i \in 1..2 : AbsI(c[i]) <= 4 * Tol(st)
Zero(F) == [g \in DOMAIN F |-> <<0, 0, 0, 0, 0, 0>>]

(* energies, components in units of 1e-4 *)
RECURSIVE Energy(_, _, _)
Energy(F, G, g) == IF g > Len(F) THEN 0
                   ELSE LET f == [i \in 1..6 |-> F[g][i] \div 10]  q == [i \in 1..6 |-> G[g][i] \div 10]
                        IN Dot6(f, q)[1] + Energy(F, G, g + 1)

(* bands of a uniform medium: f^2 eps KD^2 over the sorted list of |k+G|^2   *)
Folded(st, k, m, n) ==
  SubSeq(SortSeq([g \in DOMAIN m |-> Kap2(st.lat, k, m[g])], <), 1, n)

Clauses(st, e) ==
  IF e.op \in {"base", "end"} THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted:" \o e.op, FALSE>> >>
  ELSE CASE e.op = "run" ->
       (IF ~e.uniform THEN <<>>
        ELSE << <<"folded-light-lines", \A i \in DOMAIN e.ks :
                 LET fo == Folded(st, e.ks[i], e.m, Len(e.f2[i]))
                 IN Len(fo) = Len(e.f2[i]) /\
                    \A j \in DOMAIN fo : AbsI(e.f2[i][j] - 10 * fo[j]) <= 20>> >>)
     [] e.op = "ft" ->
       (IF ~(FinF(e.H) /\ FinF(e.D) /\ FinF(e.wD) /\ FinF(e.dH) /\ FinF(e.dD) /\ FinF(e.E) /\ FinF(e.wH) /\ FinF(e.epsE) /\ FinF(e.D7))
        THEN << <<"finite", FALSE>> >>
        ELSE LET k == st.ks[e.kind + 1] IN
        << <<"D-is-curl-of-H", CurlOk(st, k, e.m, e.H, e.dH, e.wD, e.sgn)>>,
           <<"H-has-no-divergence", DivOk(st, k, e.m, e.H, e.dH)>>,
           <<"D-has-no-divergence", DivOk(st, k, e.m, e.D, e.dD)>>,
           <<"D-is-eps-E", CloseM(e.D7, e.epsE, 40)>>,
           <<"H-is-curl-of-E", ~e.faraday \/ CurlOk(st, k, e.m, e.E, Zero(e.E), e.wH, -1)>>,
           <<"unit-H", ~e.faraday \/ Close(Energy(e.H, e.H, 1), 100000000, 300000)>>,
           <<"unit-ED", ~e.faraday \/ Close(Energy(e.E, e.D, 1), 100000000, 300000)>>,
           <<"k-as-requested", e.kk = k>> >>)
     [] OTHER ->
       (* pairs of observations that have to be equal *)
       [i \in DOMAIN e.pairs |->
          <<e.op \o ":" \o e.pairs[i].what, CloseV(e.pairs[i].a, e.pairs[i].b, e.pairs[i].tol)>>]
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
