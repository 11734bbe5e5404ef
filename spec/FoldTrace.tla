------------------------------- MODULE FoldTrace -------------------------------
(* Judges runs of real guided-mode expansions without pattern.  Per k-point: *)
(* f: frequencies * 10^8; im: imaginary parts * 10^9; g: indexes of the      *)
(* basis; tab: modes of the uniform slab (independent of legume) for every   *)
(* |k+G|^2: [k2, te, tm] (10^8, only the orders asked for), sure: no mode at *)
(* the edge of the guided range or too close to another; fields: [i, H] of   *)
(* single modes over the basis (10^5 relative).                              *)
EXTENDS Folding, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == tr[1]
After(st, e) == st
Lat(st) == [i \in 1..4 |-> st.v.s.lat[i] \div 5]
Row(x, lat, m) == LET q == Kap2(lat, x.k, m) IN CHOOSE i \in DOMAIN x.tab : x.tab[i].k2 = q
Known(x, lat) == \A i \in DOMAIN x.g : \E j \in DOMAIN x.tab : x.tab[j].k2 = Kap2(lat, x.k, x.g[i])
(* at k+G = 0 the static modes may be counted or not                          *)
Moving(q) == SelectSeq(q, LAMBDA a : a > 10000)
Expect(x, lat) == Moving(Asc(Cat([i \in DOMAIN x.g |-> LET r == x.tab[Row(x, lat, x.g[i])] IN r.te \o r.tm])))
Zeros(x, lat) == IF \E i \in DOMAIN x.g : Kap2(lat, x.k, x.g[i]) = 0 THEN 2 ELSE 0
FTol(a, x) == 20 + (IF a < 300000 THEN 4000 ELSE 0)
Near(a, q, tol) == \E i \in DOMAIN q : Close(a, q[i], tol)
Zero6(h) == \A i \in 1..6 : AbsI(h[i]) <= 3
(* TE: H in the plane of k+G and z; TM: H along the third direction          *)
IsTE(kap, h) == Close(kap[1] * h[3], kap[2] * h[1], 5 * (AbsL(kap[1]) + AbsL(kap[2]))) /\ Close(kap[1] * h[4], kap[2] * h[2], 5 * (AbsL(kap[1]) + AbsL(kap[2])))
IsTM(kap, h) == /\ Close(kap[1] * h[1], -kap[2] * h[3], 5 * (AbsL(kap[1]) + AbsL(kap[2]))) /\ Close(kap[1] * h[2], -kap[2] * h[4], 5 * (AbsL(kap[1]) + AbsL(kap[2])))
                /\ AbsI(h[5]) <= 5 /\ AbsI(h[6]) <= 5
Pure(x, lat, y) ==
  LET on == { i \in DOMAIN x.g : ~Zero6(y.H[i]) }  f == x.f[y.i] IN
  \A i \in on : /\ Cardinality(on) = 1
                /\ LET r == x.tab[Row(x, lat, x.g[i])]  kap == Kap(lat, x.k, x.g[i]) IN
                   \/ Near(f, r.te, FTol(f, x)) /\ IsTE(kap, y.H[i])
                   \/ Near(f, r.tm, FTol(f, x)) /\ IsTM(kap, y.H[i])
At(x, lat, n) ==
  LET fin == FinV(x.f) /\ FinV(x.im)  ex == Expect(x, lat)  mv == Moving(x.f) IN
  << <<"finite", fin>>,
     <<"table-covers-the-basis", Known(x, lat)>>,
     <<"number-of-modes", x.sure /\ x.all => Len(mv) = Len(ex) /\ Len(x.f) - Len(mv) <= Zeros(x, lat)>>,
     <<"bands-are-the-folded-slab-modes", fin /\ x.sure => Len(mv) <= Len(ex) /\ \A i \in DOMAIN mv : Close(mv[i], ex[i], FTol(ex[i], x))>>,
     <<"nothing-radiates", \A i \in DOMAIN x.im : x.f[i] < 300000 \/ AbsI(x.im[i]) <= 1>>,
     <<"modes-are-pure", fin /\ x.sure => \A i \in DOMAIN x.fields : FinM(x.fields[i].H) /\ Pure(x, lat, x.fields[i])>> >>
Clauses(st, e) ==
  IF e.op = "base" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE At(e.at[1], Lat(st), 1) \o At(e.at[2], Lat(st), 2)
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
