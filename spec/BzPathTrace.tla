----------------------------- MODULE BzPathTrace -----------------------------
(* Judges the paths real lattices return.  e.r is the request, e.k the wave  *)
(* vectors in the units of BzPath times 10^5, e.ki the positions * 10^4,     *)
(* e.cs cosine and sine of the angles * 10^4.                                *)
EXTENDS BzPath, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == 0
After(st, e) == st
Req(e) == [e.r EXCEPT !.symm = IF @.name = "default" THEN [name |-> "", p |-> <<60, 0>>] ELSE @]
(* (x, y) of an integer wave vector, in units where both are of equal length *)
AlongOk(r, k, cs) ==  \* k: integer vector (y of the lattice unit), times anything positive
  LET x == IF r.lat = "hexagonal" THEN (k[1] * 1732) \div 1000 ELSE k[1]
      y == k[2]
      n == AbsI(x) + AbsI(y)
  IN AbsI(x * cs[2] - y * cs[1]) <= 20 * n + 40000 /\ x * cs[1] + y * cs[2] >= 0
Clauses(st, e) ==
  LET r == Req(e)  v == Valid(r) IN
  IF ~e.ok THEN << <<"valid-request-accepted", ~v>> >>
  ELSE IF ~v THEN << <<"meaningless-request-rejected", FALSE>> >>
  ELSE IF Len(e.k) # NPoints(r) THEN << <<"number-of-points", FALSE>> >>
  ELSE LET N == Len(r.pts) IN
   << <<"finite", FinM(e.k) /\ FinM(e.cs)>>,
      <<"indexes", e.inds = [i \in 1..N |-> Index(r, i)]>>,
      <<"points-and-equal-steps", \A c \in DOMAIN e.k : \A d \in 1..2 :
           Fin(e.k[c][d]) /\ AbsI(e.k[c][d] - (100000 * KTimes(r, c - 1)[d]) \div Steps(r)[Seg(r, c - 1)]) <= 3>>,
      <<"labels", Len(e.labels) = N /\ \A i \in 1..N :
           IF r.pts[i].name # "" THEN e.labels[i].name = r.pts[i].name
           ELSE e.labels[i].name = "" /\ CloseV(e.labels[i].p, [d \in 1..2 |-> 100 * r.pts[i].p[d]], 54)>>,
      <<"positions", Len(e.ki) = N /\
           LET L == [i \in 1..(N - 1) |-> Length(r, i)]  all == Sum(L, N - 1) IN
           all = 0 \/ \A i \in 1..N : Fin(e.ki[i]) /\ AbsI(e.ki[i] * all - 10000 * Sum(L, i - 1)) <= 3 * all + 10000 * N>>,
      <<"angles", Len(e.cs) = NPoints(r) /\ \A c \in DOMAIN e.cs :
           LET k == KTimes(r, c - 1)
           IN IF k = <<0, 0>> THEN At(r.lat, r.symm) = <<0, 0>> \/
                  (FinV(e.cs[c]) /\ AlongOk(r, [d \in 1..2 |-> 10 * At(r.lat, r.symm)[d]], e.cs[c]))
              ELSE FinV(e.cs[c]) /\ AlongOk(r, k, e.cs[c])>>,
      <<"arguments-untouched", e.untouched>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
