-------------------------------- MODULE BzPath --------------------------------
(* Paths in the Brillouin zone.  Wave vectors are integers <<x, y>>: x in    *)
(* units of pi / 60, y in the same units for all lattices but the hexagonal  *)
(* one, where it is in units of pi / (60 sqrt 3), so that all conventional   *)
(* points are integers.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Names == {"g", "x", "m", "k", "gamma"}
(* conventional points; everything else is not defined for the lattice       *)
Point(lat, n) ==
  CASE n \in {"g", "gamma"} -> <<0, 0>>
    [] n = "x" /\ lat = "square" -> <<60, 0>>
    [] n = "m" /\ lat = "square" -> <<60, 60>>
    [] n = "m" /\ lat = "hexagonal" -> <<60, 60>>
    [] n = "k" /\ lat = "hexagonal" -> <<80, 0>>
    [] OTHER -> <<>>
(* a request: pts is a sequence of [name |-> n] or [name |-> "", p |-> <<x, y>>] *)
At(lat, pt) == IF pt.name = "" THEN pt.p ELSE Point(lat, pt.name)
Steps(r) == IF Len(r.ns) = 1 THEN [i \in 1..(Len(r.pts) - 1) |-> r.ns[1]] ELSE r.ns
Valid(r) == /\ Len(r.pts) >= 2
            /\ Len(r.ns) \in {1, Len(r.pts) - 1}
            /\ \A i \in DOMAIN r.pts : At(r.lat, r.pts[i]) # <<>>
            /\ At(r.lat, r.symm) # <<>>
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
(* index (from 0) at which point i is visited                                *)
Index(r, i) == Sum(Steps(r), i - 1)
NPoints(r) == Sum(Steps(r), Len(r.pts) - 1) + 1
(* segment of step c (from 0): the last whose start is not after it          *)
Seg(r, c) == CHOOSE i \in 1..(Len(r.pts) - 1) :
   Index(r, i) <= c /\ (c < Index(r, i + 1) \/ i = Len(r.pts) - 1)
(* wave vector at step c times the steps of its segment                      *)
KTimes(r, c) ==
  LET i == Seg(r, c)  n == Steps(r)[i]  a == At(r.lat, r.pts[i])  b == At(r.lat, r.pts[i + 1])
      j == c - Index(r, i)
  IN [d \in 1..2 |-> a[d] * n + (b[d] - a[d]) * j]
(* three times the square of the length of a segment                         *)
Len2(r, i) == LET a == At(r.lat, r.pts[i])  b == At(r.lat, r.pts[i + 1])
                  w == IF r.lat = "hexagonal" THEN 1 ELSE 3
              IN 3 * (b[1] - a[1]) * (b[1] - a[1]) + w * (b[2] - a[2]) * (b[2] - a[2])
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2
                          IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m)
ISqrt(n) == ISqrtB(n, 0, 46341)
Length(r, i) == ISqrt(1000 * Len2(r, i))
=============================================================================
