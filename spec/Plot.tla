--------------------------------- MODULE Plot ---------------------------------
EXTENDS Integers, Sequences
(* Drawings of results.  A band drawing is a bag of points <<x, y, c>>; an   *)
(* image is a table of values with a frame.  Results are looked at only.     *)
(* ks: wave vectors as integers; len: integer lengths of the steps between   *)
(* them; positions along the axis in 1e-6.                                   *)
RECURSIVE UpTo(_, _)
UpTo(len, n) == IF n = 0 THEN 0 ELSE len[n] + UpTo(len, n - 1)
AtX(len, nk, units, i) ==
  IF ~units THEN 1000000 * (i - 1)
  ELSE IF UpTo(len, nk - 1) = 0 THEN 0
  ELSE (1000000 * UpTo(len, i - 1)) \div UpTo(len, nk - 1)
AbsP(x) == IF x < 0 THEN -x ELSE x
NearP(a, b, tol) == IF (a >= 0) = (b >= 0) THEN AbsP(a - b) <= tol ELSE AbsP(a) <= tol /\ AbsP(b) <= tol - AbsP(a)
(* val[i][n], col[i][n]: value and colour of state n at position i; colours  *)
(* are compared only where some state has one (col = 0: no colour asked for) *)
Shown(pts, x, y, c, ty, tc) == \E j \in DOMAIN pts : NearP(pts[j][1], x, 3) /\ NearP(pts[j][2], y, ty) /\ NearP(pts[j][3], c, tc)
RECURSIVE Count(_, _)
Count(val, i) == IF i = 0 THEN 0 ELSE Len(val[i]) + Count(val, i - 1)
AllShown(pts, X(_), val, col, ty, tc) ==
  \A i \in DOMAIN val : \A n \in DOMAIN val[i] : Shown(pts, X(i), val[i][n], col[i][n], ty, tc)
NothingElse(pts, X(_), val, col, ty, tc) ==
  \A j \in DOMAIN pts : \E i \in DOMAIN val : \E n \in DOMAIN val[i] :
     NearP(pts[j][1], X(i), 3) /\ NearP(pts[j][2], val[i][n], ty) /\ NearP(pts[j][3], col[i][n], tc)
OncePerState(pts, val) == Len(pts) = Count(val, Len(val))
=============================================================================
