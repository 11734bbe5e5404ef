----------------------------- MODULE TruncEpsMC -------------------------------
(* For every inversion symmetric basis in a small box: the differences are   *)
(* closed under inversion, contain zero and the basis; for parallelograms    *)
(* they are the doubled parallelogram, and two quadrants and their           *)
(* negatives hold all of them.  ONE quadrant does not (rejected variant).    *)
EXTENDS TruncEps
VARIABLES B
Half == { m \in (-2..2) \X (-2..2) : m[1] > 0 \/ (m[1] = 0 /\ m[2] > 0) }
Init == B = {<<0, 0>>}
Next == \E m \in Half : m \notin B /\ B' = B \cup {m, Neg2(m)}
Spec == Init /\ [][Next]_B
Small == Cardinality(B) <= 9
Closed == \A d \in Diff(B) : Neg2(d) \in Diff(B)
Holds == B \subseteq Diff(B) /\ <<0, 0>> \in Diff(B)
(* a real permittivity makes the matrix Hermitian: the entry at -d is fixed  *)
Half2 == \A d \in Diff(B) : \E p \in B, q \in B : <<p[1] - q[1], p[2] - q[2]>> = Neg2(d)
Rects == B # {} => \A a \in 0..2, b \in 0..2 :
  LET R == RectB(a, b) IN
  /\ Diff(R) = RectB(2 * a, 2 * b)
  /\ Q1(R) \cup Q2(R) \cup { Neg2(d) : d \in Q1(R) \cup Q2(R) } = Diff(R)
OneQuadrant == \A a \in 1..2, b \in 1..2 :
  LET R == RectB(a, b) IN B # {} => Q1(R) \cup { Neg2(d) : d \in Q1(R) } = Diff(R)
=============================================================================
