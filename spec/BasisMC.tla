------------------------------- MODULE BasisMC -------------------------------
EXTENDS Basis
(* NARROW: indexes searched up to cutoff / |b_i| only, as if b1 and b2 were  *)
(* orthogonal                                                               *)
CONSTANT NARROW
VARIABLES g, gn, u
Grams == { <<16, 0, 16>>, <<16, 8, 16>>, <<16, 0, 9>>, <<16, -6, 10>>, <<20, 17, 17>>,
           <<16, 48, 160>> }
Us == { <<1, 0, 1, 1>>, <<1, 1, 0, 1>>, <<0, 1, 1, 0>>, <<-1, 0, 0, 1>>, <<2, 1, 1, 1>>, <<0, -1, 1, 0>> }
Init == g \in Grams /\ gn \in {0, 3, 10, 14, 20, 27} /\ u \in Us
Next == gn < 30 /\ gn' = gn + 3 /\ UNCHANGED <<g, u>>
Spec == Init /\ [][Next]_<<g, gn, u>>
C == IF NARROW THEN Circle(g, 16, gn, 10) \cap Rect(RectN(g, g[3], 16, gn, 10), RectN(g, g[1], 16, gn, 10))
     ELSE Circle(g, 16, gn, 10)
HasZero == <<0, 0>> \in C /\ <<0, 0>> \in Rect(RectN(g, g[3], 16, gn, 10), RectN(g, g[1], 16, gn, 10))
Inversion == \A m \in C : <<-m[1], -m[2]>> \in C
(* complete: no vector just outside the box is short *)
Complete == \A m \in { <<a, b>> : a \in -9..9, b \in -9..9 } :
  Cut(g, 16, gn, 10, m) <= 0 => m \in C
SameForEveryBasis == Circle(Rebased(g, u), 16, gn, 10) = { RebasedIx(m, u) : m \in C }
Accepts == OkCircle(g, 16, gn, 10, C)
Grows == [][Circle(g, 16, gn, 10) \subseteq Circle(g, 16, gn', 10)]_<<g, gn, u>>
=============================================================================
