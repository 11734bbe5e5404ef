------------------------------- MODULE Variation -------------------------------
(* Ordering of spectra.  An expansion is a compression of an operator to the *)
(* states of its basis, so that (Cauchy)                                     *)
(*   - with r more states, state n does not go up, and state n + r is not    *)
(*     below what state n was;                                               *)
(* and a larger operator has larger eigenvalues, so that (Weyl)              *)
(*   - a larger permittivity anywhere raises no plane-wave or slab mode,     *)
(*   - a deeper potential lowers no exciton, a heavier exciton is not higher,*)
(*   - a stronger coupling repels: what is below all excitons goes down,     *)
(*     what is above all of them goes up.                                    *)
(* Spectra are ascending sequences of integers.                              *)
EXTENDS Integers, Sequences
NotAbove(a, b, n, tol) == \A i \in 1..n : a[i] <= b[i] + tol
Nested(a, b, tol) ==        \* b: the larger basis
  LET r == Len(b) - Len(a) IN
  /\ r >= 0 /\ NotAbove(b, a, Len(a), tol)
  /\ \A i \in DOMAIN a : a[i] <= b[i + r] + tol
Common(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
Repelled(a, b, lo, hi, tol) ==
  \A i \in 1..Common(a, b) : /\ a[i] < lo => b[i] <= a[i] + tol
                             /\ a[i] > hi => b[i] >= a[i] - tol
(* The laws of the actions of an expansion                                   *)
Law(act, a, b, lo, hi, tol) ==
  CASE act \in {"modes", "waves"} -> Nested(a, b, tol)
    [] act \in {"eps", "thick", "mass"} -> NotAbove(b, a, Common(a, b), tol)
    [] act = "well" -> NotAbove(a, b, Common(a, b), tol)
    [] act = "coupling" -> Repelled(a, b, lo, hi, tol)
    [] act = "same" -> Len(a) = Len(b) /\ NotAbove(a, b, Len(a), tol) /\ NotAbove(b, a, Len(a), tol)
=============================================================================
