----------------------------- MODULE PolaritonMC -----------------------------
(* Wells are taken one by one, in any order, from a bag; the Hopfield matrix *)
(* of the wells taken so far is kept as its coefficients: the sum of the     *)
(* diamagnetic terms (over a common denominator) and the list of couplings.  *)
(* LASTD: the diamagnetic term of the last well replaces the others.         *)
EXTENDS Polariton
CONSTANTS LASTD
VARIABLES w, bag, taken, dn, dd
Wells == { <<1, 1>>, <<2, 3>>, <<2, 1>>, <<3, 2>> }
Bags == { b \in SUBSET Wells : Cardinality(b) \in 1..3 }
Init == w \in 1..3 /\ bag \in Bags /\ taken = <<>> /\ dn = 0 /\ dd = 1
(* D = Sum g2/e as the fraction dn/dd                                        *)
Take == \E x \in bag : /\ bag' = bag \ {x} /\ taken' = Append(taken, x) /\ w' = w
                       /\ IF LASTD THEN dn' = x[2] /\ dd' = x[1]
                          ELSE dn' = dn * x[1] + x[2] * dd /\ dd' = dd * x[1]
Next == Take
Spec == Init /\ [][Next]_<<w, bag, taken, dn, dd>>
(* determinant of the equations of motion with the D that was kept: *)
(* (x^2 - w^2 - 4 w D) P - 4 w Sum g2 e P/(x^2-e^2), times dd and   *)
(* Prod e, so that it can be compared with Poly                     *)
RECURSIVE P1(_, _, _, _), S1(_, _, _)
P1(ws, i, x, skip) == IF i = 0 THEN 1 ELSE P1(ws, i - 1, x, skip) * (IF i = skip THEN 1 ELSE x * x - ws[i][1] * ws[i][1])
S1(ws, i, x) == IF i = 0 THEN 0 ELSE S1(ws, i - 1, x) + ws[i][2] * ws[i][1] * P1(ws, Len(ws), x, i)
Det(x) == (dd * (x * x - w * w) - 4 * w * dn) * P1(taken, Len(taken), x, 0) - 4 * w * dd * S1(taken, Len(taken), x)
RECURSIVE ProdE(_, _)
ProdE(ws, i) == IF i = 0 THEN 1 ELSE ProdE(ws, i - 1) * ws[i][1]
XS == 0..4
Same == \A x \in XS : Det(x) * ProdE(taken, Len(taken)) = Poly(w, taken, x) * dd
(* a negative square of an energy needs a change of sign at x = 0: excluded  *)
Stable == LET s == IF Len(taken) % 2 = 0 THEN -1 ELSE 1 IN s * Det(0) > 0
(* two identical wells and one well of their joint strength                  *)
Joint == Len(taken) <= 2 => \A x \in XS : \A e \in 1..3 : \A g \in 1..3 :
  Poly(w, taken \o << <<e, g>>, <<e, g>> >>, x) = Poly(w, taken \o << <<e, 2 * g>> >>, x) * e * (x * x - e * e)
=============================================================================
