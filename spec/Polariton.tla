------------------------------ MODULE Polariton ------------------------------
(* Coupled oscillators: one photon w and wells <<e, g2>> (energy, squared    *)
(* coupling).  Equation of motion with the diamagnetic term summed over all  *)
(* wells:  x^2 - w^2 = 4 w x^2 Sum_i g2_i / (e_i (x^2 - e_i^2)).             *)
(* Poly is that equation without denominators.                               *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE PartProd(_, _, _, _), PartSum(_, _, _)
(* product over wells other than skip of e (x^2 - e^2)                       *)
PartProd(ws, i, x, skip) ==
  IF i = 0 THEN 1 ELSE PartProd(ws, i - 1, x, skip) * (IF i = skip THEN 1 ELSE ws[i][1] * (x * x - ws[i][1] * ws[i][1]))
PartSum(ws, i, x) == IF i = 0 THEN 0 ELSE PartSum(ws, i - 1, x) + ws[i][2] * PartProd(ws, Len(ws), x, i)
Poly(w, ws, x) == (x * x - w * w) * PartProd(ws, Len(ws), x, 0) - 4 * w * x * x * PartSum(ws, Len(ws), x)
(* ascending merge; lists are energies                                       *)
RECURSIVE Ins(_, _), SortUp(_)
Ins(x, q) == IF q = <<>> THEN <<x>> ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Ins(x, Tail(q))
SortUp(q) == IF q = <<>> THEN <<>> ELSE Ins(Head(q), SortUp(Tail(q)))
Lowest(q, n) == SubSeq(SortUp(q), 1, IF n < Len(q) THEN n ELSE Len(q))
=============================================================================
