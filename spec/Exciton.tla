------------------------------- MODULE Exciton -------------------------------
(* The potential of excitons in a layer and the free motion.                 *)
(* A pattern is a sequence of sets of cells of a small periodic ring; the    *)
(* potential is V inside every part.  A negative potential is referred to    *)
(* its bottom: when its mean is negative all of it is raised by |V|.         *)
EXTENDS FieldLaws
AbsE(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Raw(N, parts, V, x) == V * Cardinality({ i \in DOMAIN parts : x \in parts[i] })
Mean(N, parts, V) == SumS([x \in 1..N |-> Raw(N, parts, V, x - 1)])
Pot(N, parts, V) ==
  [x \in 0..(N - 1) |-> Raw(N, parts, V, x) + IF Mean(N, parts, V) < 0 THEN AbsE(V) ELSE 0]
Moved(N, parts, d) == [i \in DOMAIN parts |-> { (x + d) % N : x \in parts[i] }]
(* energy shift of a layer that is covered by one shape, in units of V       *)
Covered(V) == IF V > 0 THEN V ELSE 0
(* the free energies in units of (hbar 2 pi)^2 / 2 M a^2, times KD^2         *)
FoldedList(lat, k, m, n) == SubSeq(SortSeq([g \in DOMAIN m |-> Kap2(lat, k, m[g])], <), 1, n)
=============================================================================
