------------------------------- MODULE Folding -------------------------------
(* Bands of a structure without pattern: every reciprocal vector of the      *)
(* basis contributes the modes of the uniform slab at |k+G|; the bands are   *)
(* all of them in ascending order, with repetitions.                         *)
EXTENDS FieldLaws, SequencesExt
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Asc(q) == SortSeq(q, LAMBDA a, b : a < b)
RECURSIVE MergeIn(_, _)
MergeIn(x, q) == IF q = <<>> THEN <<x>> ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o MergeIn(x, Tail(q))
RECURSIVE MergeAll(_, _)
MergeAll(xs, q) == IF xs = <<>> THEN q ELSE MergeAll(Tail(xs), MergeIn(Head(xs), q))
=============================================================================
