------------------------------ MODULE TruncEps --------------------------------
(* The permittivity a plane-wave basis can hold: the matrix eps(G - G') has  *)
(* one component for every difference of two basis vectors, no other.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Diff(B) == { <<p[1] - q[1], p[2] - q[2]>> : p \in B, q \in B }
Neg2(m) == <<-m[1], -m[2]>>
Mat(B, f(_)) == [p \in B |-> [q \in B |-> f(<<p[1] - q[1], p[2] - q[2]>>)]]
RectB(a, b) == { <<m, n>> : m \in -a..a, n \in -b..b }
(* quadrants of the differences that the block form stores *)
Q1(B) == { d \in Diff(B) : d[1] >= 0 /\ d[2] >= 0 }
Q2(B) == { d \in Diff(B) : d[1] >= 0 /\ d[2] <= 0 }
=============================================================================
