----------------------------- MODULE FieldLawsMC -----------------------------
(* The operators really are curl and divergence: for plane waves with every  *)
(* small wave vector and polarisation, the curl has no divergence, twice     *)
(* i curl is k (k.F) - k^2 F, and the curl is self-adjoint.  WRONG = 1 is a  *)
(* wrong sign of the z-derivative, which has to be noticed.                  *)
EXTENDS FieldLaws
CONSTANT WRONG
VARIABLES kap, F, G, n
V == {-1, 0, 2}
(* derivative along z of a wave exp(i kz z) *)
Dz(kz, X) == << -kz * X[2], kz * X[1], -kz * X[4], kz * X[3], -kz * X[6], kz * X[5] >>
C(X) == ICurl(kap, X, [i \in 1..6 |-> (1 - 2 * WRONG) * Dz(kap[3], X)[i]])
D(X) == NIDiv(kap, X, Dz(kap[3], X))
Init == /\ kap \in [1..3 -> {-1, 0, 1, 2}]
        /\ F = [i \in 1..6 |-> 0] /\ G = [i \in 1..6 |-> 0] /\ n = 1
Next == n <= 6 /\ n' = n + 1 /\ UNCHANGED kap
        /\ \E a \in V : F' = [F EXCEPT ![n] = a] /\ G' = [G EXCEPT ![7 - n] = 1 - a * a]
Spec == Init /\ [][Next]_<<kap, F, G, n>>
NoDiv == D(C(F)) = <<0, 0>>
kdotF == D(F)
Twice == LET cc == C(C(F))  k2 == Sq2(kap[1]) + Sq2(kap[2]) + Sq2(kap[3])
         IN \A c \in 1..3 : \A p \in 1..2 :
              cc[2 * c - 2 + p] = kap[c] * kdotF[p] - k2 * F[2 * c - 2 + p]
Adjoint == LET a == Dot6(G, C(F))  b == Dot6(C(G), F) IN a = <<-b[1], -b[2]>>
(* wave vectors: inverse of the lattice *)
Lats == { <<12, 0, 0, 12>>, <<12, 0, 6, 12>>, <<12, 0, -4, 12>>, <<8, 4, -4, 8>>, <<0, 12, 12, 0>> }
ASSUME \A lat \in Lats : \A m \in {<<1, 0>>, <<0, 1>>, <<2, -3>>} :
   LET q == Kap(lat, <<0, 0>>, m) IN
   /\ q[1] * lat[1] + q[2] * lat[2] = m[1] * KD(lat) * LU
   /\ q[1] * lat[3] + q[2] * lat[4] = m[2] * KD(lat) * LU
=============================================================================
