------------------------------ MODULE VariationMC ------------------------------
(* Why the laws hold: symmetric integer matrices grow by states or by        *)
(* something positive.  The number of eigenvalues above x is the number of   *)
(* changes of sign in the characteristic polynomial of M - x (Descartes, all *)
(* roots are real).  RENORM: the broken variant in which the states that     *)
(* were there change when a state is added.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS RENORM, R
VARIABLES m, n, old, act
vars == <<m, n, old, act>>
E == (-R)..R
(* M is a function on {<<i, j>> : i <= j <= 3}; only the first n states count *)
Ix == { p \in (1..3) \X (1..3) : p[1] <= p[2] }
At(M, i, j) == IF i <= j THEN M[<<i, j>>] ELSE M[<<j, i>>]
(* invariants of the leading block of M - x                                  *)
D(M, i, x) == At(M, i, i) - x
Tr(M, k, x) == IF k = 1 THEN D(M, 1, x) ELSE IF k = 2 THEN D(M, 1, x) + D(M, 2, x) ELSE D(M, 1, x) + D(M, 2, x) + D(M, 3, x)
M2(M, i, j, x) == D(M, i, x) * D(M, j, x) - At(M, i, j) * At(M, i, j)
E2(M, k, x) == IF k = 1 THEN 0 ELSE IF k = 2 THEN M2(M, 1, 2, x) ELSE M2(M, 1, 2, x) + M2(M, 1, 3, x) + M2(M, 2, 3, x)
E3(M, k, x) == IF k < 3 THEN 0 ELSE
   D(M, 1, x) * M2(M, 2, 3, x) - At(M, 1, 2) * (At(M, 1, 2) * D(M, 3, x) - At(M, 2, 3) * At(M, 1, 3))
   + At(M, 1, 3) * (At(M, 1, 2) * At(M, 2, 3) - D(M, 2, x) * At(M, 1, 3))
(* lambda^k - Tr lambda^(k-1) + E2 lambda^(k-2) - E3 lambda^(k-3)            *)
Coeffs(M, k, x) == SelectSeq(IF k = 1 THEN <<1, -Tr(M, 1, x)>> ELSE IF k = 2 THEN <<1, -Tr(M, 2, x), E2(M, 2, x)>>
                             ELSE <<1, -Tr(M, 3, x), E2(M, 3, x), -E3(M, 3, x)>>, LAMBDA y : y # 0)
Above(M, k, x) == LET c == Coeffs(M, k, x) IN Cardinality({ i \in 1..(Len(c) - 1) : (c[i] > 0) # (c[i + 1] > 0) })
Init == m \in [Ix -> E] /\ n = 1 /\ old = <<>> /\ act = "none"
Grow == /\ n < 3 /\ n' = n + 1 /\ old' = <<m, n>> /\ act' = "states"
        /\ IF RENORM THEN \E e \in {-1, 1} : m' = [m EXCEPT ![<<1, 1>>] = @ + e] ELSE m' = m
(* add the square of an integer vector                                       *)
Raise == /\ \E v \in [1..3 -> {-1, 0, 1}] : m' = [p \in Ix |-> m[p] + v[p[1]] * v[p[2]]]
         /\ old' = <<m, n>> /\ act' = "positive" /\ UNCHANGED n
Next == (act = "none" /\ (Grow \/ Raise)) \/ (act = "states" /\ Grow)
Spec == Init /\ [][Next]_vars
Xs == (-2 * R - 3)..(2 * R + 3)
(* the number of eigenvalues up to x says everything about their order       *)
Laws == old # <<>> => \A x \in Xs :
   LET a == Above(old[1], old[2], x)  b == Above(m, n, x) IN
   IF act = "states" THEN a <= b /\ b <= a + 1 ELSE a <= b
=============================================================================
