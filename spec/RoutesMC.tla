------------------------------- MODULE RoutesMC -------------------------------
(* A run over a list of k-points of a one-dimensional lattice: the table is  *)
(* made once, from the largest k and G, then read for every k+G.  With SHORT *)
(* it reaches the largest G only.                                            *)
EXTENDS Routes
CONSTANTS SHORT
VARIABLES ks, n, at, max, got
GS == { -12, -6, 0, 6, 12 }
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Lists == UNION { [1..m -> {-5, -2, 0, 1, 4}] : m \in 1..3 }
Init == ks \in Lists /\ n \in {2, 5, 9, 16} /\ at = 0 /\ max = 0 /\ got = {}
Table == at = 0 /\ max' = MaxOf({ Abs(g) : g \in GS }) + (IF SHORT THEN 0 ELSE MaxOf({ Abs(ks[i]) : i \in DOMAIN ks })) /\ at' = 1 /\ UNCHANGED <<ks, n, got>>
Solve == at \in 1..Len(ks) /\ got' = { Abs(ks[at] + g) : g \in GS } /\ at' = at + 1 /\ UNCHANGED <<ks, n, max>>
Next == Table \/ Solve
Spec == Init /\ [][Next]_<<ks, n, at, max, got>>
Inside == \A g \in got : g <= max
Good == \A g \in got : Accurate(g, max, n)
=============================================================================
