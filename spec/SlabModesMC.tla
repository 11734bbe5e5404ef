----------------------------- MODULE SlabModesMC -----------------------------
(* The search for guided modes over a list of wave vectors: lam runs from    *)
(* its lower to its upper bound; the upper bound is taken from the previous  *)
(* wave vector where that found all NM modes.  Every mode has to be found    *)
(* once, in order, mode i with i nodes.                                      *)
EXTENDS SlabModes
CONSTANTS D, STEP, NM, SPEED, UPWARD
VARIABLES e, q, lam, ub, found, prev, sep
Es == [1..3 -> {1, 2, 3}] \cup { <<1, 3, 1, 3>>, <<2, 2, 2, 2>>, <<3, 1, 1, 3>>, <<1, 3, 3, 1>> }
Qs == { 0, 3, 6, 12 }
Top(qq) == qq + 3 * D                       \* the light line
Chains(x, qq, a, b) == { i \in (a + 1)..b : LET s == Last(Chain(x, qq, i - 1, D))  r == Last(Chain(x, qq, i, D)) IN Sign(s) # Sign(r) /\ s # 0 }
(* modes that are not a step apart cannot be told from each other            *)
Apart(x, qq, b) == LET C == Chains(x, qq, 0, b) IN \A i, j \in C : i # j => (i - j > 2 * STEP \/ j - i > 2 * STEP)
Init == /\ e \in Es /\ q \in Qs /\ lam = 0 /\ ub = Top(q) /\ found = <<>> /\ prev = <<>> /\ sep = Apart(e, q, Top(q))
Raise == /\ lam < ub /\ Len(found) < NM
         /\ LET n == IF lam + STEP < ub THEN lam + STEP ELSE ub IN
            /\ lam' = n
            /\ found' = IF Sign(Last(Chain(e, q, lam, D))) * Sign(Last(Chain(e, q, n, D))) <= 0 /\ Last(Chain(e, q, lam, D)) # 0
                        THEN Append(found, n) ELSE found
         /\ UNCHANGED <<e, q, ub, prev, sep>>
Done == lam = ub \/ Len(found) = NM
(* the next wave vector *)
NextQ == /\ Done /\ prev = <<>>
         /\ \E p \in Qs : /\ q' = p /\ sep' = (sep /\ Apart(e, p, Top(p)))
              /\ ub' = IF Len(found) = NM
                       THEN LET b == Last(found) + STEP + (IF UPWARD /\ p < q THEN 0 ELSE SPEED * (p - q))
                            IN IF b < 1 THEN 1 ELSE IF b < Top(p) THEN b ELSE Top(p)
                       ELSE Top(p)
         /\ prev' = found /\ found' = <<>> /\ lam' = 0 /\ e' = e
Next == Raise \/ NextQ
Spec == Init /\ [][Next]_<<e, q, lam, ub, found, prev, sep>>
M == Nodes(e, q, Top(q), D)
(* the number of nodes never decreases with lam and counts the modes below   *)
Monotone == Nodes(e, q, lam, D) <= Nodes(e, q, lam + 1, D)
NodesCount == Nodes(e, q, lam, D) = Cardinality(Chains(e, q, 0, lam)) -
                 (IF Last(Chain(e, q, lam, D)) = 0 THEN 1 ELSE 0)
AllFound == Done /\ sep => Len(found) = (IF M < NM THEN M ELSE NM)
NumberedByNodes == sep => \A i \in DOMAIN found : found[i] > 0 /\
                      Nodes(e, q, found[i] - STEP, D) <= i - 1 /\ Nodes(e, q, found[i] + 1, D) >= i
=============================================================================
