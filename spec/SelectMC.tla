------------------------------- MODULE SelectMC -------------------------------
(* The solver ranks all modes by their distance, keeps n and sorts them.      *)
(* WINDOW is a variant that keeps a run of n starting at the nearest mode.    *)
EXTENDS Select
CONSTANTS WINDOW
VARIABLES F, n, sg, metric, kept, out, pc
vars == <<F, n, sg, metric, kept, out, pc>>
Lists == { s \in [1..4 -> 0..5] : \A i \in 1..3 : s[i] <= s[i + 1] }
Init == /\ F \in Lists /\ n \in 1..4 /\ sg \in 0..6 /\ metric \in {"linear", "square"}
        /\ kept = {} /\ out = <<>> /\ pc = "rank"
D(i) == Dist(metric, F[i], sg, 1)
Rank == /\ pc = "rank" /\ Cardinality(kept) < n
        /\ \E i \in DOMAIN F \ kept :
             /\ IF WINDOW /\ kept # {} THEN i - 1 \in kept
                ELSE \A j \in DOMAIN F \ kept : D(i) <= D(j)
             /\ kept' = kept \union {i}
        /\ UNCHANGED <<F, n, sg, metric, out, pc>>
Sort == /\ pc = "rank" /\ Cardinality(kept) = n /\ pc' = "sort" /\ UNCHANGED <<F, n, sg, metric, kept, out>>
Put == /\ pc = "sort" /\ kept # {}
       /\ LET i == CHOOSE i \in kept : \A j \in kept : F[i] <= F[j]
          IN out' = Append(out, F[i]) /\ kept' = kept \ {i}
       /\ UNCHANGED <<F, n, sg, metric, pc>>
Next == Rank \/ Sort \/ Put
Spec == Init /\ [][Next]_vars
Done == pc = "sort" /\ kept = {}
Right == Done => /\ Len(out) = n /\ Ascending(out, 0) /\ Len(Chosen(F, out, 0)) = n
                 /\ Nearest(F, Chosen(F, out, 0), metric, sg, 1, 0)
Prefix == Done /\ sg = 0 => out = SubSeq(F, 1, n)
=============================================================================
