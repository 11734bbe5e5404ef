------------------------------ MODULE FoldingMC ------------------------------
(* The bands are built by taking the reciprocal vectors in any order.        *)
(* disp: frequencies of a slab with a fundamental and a second mode that     *)
(* appears above a cutoff.                                                   *)
EXTENDS Folding
CONSTANTS DROPEQUAL
VARIABLES k, todo, bands
B == { <<i, j>> : i \in -1..1, j \in -1..1 } \ { <<1, 1>>, <<-1, -1>> }
Lat == <<12, 0, 0, 12>>
F2(m) == Kap2(Lat, k, m) \div 10000
Modes(m) == LET x == F2(m) IN IF x > 1200 THEN <<x, x + 700>> ELSE <<x>>
All == Asc(Cat([i \in 1..Len(SetToSeq(B)) |-> Modes(SetToSeq(B)[i])]))
Init == k \in { <<0, 0>>, <<3, 1>>, <<10, 0>>, <<10, 10>> } /\ todo = B /\ bands = <<>>
Take == \E m \in todo : /\ todo' = todo \ {m}
                        /\ bands' = MergeAll(IF DROPEQUAL THEN SelectSeq(Modes(m), LAMBDA x : ~ \E i \in DOMAIN bands : bands[i] = x) ELSE Modes(m), bands)
                        /\ k' = k
Next == Take
Spec == Init /\ [][Next]_<<k, todo, bands>>
Sorted == \A i \in 1..(Len(bands) - 1) : bands[i] <= bands[i + 1]
Complete == todo = {} => bands = All
=============================================================================
