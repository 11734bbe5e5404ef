------------------------------ MODULE ExcitonMC ------------------------------
(* Histories of adding disjoint parts, splitting, moving and reordering.     *)
EXTENDS Exciton
CONSTANTS N, VMIN, PERPART
VARIABLES parts, V, moved, base
vars == <<parts, V, moved, base>>
(* the variant that refers every part to its bottom separately is wrong      *)
PotI(p, v) == IF ~PERPART THEN Pot(N, p, v)
              ELSE [x \in 0..(N - 1) |-> Raw(N, p, v, x) + IF v < 0 THEN Len(p) * AbsE(v) ELSE 0]
Cells == 0..(N - 1)
Free == Cells \ UNION { parts[i] : i \in DOMAIN parts }
Init == parts = <<>> /\ V \in ((0 - VMIN)..2) \ {0} /\ moved = 0 /\ base = [x \in Cells |-> 0]
Add == moved = 0 /\ Len(parts) < 3 /\ \E S \in (SUBSET Free) \ {{}} :
         parts' = Append(parts, S) /\ base' = PotI(parts', V) /\ UNCHANGED <<V, moved>>
Cut == Len(parts) \in 1..3 /\ \E i \in DOMAIN parts : \E S \in (SUBSET parts[i]) \ {{}, parts[i]} :
         parts' = Append([parts EXCEPT ![i] = S], parts[i] \ S) /\ UNCHANGED <<V, moved, base>>
Swap == Len(parts) > 1 /\ parts' = <<parts[Len(parts)]>> \o SubSeq(parts, 1, Len(parts) - 1)
        /\ UNCHANGED <<V, moved, base>>
Move == Len(parts) > 0 /\ parts' = Moved(N, parts, 1) /\ moved' = (moved + 1) % N /\ UNCHANGED <<V, base>>
Next == Add \/ Cut \/ Swap \/ Move
Spec == Init /\ [][Next]_vars
(* whatever way it is composed and moved, it is the same potential           *)
Same == Len(parts) > 0 => \A x \in Cells : PotI(parts, V)[(x + moved) % N] = base[x]
(* between zero and the height of the shapes *)
Range == Len(parts) > 0 => \A x \in Cells : PotI(parts, V)[x] \in {0, AbsE(V)}
Cover == Len(parts) > 0 /\ Free = {} => \A x \in Cells : PotI(parts, V)[x] = Covered(V)
=============================================================================
