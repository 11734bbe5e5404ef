------------------------------- MODULE KListMC -------------------------------
(* A solver that goes through the list with per-k stores.  Val(id) stands    *)
(* for the result of a k-point, Modes(id) for the guided modes it needs.     *)
(* SHARED is the variant in which a k-point that was in the list before is   *)
(* given no entry of its own in the store of guided modes.                   *)
EXTENDS KList
CONSTANTS SHARED
VARIABLES ks, i, modes, res, pc
vars == <<ks, i, modes, res, pc>>
Ids == 1..3
Modes(id) == <<"m", id>>
Init == /\ ks \in UNION { [1..n -> Ids] : n \in 1..4 }
        /\ i = 1 /\ modes = <<>> /\ res = <<>> /\ pc = "guided"
Guided == /\ pc = "guided" /\ i <= Len(ks)
          /\ modes' = IF SHARED /\ \E j \in 1..(i - 1) : ks[j] = ks[i] THEN modes ELSE Append(modes, Modes(ks[i]))
          /\ pc' = "solve" /\ UNCHANGED <<ks, i, res>>
Solve == /\ pc = "solve"
         /\ res' = Append(res, IF i \in DOMAIN modes THEN <<ks[i], modes[i]>> ELSE <<ks[i], modes[Len(modes)]>>)
         /\ i' = i + 1 /\ pc' = "guided" /\ UNCHANGED <<ks, modes>>
Next == Guided \/ Solve
Spec == Init /\ [][Next]_vars
Alone(id) == <<id, Modes(id)>>
SameAs(a, b) == a = b
Right == i > Len(ks) => Independent([id \in Ids |-> Alone(id)], ks, res, SameAs)
=============================================================================
