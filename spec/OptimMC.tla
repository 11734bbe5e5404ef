------------------------------- MODULE OptimMC -------------------------------
(* One optimizer object used twice, each time from another start, for N      *)
(* epochs on |p - 3| with slope 2 on the left and 1 on the right; the step   *)
(* is one unit along the sign of the first moment (beta1 = 1/2).             *)
(* MOVELAST: the parameters are updated in the last epoch too.  KEEP: the    *)
(* moments of the first use are kept.                                        *)
EXTENDS Optim
CONSTANTS MOVELAST, KEEP
VARIABLES use, n, N, p, b, grads, seen, hist, phase
vars == <<use, n, N, p, b, grads, seen, hist, phase>>
F(x) == IF x < 3 THEN 2 * (3 - x) ELSE x - 3
G(x) == IF x < 3 THEN -2 ELSE 1
Bnds == { <<NONE, NONE>>, <<1, 5>>, <<2, NONE>>, <<4, 4>> }
Starts(bb) == { x \in 0..6 : Inside(x, bb) }
Init == /\ use = 1 /\ n = 0 /\ N \in 1..4 /\ b \in Bnds /\ p \in Starts(b)
        /\ grads = <<>> /\ seen = <<>> /\ hist = <<>> /\ phase = "eval"
Eval == /\ phase = "eval" /\ n < N
        /\ seen' = Append(seen, p) /\ hist' = Append(hist, F(p)) /\ grads' = Append(grads, G(p))
        /\ n' = n + 1 /\ phase' = "move" /\ UNCHANGED <<use, N, p, b>>
SignOf(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Move == /\ phase = "move"
        /\ p' = IF n < N \/ MOVELAST THEN Snap(p - SignOf(Moment(grads, Len(grads), TRUE)), b) ELSE p
        /\ phase' = (IF n = N THEN "done" ELSE "eval") /\ UNCHANGED <<use, n, N, b, grads, seen, hist>>
Again == /\ phase = "done" /\ use = 1 /\ use' = 2 /\ n' = 0 /\ N' \in 1..4 /\ b' \in Bnds /\ p' \in Starts(b')
         /\ grads' = (IF KEEP THEN grads ELSE <<>>) /\ seen' = <<>> /\ hist' = <<>> /\ phase' = "eval"
Next == Eval \/ Move \/ Again
Spec == Init /\ [][Next]_vars
InBounds == \A i \in DOMAIN seen : Inside(seen[i], b)
Belong == Len(hist) = Len(seen) /\ \A i \in DOMAIN hist : hist[i] = F(seen[i])
Returned == phase = "done" => Len(hist) = N /\ p = seen[N]
(* the same visit as a new optimizer makes                                   *)
RECURSIVE Visit(_, _)
Visit(q, k) == IF Len(q) = k THEN q
  ELSE Visit(Append(q, Snap(q[Len(q)] - SignOf(Moment([i \in DOMAIN q |-> G(q[i])], Len(q), TRUE)), b)), k)
Afresh == seen # <<>> => seen = Visit(<<seen[1]>>, Len(seen))
=============================================================================
