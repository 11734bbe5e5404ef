------------------------------- MODULE GradMC --------------------------------
(* Reverse accumulation over every small program of additions, products,     *)
(* negations and constants of two parameters: the adjoint of a parameter is  *)
(* the derivative of the polynomial (from central differences, exact with    *)
(* the fourth-order rule up to degree four), and the laws of Grad.tla hold.  *)
(* OVERWRITE: the adjoint of a node used several times is that of its last   *)
(* use.  DETACH: the value of a node that vanishes is passed on, but not its *)
(* derivative.                                                               *)
EXTENDS Grad, TLC
CONSTANTS OVERWRITE, DETACH, NODES
VARIABLES prog, phase, adj, at, p
vars == <<prog, phase, adj, at, p>>
(* nodes 1 and 2 are the parameters, later ones <<op, a, b>>                  *)
Ops == {"add", "mul", "neg"}
Init == prog = <<>> /\ phase = "write" /\ adj = <<>> /\ at = 0 /\ p \in (-1..1) \X (0..2)
N == Len(prog) + 2
Write == /\ phase = "write" /\ Len(prog) < NODES
         /\ \E o \in Ops, a \in 1..N, b \in 1..N : prog' = Append(prog, <<o, a, IF o = "neg" THEN a ELSE b>>)
         /\ UNCHANGED <<phase, adj, at, p>>
RECURSIVE Val(_, _)
Val(n, q) == IF n <= 2 THEN q[n]
  ELSE LET e == prog[n - 2] IN CASE e[1] = "add" -> Val(e[2], q) + Val(e[3], q) [] e[1] = "mul" -> Val(e[2], q) * Val(e[3], q) [] OTHER -> -Val(e[2], q)
Begin == /\ phase = "write" /\ Len(prog) = NODES
         /\ phase' = "back" /\ at' = N /\ adj' = [n \in 1..N |-> IF n = N THEN 1 ELSE 0] /\ UNCHANGED <<prog, p>>
Put(f, n, x) == [f EXCEPT ![n] = IF OVERWRITE THEN x ELSE @ + x]
Back == /\ phase = "back" /\ at > 2
        /\ LET e == prog[at - 2]  g == IF DETACH /\ Val(at, p) = 0 THEN 0 ELSE adj[at] IN
           adj' = CASE e[1] = "add" -> Put(Put(adj, e[2], g), e[3], g)
                    [] e[1] = "mul" -> Put(Put(adj, e[2], g * Val(e[3], p)), e[3], g * Val(e[2], p))
                    [] OTHER -> Put(adj, e[2], -g)
        /\ at' = at - 1 /\ UNCHANGED <<prog, phase, p>>
Done == phase = "back" /\ at = 2 /\ phase' = "done" /\ UNCHANGED <<prog, adj, at, p>>
Next == Write \/ Begin \/ Back \/ Done
Spec == Init /\ [][Next]_vars
F(q) == Val(NODES + 2, q)
Along(c) == Diff12([i \in 1..4 |-> LET h == <<1, -1, 2, -2>>[i] IN F(<<p[1] + h * c[1], p[2] + h * c[2]>>)])
(* (three products make degree 8: the rule is exact up to 4)                 *)
RECURSIVE Deg(_)
Deg(n) == IF n <= 2 THEN 1 ELSE LET e == prog[n - 2] IN IF e[1] = "mul" THEN Deg(e[2]) + Deg(e[3]) ELSE IF Deg(e[2]) > Deg(e[3]) THEN Deg(e[2]) ELSE Deg(e[3])
True == phase = "done" /\ Deg(NODES + 2) <= 4 => \A c \in {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, -1>>} : 12 * Dot(c, adj) = Along(c)
=============================================================================
